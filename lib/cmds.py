"""C19: net connections, net streams and data streams. C22: what they send."""
import core
import duplex
import flow

COMMANDS = ("CommandsMC", core.cfg(inv=["Inverse", "IsCmd"], consts=dict(Depth="1")))


def endpoints(ck):
    duplex.check(ck, "hcmd", "TraceEndpoint",
                 dict(Delivered="EndDelivered", Written="EndWritten", WellFed="EndWellFed"),
                 [("net connection", "conn", False), ("net stream and data stream", "streams", True)],
                 more=[COMMANDS])


# ------------------------------------------------------------------ packages

TRACE = ("TracePackaging", core.cfg(inv=["Inv"]))


def some(d, rng, k):
    i = [e for e in d["ev"] if e["k"] == k]
    return rng.choice(i) if i else None


def envelope(d, rng):
    e = some(d, rng, "build")
    if not e:
        return None
    e["c"][rng.choice(["csid", "type", "len", "fmt"])] += 1
    return d


def payload(d, rng):
    e = some(d, rng, "build")
    if not e:
        return None
    e["c"]["data"][rng.randrange(len(e["c"]["data"]))] ^= 1 << rng.randrange(8)
    return d


def overwritten(d, rng):
    """One package has another's content at the end."""
    e = [e for e in d["ev"] if e["k"] == "look"][-1]
    if len(e["cs"]) < 2:
        return None
    i, j = rng.sample(range(len(e["cs"])), 2)
    if e["cs"][i]["data"] == e["cs"][j]["data"]:
        return None
    e["cs"][i]["data"] = e["cs"][j]["data"]
    return d


def lost(d, rng):
    e = some(d, rng, "look")
    if not e or not e["cs"]:
        return None
    e["cs"].pop()
    return d


def mc(fresh, hist, n):
    return core.cfg(inv=["Own"] + (["Show"] if hist else []),
                    consts=dict(Fresh=fresh, Max=str(n), History="TRUE" if hist else "FALSE"))


def packages(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hcmd")
    br = ck.par.start(core.go_build, ck.sc, env, "hcmd", race=True)
    gen = flow.model(ck, [("PackagingMC", mc("TRUE", True, 3)), ("PackagingMC", mc("TRUE", False, ck.n(4, 5))), COMMANDS],
                     sample=ck.n(600, 3000))
    shared = core.tlc(ck.sc, "PackagingMC", mc("FALSE", False, 3))
    if not shared.violated:
        raise core.CheckError("PackagingMC does not tell a shared buffer from buffers of one's own")
    inp = flow.write_lines(ck, "inputs", gen)

    def go(binary, part, **k):
        return core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp, extra=dict(
            HX_PART=part, GORACE="halt_on_error=1 exitcode=66"), **k)
    binary = core.Par.get(b)
    run = go(binary, "all")
    flow.conform(ck, "packages", run, *TRACE, mutators=[envelope, payload, overwritten, lost],
                 hang_retry=lambda i: go(binary, "all", only=i, hang=90))
    race = go(core.Par.get(br), "race", max_broken=3)
    for i, how, out in race.broken:
        ck.violation("race-%s" % i, "%s in scenario %s" % ("data race" if "DATA RACE" in out else how, i),
                     dict(harness="race", output=out[-12000:]))
    ck.cov["race_detector"] = dict(scenarios=race.total, traces=len(race.traces))


# ------------------------------------------------------------------ dispatch

def dmc(ck, ops, hist, classes='{"conn", "stream", "data", "none"}', bads="{FALSE}", maxin=3):
    return ("DispatchMC", core.cfg(inv=["TypeOK", "Rest"] + (["Show"] if hist else []),
                                   consts=dict(Patience="100", MaxOps=str(ops), MaxIn=str(maxin), Classes=classes,
                                               Bads=bads, History="TRUE" if hist else "FALSE")))


def dsteps(d, f):
    return [i for i, e in enumerate(d["ev"]) if e["k"] == "step" and f(e)]


def elsewhere(d, rng):
    """Something comes out of another endpoint."""
    i = dsteps(d, lambda e: any(x["c"] in ("in", "errs") for x in e["outs"]))
    if not i:
        return None
    x = rng.choice([x for x in d["ev"][rng.choice(i)]["outs"] if x["c"] in ("in", "errs")])
    x["e"] = rng.choice([e for e in ("conn", "stream", "data") if e != x["e"]])
    return d


def undelivered(d, rng):
    i = dsteps(d, lambda e: e["outs"] and not e["closed"])
    if not i or not dsteps(d, lambda e: not e["closed"] and any(o.get("n") == 300 for o in e["ops"])):
        return None
    o = d["ev"][rng.choice(i)]["outs"]
    o.pop(rng.randrange(len(o)))
    return d


def again(d, rng):
    i = dsteps(d, lambda e: e["outs"])
    if not i:
        return None
    o = d["ev"][rng.choice(i)]["outs"]
    j = rng.randrange(len(o))
    o.insert(j, o[j])
    return d


def kept_on(d, rng):
    """A chunk is taken after the close."""
    i = dsteps(d, lambda e: e["closed"])
    if len(i) < 2:
        return None
    d["ev"][i[-1]]["fed"] += 1
    return d


def not_stopped(d, rng):
    """A managed endpoint still writes at the end."""
    if not d["mine"]:
        return None
    i = dsteps(d, lambda e: any(o["o"] == "submit" and o["e"] == "conn" for o in e["ops"]))
    w = dsteps(d, lambda e: any(x["c"] == "out" and x["e"] == "conn" for x in e["outs"]))
    if not i or not w or not d["ev"][i[-1]]["closed"]:
        return None
    x = [x for x in d["ev"][w[-1]]["outs"] if x["c"] == "out" and x["e"] == "conn"][-1]
    d["ev"][i[-1]]["outs"].append(x)
    return d


def endless(d, rng):
    i = dsteps(d, lambda e: e["ends"])
    if not i:
        return None
    e = d["ev"][rng.choice(i)]["ends"]
    e.pop(rng.randrange(len(e)))
    return d


def closed_late(d, rng):
    i = dsteps(d, lambda e: e["closed"])
    if not i:
        return None
    for j in i:
        d["ev"][j]["closed"] = False
    return d


def routed(d, rng):
    i = [e for e in d["ev"] if e["k"] == "sweep"]
    if not i:
        return None
    g = rng.choice(i)["got"]
    k = rng.choice(sorted(g))
    if g[k]:
        g[k].pop(rng.randrange(len(g[k])))
    else:
        g[k].append(rng.randrange(256))
    return d


def opened(d, rng):
    i = [e for e in d["ev"] if e["k"] == "gate"]
    if not i:
        return None
    e = rng.choice(i)
    e["open"] = not e["open"]
    return d


def dispatch(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hman")
    two = '{"conn", "stream", "none"}'
    gen = flow.model(ck, [dmc(ck, ck.n(5, 7), False), dmc(ck, ck.n(6, 8), False, two, "{FALSE, TRUE}", 2),
                          dmc(ck, 4, True), dmc(ck, ck.n(5, 6), True, two, "{FALSE}", 2), COMMANDS],
                     sample=ck.n(800, 8000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)

    def go(**k):
        return core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp, **k)
    flow.conform(ck, "manager", go(), "TraceDispatch", core.cfg(inv=["Inv"], consts=dict(Patience="60")),
                 mutators=[elsewhere, undelivered, again, kept_on, not_stopped, endless, closed_late, routed, opened],
                 controls=60, hang_retry=lambda i: go(only=i, hang=90))
