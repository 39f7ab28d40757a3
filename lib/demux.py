"""C09-C12: the parser, its streams and combined streams."""
import core
import flow


def mc(hist, **c):
    k = dict(Strict="TRUE", Csids="{1, 2}", MaxOps="6", MaxItems="3", Endless="TRUE", History="TRUE" if hist else "FALSE")
    k.update({a: b for a, b in c.items() if a != "Combos"})
    return ("DemuxMC", core.cfg(inv=["TypeOK", "Rest"] + (["Show"] if hist else []), consts=k,
                                subst=dict(Combos=c.get("Combos", "C12"))))


def models(ck):
    big = mc(False, MaxOps=str(ck.n(7, 9)), MaxItems=str(ck.n(3, 4)))
    gen = mc(True, MaxOps=str(ck.n(4, 5)), Endless="FALSE")
    return [big, gen]


def trace(prop):
    """Only C12 says when a stream has to end."""
    return ("TraceDemux", core.cfg(inv=["Inv"], consts=dict(Strict="TRUE" if prop == "C12" else "FALSE")))


def steps(d):
    return [e for e in d["ev"] if e["k"] == "step"]


def answers(d, pos=True):
    return [(e, x, i) for e in steps(d) for x in e["res"] for i, g in enumerate(x["got"]) if not pos or g > 0]


def lost(d, rng):
    """A message or error that never came."""
    a = answers(d)
    if not a:
        return None
    e, x, i = rng.choice(a)
    if e is [s for s in steps(d)][-1]:
        return None
    del x["got"][i]
    return d


def twice(d, rng):
    a = answers(d)
    if not a:
        return None
    e, x, i = rng.choice(a)
    x["got"].insert(i, x["got"][i])
    return d


def strange(d, rng):
    a = answers(d)
    if not a:
        return None
    e, x, i = rng.choice(a)
    x["got"][i] = -2
    return d


def misdirected(d, rng):
    a = [(e, x, i) for e, x, i in answers(d) if x["h"] != 0]
    if not a:
        return None
    e, x, i = rng.choice(a)
    g = x["got"].pop(i)
    for y in e["res"]:
        if y["h"] == 0:
            y["got"].insert(0, g)
            return d
    e["res"].append(dict(h=0, got=[g]))
    return d


def not_ended(d, rng):
    a = [(e, x, i) for e, x, i in answers(d, False) if x["got"][i] == 0]
    if not a:
        return None
    e, x, i = rng.choice(a)
    x["got"].pop()
    return d


def not_closed(d, rng):
    for e in d["ev"]:
        if e["k"] == "step" and e["closed"]:
            e["closed"] = False
            return d


def leaked(d, rng):
    d["ev"][-2]["left"] = 1
    return d


def read_on(d, rng):
    d["ev"][-2].update(taken=d["ev"][-2]["bound"] + 1, reads=2)
    return d


def reqs(d):
    return [o for e in steps(d) for o in e["ops"] if o["o"] == "req"]


def wrong_request(d, rng):
    q = [o for o in reqs(d) if len(o["ids"]) != 1]
    if not q:
        return None
    o = rng.choice(q)
    o["h"] = -1 if o["h"] > 0 else 1 + max(x["h"] for x in reqs(d) + [dict(h=1)])
    return d


def another_stream(d, rng):
    seen = {}
    for o in reqs(d):
        if len(o["ids"]) == 1:
            c = o["ids"][0]
            if c in seen:
                o["h"] = 1 + max(x["h"] for x in reqs(d))
                return d
            seen[c] = o["h"]


def same_stream(d, rng):
    """The same stream for two chunk streams."""
    s = [o for o in reqs(d) if len(o["ids"]) == 1]
    for a in s:
        for b in s:
            if a["ids"] != b["ids"] and b["h"] > a["h"]:
                b["h"] = a["h"]
                return d


MUTS = dict(C09=[lost, twice, strange, misdirected],
            C10=[wrong_request, another_stream, same_stream],
            C12=[not_ended, not_closed, leaked, read_on, strange])


# ---------------------------------------------------------------- registry

REGISTRY = ("TraceRegistry", core.cfg(inv=["Inv"], consts=dict(Strict="FALSE")))


def calls(d):
    """Pairs of request and answer."""
    res = []
    for i, e in enumerate(d["ev"]):
        if e["k"] == "call":
            r = next(x for x in d["ev"][i:] if x["k"] == "ret" and x["t"] == e["t"])
            res.append((e, r))
    return res


def reg_other(d, rng):
    """The same chunk stream, but another stream."""
    seen = set()
    for c, r in calls(d):
        if len(c["ids"]) == 1:
            if c["ids"][0] in seen:
                r["h"] = 99
                return d
            seen.add(c["ids"][0])


def reg_both(d, rng):
    """Two combined streams with a chunk stream in common."""
    ms = [(c, r) for c, r in calls(d) if len(c["ids"]) > 1]
    for c, r in ms:
        for c2, r2 in ms:
            if r["h"] > 0 and r2["h"] == -1 and set(c["ids"]) & set(c2["ids"]):
                r2["h"] = 99
                return d


def reg_got(d, rng):
    g = [e for e in d["ev"] if e["k"] == "got"]
    if not g:
        return None
    d["ev"].remove(rng.choice(g))
    return d


def races(ck, binary, prop, tier="quick"):
    """The same under the race detector: a report ends the process."""
    run = core.run_harness(ck.sc, binary, prop, tier, ck.seed + 1000, max_broken=3,
                           extra=dict(GORACE="halt_on_error=1 exitcode=66"))
    for i, how, out in run.broken:
        kind = "data race" if "DATA RACE" in out else how
        ck.violation("race-%s" % i, "%s in scenario %s" % (kind, i), dict(harness="race", output=out[-12000:]))
    ck.cov.setdefault("race_detector", {})[prop] = dict(scenarios=run.total, traces=len(run.traces))
    return run


def registry(ck, binary, racing):
    run = core.run_harness(ck.sc, binary, "C10conc", ck.tier, ck.seed)
    flow.conform(ck, "registry", run, *REGISTRY, mutators=[reg_other, reg_both, reg_got],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, "C10conc", ck.tier, ck.seed, only=i, hang=90))
    races(ck, racing, "C10conc")


def check(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    br = ck.par.start(core.go_build, ck.sc, env, "hchunk", race=True) if ck.prop == "C10" else None
    gen = flow.model(ck, models(ck), sample=ck.n(2000, 30000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "parser", run, *trace(ck.prop), mutators=MUTS[ck.prop],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
    if ck.prop == "C10":
        registry(ck, binary, core.Par.get(br))


# --------------------------------------------------------- combined streams

FTRACE = ("TraceFanIn", core.cfg(inv=["Inv"]))


def fmc(hist, **c):
    k = dict(Srcs="{1, 2, 3}", MaxOps="8", MaxSent="2", History="TRUE" if hist else "FALSE")
    return ("FanInMC", core.cfg(inv=["TypeOK", "Rest"] + (["Show"] if hist else []), consts=dict(k, **c)))


def fans(d):
    return [(e, i) for e in steps(d) for i, x in enumerate(e["res"])]


def f_lost(d, rng):
    a = [(e, i) for e, i in fans(d) if e["res"][i][0] > 0]
    if not a:
        return None
    e, i = rng.choice(a)
    del e["res"][i]
    return d


def f_twice(d, rng):
    a = [(e, i) for e, i in fans(d) if e["res"][i][0] > 0]
    if not a:
        return None
    e, i = rng.choice(a)
    e["res"].insert(i, e["res"][i])
    return d


def f_swapped(d, rng):
    a = [(e, i) for e, i in fans(d) if i and e["res"][i][0] == e["res"][i - 1][0]]
    if not a:
        return None
    e, i = rng.choice(a)
    e["res"][i], e["res"][i - 1] = e["res"][i - 1], e["res"][i]
    return d


def f_early(d, rng):
    """The wait was over a step earlier."""
    s = steps(d)
    for a, b in zip(s, s[1:]):
        if b["waited"] and not a["waited"]:
            a["waited"] = True
            return d


def f_endless(d, rng):
    a = [(e, i) for e, i in fans(d) if e["res"][i] == [0, 0]]
    if not a:
        return None
    e, i = rng.choice(a)
    del e["res"][i]
    return d


def fanin(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    br = ck.par.start(core.go_build, ck.sc, env, "hchunk", race=True)
    gen = flow.model(ck, [fmc(False, MaxOps=str(ck.n(8, 10))),
                          fmc(True, MaxOps=str(ck.n(5, 6)), Srcs="{1, 2}", MaxSent="1")], sample=ck.n(3000, 40000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "combined", run, *FTRACE, mutators=[f_lost, f_twice, f_swapped, f_early, f_endless],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
    races(ck, core.Par.get(br), "C11")
