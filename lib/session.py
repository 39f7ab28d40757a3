"""C21: client sessions and the server."""
import core
import flow


def cfg(wedges):
    return core.cfg(inv=["Inv"], subst=dict(WireOf="TraceWire"),
                    consts=dict(TimeLen="8", PayLen="1528", Version="3", Wedges="TRUE" if wedges else "FALSE"))


def mc(ops, maxin, kinds, shaken, hist=False, wedges=False):
    b = {True: "TRUE", False: "FALSE"}
    return ("SessionMC", core.cfg(
        inv=["TypeOK", "OnlyAfter", "InTurn", "Rest"] + (["Show"] if hist else []),
        consts=dict(TimeLen="1", PayLen="1", Version="3", Wedges=b[wedges], MaxOps=str(ops), MaxIn=str(maxin),
                    Kinds="{" + ", ".join('"%s"' % k for k in kinds.split()) + "}", Shaken=b[shaken], History=b[hist])))


def walks(ck, ops, shaken):
    """Long behaviours, at random."""
    return mc(ops, 6, "ctl ctlbad conn3 conn8 str4 str8 data4 none5", shaken, hist=True) + (
        dict(args=("-simulate", "num=%d" % ck.n(400, 3000), "-depth", "100", "-seed", str(ck.seed))),)


def amc(ops, hist):
    return ("AcceptorMC", core.cfg(inv=["TypeOK", "Rest", "Bound"] + (["Show"] if hist else []),
                                   consts=dict(MaxOps=str(ops), Shorts="TRUE", History="TRUE" if hist else "FALSE")))


def steps(d, f):
    return [e for e in d["ev"] if e["k"] == "step" and f(e)]


def outs(d, f):
    return [(e, i) for e in steps(d, lambda e: True) for i, y in enumerate(e["outs"]) if f(y)]


def lost(d, rng):
    """A message does not come out, although everything is taken at the end."""
    o = outs(d, lambda y: y["c"] != "out")
    if not o or not any(o.get("n") == 300 for e in steps(d, lambda e: True) for o in e["ops"]):
        return None
    e, i = rng.choice(o)
    del e["outs"][i]
    return d


def twice(d, rng):
    o = outs(d, lambda y: True)
    if not o:
        return None
    e, i = rng.choice(o)
    e["outs"].insert(i, e["outs"][i])
    return d


def altered(d, rng):
    o = outs(d, lambda y: y["c"] == "in" and y["e"] == "ctl" and y["v"]["t"] in (2, 3, 5, 6))
    if not o:
        return None
    e, i = rng.choice(o)
    e["outs"][i]["v"]["v"][rng.randrange(4)] ^= 1
    return d


def written(d, rng):
    o = outs(d, lambda y: y["c"] == "out")
    if not o:
        return None
    e, i = rng.choice(o)
    y = e["outs"][i]["v"]
    if "data" not in y or not y["data"]:
        return None
    y["data"][rng.randrange(len(y["data"]))] ^= 1
    return d


def unwritten(d, rng):
    o = outs(d, lambda y: y["c"] == "out")
    if not o:
        return None
    e, i = o[-1]
    del e["outs"][i]
    return d


def early(d, rng):
    """Something comes out before the handshake is over."""
    s = steps(d, lambda e: True)
    o = outs(d, lambda y: y["c"] == "in")
    e0 = [e for e in s if e["hs"] != "ok"]
    if not o or not e0:
        return None
    e, i = o[0]
    e0[-1]["outs"].append(e["outs"].pop(i))
    return d


def refused(d, rng):
    """What a client that was turned away has sent comes out."""
    s = steps(d, lambda e: e["hs"] == "err")
    if not s:
        return None
    s[-1]["outs"].append({"e": "ctl", "c": "errs", "v": 0})
    return d


def accepted(d, rng):
    s = steps(d, lambda e: e["hs"] == "err")
    if not s:
        return None
    for e in s:
        e["hs"] = "ok"
    return d


def shy(d, rng):
    """The handshake stops short of its last byte."""
    s = steps(d, lambda e: e["wr"] == 3073)
    if not s or any(e["hs"] == "err" for e in d["ev"] if e["k"] == "step"):
        return None
    for e in s:
        e["wr"] = 3072
    return d


def unfinished(d, rng):
    s = steps(d, lambda e: e["hs"] == "ok")
    if not s or any(e["outs"] for e in s):
        return None
    for e in s:
        e["hs"] = "run"
    return d


def clients(d):
    return [i for i, e in enumerate(d["ev"]) if e["k"] == "client"]


def unborn(d, rng):
    """A connection does not become a client, although one is asked for."""
    i = clients(d)
    if not i or any(e["k"] in ("close", "short") for e in d["ev"]):
        return None
    del d["ev"][rng.choice(i)]
    return d


def twins(d, rng):
    i = clients(d)
    if len(i) < 2:
        return None
    a, b = rng.sample(i, 2)
    d["ev"][a]["c"] = d["ev"][b]["c"]
    return d


def nobody(d, rng):
    i = clients(d)
    if not i:
        return None
    d["ev"][rng.choice(i)]["c"] = 0
    return d


def reopened(d, rng):
    i = [e for e in d["ev"] if e["k"] == "refused"]
    if not i:
        return None
    rng.choice(i)["k"] = "dial"
    return d


def false_alarm(d, rng):
    if any(e["k"] in ("close", "short") for e in d["ev"]):
        return None
    d["ev"].insert(rng.randrange(len(d["ev"])), {"k": "error"})
    return d


SESSION = [lost, twice, altered, written, unwritten, early, refused, accepted, shy, unfinished]
SERVER = [unborn, twins, nobody, reopened, false_alarm]


def check(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hsess")
    def go(part, inp, **k):
        k.setdefault("hang", dict(tcp=90, slow=300).get(part))
        return core.run_harness(ck.sc, core.Par.get(b), ck.prop, ck.tier, ck.seed, inputs=inp,
                                extra=dict(HX_PART=part), **k)
    waiting = ck.par.start(go, "slow", None)
    gen = flow.model(ck, [
        mc(ck.n(7, 8), 2, "ctl conn3 conn8 str4", False),
        mc(ck.n(5, 6), ck.n(3, 4), "ctl ctlbad str4 str8 none5 else", True),
        mc(ck.n(5, 6), 4, "ctl str4 else", True, wedges=True),
        mc(ck.n(3, 4), 2, "ctl conn3 str4 data4", False, hist=True),
        walks(ck, 12, False), walks(ck, 10, True)], sample=ck.n(1000, 6000))
    agen = flow.model(ck, [amc(ck.n(8, 10), False), amc(ck.n(6, 7), True)], sample=ck.n(80, 800))
    inp, ainp = flow.write_lines(ck, "inputs", gen), flow.write_lines(ck, "ainputs", agen)
    jobs = ck.par.start(go, "all", inp), ck.par.start(go, "tcp", ainp)
    flow.conform(ck, "sessions", core.Par.get(jobs[0]), "TraceSession", cfg(False), knob=cfg(True), mutators=SESSION,
                 controls=60, hang_retry=lambda i: go("all", inp, only=i, hang=90))
    run, late = core.Par.get(jobs[1]), core.Par.get(waiting)
    run.traces += late.traces
    run.broken += late.broken
    traces = run.traces
    run.traces = [t for t in traces if '"W":' not in t]
    flow.conform(ck, "server", run, "TraceAcceptor", core.cfg(inv=["Inv"]), mutators=SERVER,
                 hang_retry=lambda i: go("slow" if "slow" in i else "tcp", ainp, only=i, hang=300))
    run.traces, run.broken = [t for t in traces if '"W":' in t], []
    flow.conform(ck, "sessions over TCP", run, "TraceSession", cfg(False), mutators=SESSION)
