"""C06 C07: the sending side of a chunk stream."""
import core
import flow

BASE = dict(Csids="{3, 70}", Lens="{0, 1, 5}", Fmts="{0}", Stamps="{7}", WSizes="{2}", Procs="{1}",
            PerProc="2", Changes="FALSE")


def mc(**c):
    return ("WriterMC", core.cfg(inv=["TypeOK", "Recovered", "InOrder"], consts=dict(BASE, **c),
                                 subst=dict(WireOf="HandleIsWire")))


def models(ck):
    q = not ck.thorough
    if ck.prop == "C06":
        return [mc(Csids="{3, 70, 320}", Lens="{0, 2, 5}", Fmts="{0, 1, 2, 3}", Stamps="{7, 16777215}"),
                mc(Csids="{3, 65599}", Lens="{0, 1, 3, 4}", WSizes="{1, 2, 3}", Changes="TRUE",
                   PerProc="2" if q else "3")]
    return [mc(Csids="{3, 70}", Lens="{0, 3}", Procs="{1, 2}", WSizes="{1, 2}", Changes="TRUE",
               PerProc="1" if q else "2"),
            mc(Csids="{3}", Lens="{1, 3}", Procs="{1, 2, 3}", PerProc="1", Stamps="{7, 16777215}")]


def trace(knob):
    return core.cfg(inv=["Inv"], consts=dict(Knob63="TRUE" if knob else "FALSE"), subst=dict(OutOf="TraceOut"))


BIG = core.cfg(inv=["Inv"], consts=dict(Knob63="FALSE"),
               subst=dict(OutOf="BigOut", OutLen="BigOutLen", DataLen="BigDataLen", SameData="BigSameData"))


def flip_byte(d, rng):
    if not d["W"] or d["cut"] >= 0:
        return None
    d["W"][rng.randrange(len(d["W"]))] ^= 1 << rng.randrange(8)
    return d


def lose_byte(d, rng):
    if not d["W"]:
        return None
    del d["W"][rng.randrange(len(d["W"]))]
    return d


def extra_byte(d, rng):
    d["W"].insert(rng.randint(0, len(d["W"])), rng.randrange(256))
    return d


def wrong_result(d, rng):
    r = [e for e in d["ev"] if e["k"] == "ret"]
    if not r:
        return None
    e = rng.choice(r)
    e["e"] = "nil" if e["e"] != "nil" else "fail"
    return d


def late_size(d, rng):
    """A change of write size that comes too late to explain the pieces."""
    ev = d["ev"]
    for i, e in enumerate(ev):
        if e["k"] == "get" and i + 2 < len(ev) and ev[i + 1]["k"] == "call" and ev[i + 2]["k"] == "ret":
            m = d["msgs"][ev[i + 1]["i"] - 1]
            old = [x["n"] for x in ev[:i - 2] if x["k"] == "sized"] or [d["size"]]
            if len(m["data"]) > min(old[-1], e["n"]) and old[-1] != e["n"] and d["cut"] < 0:
                ev[i - 2:i + 3] = ev[i + 1:i + 3] + ev[i - 2:i + 1]
                return d
    return None


def changed(d, rng):
    for e in d["ev"]:
        if e["k"] == "kept":
            e["changed"] = [1]
            return d
    return None


def wrong_run(d, rng):
    if not d["runs"]:
        return None
    rng.choice(d["runs"])[rng.choice("pmon")] -= 1
    return d


def wrong_header(d, rng):
    k = rng.choice(sorted(d["S"]))
    d["S"][k] ^= 1 << rng.randrange(8)
    return d


MUT = [flip_byte, lose_byte, extra_byte, wrong_result, changed]


def check(ck):
    env = core.go_env(ck.sc)
    c07 = ck.prop == "C07"
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    br = ck.par.start(core.go_build, ck.sc, env, "hchunk", race=True) if c07 else None
    gen = flow.model(ck, models(ck), sample=ck.n(400, 4000))
    inp = flow.write_lines(ck, "inputs", gen) if not c07 else None
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "writer", run, "TraceWriter", trace(False), knob=trace(True),
                 mutators=MUT + ([] if c07 else [late_size]),
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
    if ck.prop == "C06":
        run = core.run_harness(ck.sc, binary, "C06big", ck.tier, ck.seed)
        flow.conform(ck, "huge", run, "TraceWriterBig", BIG, mutators=[wrong_run, wrong_header, wrong_result])
    if c07:
        run = core.run_harness(ck.sc, binary, "C07big", ck.tier, ck.seed)
        flow.conform(ck, "large", run, "TraceWriterBig", BIG, mutators=[wrong_run, wrong_header, wrong_result])
        races(ck, core.Par.get(br), "C07race")
        races(ck, core.Par.get(br), "C07", conform=True)
    ck.notes += ["the connection delivers each Write call whole, as net.Conn does"]


def races(ck, binary, prop, conform=False):
    """The same under the race detector: a report ends the process."""
    run = core.run_harness(ck.sc, binary, prop, "quick", ck.seed + (1000 if conform else 0), max_broken=3,
                           extra=dict(GORACE="halt_on_error=1 exitcode=66"))
    for i, how, out in run.broken:
        kind = "data race" if "DATA RACE" in out else how
        ck.violation("race-%s" % i, "%s in scenario %s" % (kind, i), dict(harness="race", output=out[-12000:]))
    ck.cov.setdefault("race_detector", {})[prop] = dict(scenarios=run.total, traces=len(run.traces))
    if conform and not run.broken:
        flow.conform(ck, "writer-race", run, "TraceWriter", trace(False), knob=trace(True))
