"""C15: control messages. C16, C17: control streams."""
import core
import flow

MC = ("ControlMC", core.cfg(inv=["Survives", "Again", "Short", "Bytes", "Room", "Told", "Show"],
                            consts=dict(Limits="{0, 1, 2, 3, 127, 255}"),
                            subst=dict(Numbers="Q", Events="E", Bodies="B")))

TRACE = ("TraceControl", core.cfg(inv=["Inv"]))


def some(d, rng, *ks, **want):
    i = [e for e in d["ev"] if e["k"] in ks and all(e.get(a) == b for a, b in want.items())]
    return rng.choice(i) if i else None


def envelope(d, rng):
    e = some(d, rng, "pack")
    if not e:
        return None
    e["c"][rng.choice(["fmt", "csid", "type", "len"])] += 1
    return d


def payload(d, rng):
    e = some(d, rng, "pack")
    if not e:
        return None
    e["c"]["data"][rng.randrange(len(e["c"]["data"]))] ^= 1 << rng.randrange(8)
    return d


def field(d, rng):
    e = some(d, rng, "parse", ok=True)
    if not e:
        return None
    e["m"]["v"][rng.randrange(4)] ^= 1
    return d


def verdict(d, rng):
    c = [e for e in d["ev"] if e["k"] == "parse" and e["ok"] and e["type"] in (2, 3, 5) and len(e["data"]) == 4]
    c += [e for e in d["ev"] if e["k"] == "parse" and not e["ok"] and len(e["data"]) < 2]
    if not c:
        return None
    e = rng.choice(c)
    e["ok"] = not e["ok"]
    e["m"] = dict(t=e["type"], v=[0] * 4, x=0, e=[0, 0], body=[])
    return d


def kept(d, rng):
    e = some(d, rng, "kept")
    if not e or len(e["ms"]) < 2:
        return None
    i, j = rng.sample(range(len(e["ms"])), 2)
    if e["ms"][i] == e["ms"][j]:
        return None
    e["ms"][i] = e["ms"][j]
    return d


def codec(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hctl")
    gen = flow.model(ck, [MC], sample=1000)
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "control", run, *TRACE, mutators=[envelope, payload, field, verdict, kept],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))


# ------------------------------------------------------------ control streams


import duplex  # noqa: E402


def streams(ck):
    duplex.check(ck, "hctl", "TraceCtlStream",
                 dict(Delivered="CtlDelivered", Written="CtlWritten", WellFed="CtlWellFed"),
                 [("control stream", None, True)])
