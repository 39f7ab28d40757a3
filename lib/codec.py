"""C08: the header codec."""
import core
import flow


def mc(**c):
    return ("CodecMC", core.cfg(inv=["Inverse", "PrefixFree", "Bytes", "Shortest", "Layout", "Show"],
                                consts={k: v for k, v in c.items() if k not in ("Msids", "Exts")},
                                subst=dict(Msids=c["Msids"], Exts=c["Exts"])))


def models(ck):
    a = dict(Csids="{2, 62, 64, 319, 320, 65599}", Stamps="{0, 1, 65536, 16777214, 16777215}", Lens="{0, 255, 16777215}",
             Types="{0, 255}", Msids="Q2", Exts="Q4")
    if not ck.thorough:
        return [mc(**a)]
    return [mc(**dict(a, Csids="{2, 3, 61, 62, 64, 65, 127, 128, 255, 256, 318, 319, 320, 321, 575, 576, 65598, 65599}",
                      Stamps="{0, 1, 255, 256, 65535, 65536, 8388608, 16777214, 16777215}",
                      Lens="{0, 1, 256, 65536, 16777215}", Types="{0, 1, 128, 255}", Msids="Q4"))]


def cfg(knob):
    return core.cfg(inv=["Inv"], consts=dict(Knob63="TRUE" if knob else "FALSE"))


def enc_byte(d, rng):
    e = [x for x in d["ev"] if x["k"].startswith("enc") and x["b"]]
    if not e:
        return None
    e = rng.choice(e)
    e["b"][rng.randrange(len(e["b"]))] ^= 1 << rng.randrange(8)
    return d


def dec_field(d, rng):
    e = [x for x in d["ev"] if x["k"] == "dec" and x["ok"]]
    if not e:
        return None
    e = rng.choice(e)
    k = rng.choice(["fmt", "csid", "ts", "len", "type", "n"])
    if k == "n":
        e["n"] += 1
    else:
        e["h"][k] += 1
    return d


def dec_result(d, rng):
    e = [x for x in d["ev"] if x["k"] == "dec" and x["ok"]]
    if not e:
        return None
    rng.choice(e)["ok"] = False
    return d


def dec_short(d, rng):
    """A decoding that made do with less than there should have been."""
    e = [x for x in d["ev"] if x["k"] == "dec" and x["ok"] and x["n"] == len(x["W"])]
    if not e:
        return None
    rng.choice(e)["W"].pop()
    return d


def cut_short(d, rng):
    e = [x for x in d["ev"] if x["k"] == "cut" and not x["ok"]]
    if not e:
        return None
    rng.choice(e)["ok"] = True
    return d


def check(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    gen = flow.model(ck, models(ck), sample=ck.n(800, 8000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "codec", run, "TraceCodec", cfg(False), knob=cfg(True),
                 mutators=[enc_byte, dec_field, dec_result, dec_short, cut_short],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
