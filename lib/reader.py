"""C01 C02 C03 C04 C05 C23: the receiving side of a chunk stream."""
import core
import flow

INV = ["TypeOK", "NoMal", "Faithful", "Prompt", "SizesAgree", "ErrorsAgree", "PartsAgree",
       "EndReported", "NotStuck"]

BASE = dict(Csids="{3, 70}", Types="{8}", Lens="{0, 3}", Stamps="{7}", Sizes="{2}", NewSizes="{}",
            Fmts="{0}", MaxMsgs="3", Aborts="FALSE", Frags="{0}", Ends="{}")
SUB = dict(WireOf="HandleIsWire", Msids="M1", Exts="X1")


def mc(consts=None, subst=None):
    c, s = dict(BASE), dict(SUB)
    c.update(consts or {})
    s.update(subst or {})
    return ("ChunkStreamMC", core.cfg(inv=INV, consts=c, subst=s))


def models(ck):
    q = not ck.thorough
    p = ck.prop
    if p == "C01":
        return [mc(dict(Lens="{0, 1, 5}" if q else "{0, 1, 2, 5}", Sizes="{2}" if q else "{1, 2, 3}"))]
    if p == "C02":
        return [mc(dict(Lens="{3}", Fmts="{0, 1, 2, 3}", Stamps="{7, 16777215}",
                        Sizes="{2}", MaxMsgs="3")),
                mc(dict(Lens="{0, 1}", Fmts="{0, 1, 2, 3}", Types="{8, 9}", Stamps="{7}", Sizes="{4}",
                        MaxMsgs="3" if q else "4"), dict(Msids="M2"))]
    if p == "C03":
        return [mc(dict(Lens="{5}", Sizes="{2}", NewSizes="{0, 1, 3}", MaxMsgs="3" if q else "4")),
                mc(dict(Lens="{5}", Sizes="{3}", Aborts="TRUE", NewSizes="{4}", MaxMsgs="3"))]
    if p == "C04":
        return [mc(dict(Lens="{0, 3}" if q else "{0, 1, 3}", Sizes="{2}", Fmts="{0, 3}", MaxMsgs="2" if q else "3",
                        Frags="{0, 1, 2}" if q else "{0, 1, 2, 5}", Ends='{"eof", "fail"}'))]
    if p == "C23":
        return [mc(dict(Lens="{3}", Fmts="{0, 1, 2, 3}", Stamps="{7}", Types="{8}", Sizes="{2}",
                        MaxMsgs="3"), dict(Msids="M2"))]
    return []


TRACE = ("TraceReader", core.cfg(inv=["Inv"], subst=dict(WireOf="TraceWire")))


BIG = ("TraceReaderBig", core.cfg(inv=["Inv"], subst=dict(WireOf="BigWire", WireLen="BigLen", SegsAre="BigSegs")))

# Corruptions of a trace that no correct reader can produce.

def msgs(d):
    return [i for i, e in enumerate(d["ev"]) if e["k"] == "msg"]


def drop_message(d, rng):
    m = msgs(d)
    if not m:
        return None
    i = rng.choice(m)
    # Followed by a quiescent point, so that the message is missing there.
    if not any(e["k"] == "quiet" for e in d["ev"][i:]):
        return None
    del d["ev"][i]
    return d


def repeat_message(d, rng):
    m = msgs(d)
    if not m:
        return None
    i = rng.choice(m)
    nxt = [e for e in d["ev"][i + 1:] if e["k"] == "msg"]
    if nxt and nxt[0] == d["ev"][i]:
        return None
    d["ev"].insert(i, dict(d["ev"][i]))
    return d


def change_field(d, rng):
    m = msgs(d)
    if not m:
        return None
    e = d["ev"][rng.choice(m)]
    k = rng.choice(["ts", "len", "type", "csid", "msid", "ext", "delta", "data", "fmt"])
    if k == "data" and not e["data"]:
        k = "ts"
    if k in ("ts", "len", "type", "csid"):
        e[k] += 1
    elif k == "fmt":
        e[k] = (e[k] + 1) % 4
    elif k == "delta":
        e[k] = not e[k]
    else:
        v = list(e[k])
        v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
        e[k] = v
    return d


def wrong_piece(d, rng):
    m = [i for i in msgs(d) if d["ev"][i]["data"]]
    if not m:
        return None
    rng.choice(d["ev"][rng.choice(m)]["data"])[rng.randrange(2)] += rng.choice([-1, 1])
    return d


def change_header(d, rng):
    m = msgs(d)
    if not m:
        return None
    d["ev"][rng.choice(m)][rng.choice(["ts", "len", "type", "csid"])] += 1
    return d


def swap_messages(d, rng):
    m = [i for i in msgs(d) if i + 1 < len(d["ev"]) and d["ev"][i + 1]["k"] == "msg" and d["ev"][i] != d["ev"][i + 1]]
    if not m:
        return None
    i = rng.choice(m)
    d["ev"][i], d["ev"][i + 1] = d["ev"][i + 1], d["ev"][i]
    return d


def early_message(d, rng):
    """A message delivered before the fragment that completes it."""
    m = [i for i in msgs(d) if i > 0 and d["ev"][i - 1]["k"] == "feed"]
    if not m:
        return None
    i = rng.choice(m)
    d["ev"][i - 1], d["ev"][i] = d["ev"][i], d["ev"][i - 1]
    return d


def extra_error(d, rng):
    q = [i for i, e in enumerate(d["ev"]) if e["k"] == "quiet"]
    if not q:
        return None
    if any(e["k"] == "end" for e in d["ev"]):
        q = [i for i in q if not any(e["k"] == "end" for e in d["ev"][:i])]
        if not q:
            return None
    d["ev"].insert(rng.choice(q), dict(k="err", e="other"))
    return d


def wrong_size(d, rng):
    s = [e for e in d["ev"] if e["k"] == "size"]
    if not s:
        return None
    rng.choice(s)["v"] += 1
    return d


def touched(d, rng):
    for e in d["ev"]:
        if e["k"] == "kept" and msgs(d):
            e["changed"] = [0]
            return d
    return None


MUT = [drop_message, repeat_message, change_field, swap_messages, early_message, extra_error]
MUTS = {"C03": MUT + [wrong_size], "C23": MUT + [touched]}

ASSUME = ["synctest's quiescence is exact", "TLC and the JSON trace reader are correct",
          "scenarios are finite samples; the exhaustive part is the specification at small scope"]


def check(ck):
    ck.notes += ASSUME
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    gen = flow.model(ck, models(ck), sample=ck.n(240, 3000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "reader", run, *TRACE, mutators=MUTS.get(ck.prop, MUT), ok_phase={'"stop"'},
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
    if ck.prop == "C23":
        run = core.run_harness(ck.sc, binary, "C23big", ck.tier, ck.seed)
        flow.conform(ck, "large", run, *BIG, mutators=[wrong_piece, drop_message, touched], ok_phase={'"stop"'})
    if ck.prop == "C01":
        run = core.run_harness(ck.sc, binary, "C01big", ck.tier, ck.seed)
        flow.conform(ck, "huge", run, *BIG, mutators=[wrong_piece, drop_message, change_header], ok_phase={'"stop"'})


# ------------------------------------------------------------------ C05

def hostile_models(ck):
    c = dict(Csids="{2, 3}", Types="{1, 2, 8}", Lens="{0, 4}", Stamps="{0}", Fmts="{0, 1, 3}",
             Tails='{"none", "zero4", "self4"}', MaxChunks="2", Sizes="{2}")
    runs = [c, dict(c, Stamps="{0, 16777215}", Types="{1, 8}", Lens="{4}", Tails='{"none", "top4", "b2"}', Fmts="{0, 1, 2, 3}")]
    if ck.thorough:
        runs.append(dict(c, MaxChunks="3", Tails='{"none", "zero4"}', Types="{1, 2}"))
        runs.append(dict(c, Csids="{2, 3, 320}", Lens="{0, 1, 4}", Sizes="{1, 128}", Tails='{"none", "zero4", "one4", "b2"}'))
    return [("HostileMC", core.cfg(inv=["TypeOK", "NotStuck", "LengthOK"], props=["Refines"], consts=r,
                                   subst=dict(WireOf="HandleIsWire"))) for r in runs]


HTRACE = ("TraceReceiver", core.cfg(inv=["Inv"]))


def wrong_length(d, rng):
    m = msgs(d)
    if not m:
        return None
    e = d["ev"][rng.choice(m)]
    e["dlen"] += rng.choice([-1, 1])
    return d


def left_behind(d, rng):
    q = [e for e in d["ev"] if e["k"] == "quiet"]
    if not q:
        return None
    rng.choice(q)["taken"] -= 1
    return d


def hostile(ck):
    ck.notes += ASSUME + ["outputs are taken, on every chunk stream there are messages on"]
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hchunk")
    gen = flow.model(ck, hostile_models(ck), sample=ck.n(900, 20000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "hostile", run, *HTRACE, mutators=[wrong_length, left_behind],
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
