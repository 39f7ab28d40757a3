"""C13 C14: the handshake."""
import core
import flow


def mc(**c):
    k = dict(PayLen="2", Alphabet="{0, 1}", ClientBytes="{0}", Versions="{3, 4}", Conns="{1, 2}")
    return ("HandshakeMC", core.cfg(inv=["TypeOK", "Exact", "Own", "Right", "Settled"], props=["Refines"],
                                    consts=dict(k, **c)))


def models(ck):
    runs = [mc(PayLen="1"), mc(PayLen="2", ClientBytes="{0, 1}", Conns="{1}"),
            ("HandshakeScripts", core.cfg(inv=["TypeOK", "Rest", "Show"], consts=dict(
                TimeLen="2", PayLen="3", Version="3", MaxCuts=str(ck.n(5, 11)))))]
    if ck.thorough:
        runs.append(mc(PayLen="2", ClientBytes="{0, 1}"))
    return runs


TRACE = ("TraceHandshake", core.cfg(inv=["Inv"], consts=dict(TimeLen="8", PayLen="1528", Version="3")))


def find(d, *ks):
    return [i for i, e in enumerate(d["ev"]) if e["k"] in ks]


def verdict(d, rng):
    i = find(d, "ok", "err")
    if not i:
        return None
    e = d["ev"][i[0]]
    e["k"] = "err" if e["k"] == "ok" else "ok"
    return d


def more_read(d, rng):
    i = find(d, "read")
    if not i:
        return None
    d["ev"][rng.choice(i)]["n"] += 1
    return d


def written_early(d, rng):
    i = find(d, "write")
    for j in i:
        if j and d["ev"][j - 1]["k"] == "read":
            d["ev"][j - 1:j + 1] = [d["ev"][j], d["ev"][j - 1]]
            return d


def written_twice(d, rng):
    i = find(d, "write")
    if not i:
        return None
    i = rng.choice(i)
    d["ev"].insert(i, dict(d["ev"][i]))
    return d


def sent_wrong(d, rng):
    e = d["ev"][find(d, "sent")[0]]
    w = sum(x["n"] for x in d["ev"] if x["k"] == "write")
    k = rng.choice(["ver", "time", "diff", "again"])
    if k == "diff":
        e["diff"] = [rng.randint(0, 1527)]
    elif k == "ver" and w >= 1:
        e["ver"] += 1
    elif k == "time" and w >= 1541:
        e["time"][rng.randrange(4)] += 1
    elif k == "again" and w >= 1537:
        e["again"] = 1
    else:
        return None
    return d


def after_the_end(d, rng):
    i = find(d, "ok", "err")
    if not i:
        return None
    d["ev"].insert(i[0] + 1, dict(k=rng.choice(["read", "write"]), n=1))
    return d


def nothing_written(d, rng):
    i = find(d, "write")
    if not i or find(d, "ok", "err"):
        return None
    del d["ev"][rng.choice(i)]
    return d


MUT = [verdict, more_read, written_early, written_twice, sent_wrong, after_the_end, nothing_written]


def check(ck):
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, "hhand")
    gen = flow.model(ck, models(ck), sample=ck.n(3000, 30000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)
    run = core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp)
    flow.conform(ck, "handshake", run, *TRACE, mutators=MUT,
                 hang_retry=lambda i: core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed,
                                                       inputs=inp, only=i, hang=90))
    ck.notes += ["challenges are compared byte by byte by the harness, which tells the specification where they differ",
                 "that challenges are unpredictable is not checked, only that they do not repeat"]
