"""C16 C17 C19: endpoints that relay in both directions."""
import core
import flow


def mc(ck, closing, ends, **c):
    k = dict(Patience="100", Ends="TRUE" if ends else "FALSE", Subs="{1}", MaxOps="6", MaxIn="3", MaxSub="2",
             History="FALSE")
    return ("DuplexMC", core.cfg(inv=["TypeOK", "Rest"] + (["Show"] if c.get("History") == "TRUE" else []),
                                 consts=dict(k, **c)))


def models(ck, ends):
    runs = [mc(ck, True, ends, MaxOps=str(ck.n(6, 8)), Subs="{1, 2}"),
            mc(ck, True, ends, History="TRUE", MaxOps="4", Subs="{1, 2}"),
            mc(ck, True, ends, History="TRUE", MaxOps=str(ck.n(5, 6)), MaxIn="2", MaxSub="1")]
    return runs


def steps(d, f):
    return [i for i, e in enumerate(d["ev"]) if e["k"] == "step" and f(e)]


def lost(d, rng):
    """Something that came out did not."""
    k = rng.choice(["ins", "errs", "outs"])
    i = steps(d, lambda e: len([x for x in e[k] if x != "end" and not (k == "ins" and x["end"])]) > 0)
    if not i:
        return None
    e = d["ev"][rng.choice(i)]
    e[k].pop(0)
    return d


def twice(d, rng):
    k = rng.choice(["ins", "outs"])
    i = steps(d, lambda e: len(e[k]) > 0 and not (k == "ins" and e[k][0]["end"]))
    if not i:
        return None
    e = d["ev"][rng.choice(i)]
    e[k].insert(1, e[k][0])
    return d


def swapped(d, rng):
    i = steps(d, lambda e: len(e["ins"]) > 1 and not any(x["end"] for x in e["ins"]) and e["ins"][0] != e["ins"][-1])
    if not i:
        return None
    e = d["ev"][rng.choice(i)]
    e["ins"].reverse()
    return d


def error_more(d, rng):
    i = steps(d, lambda e: True)
    d["ev"][rng.choice(i)]["errs"].append("?")
    # one answer more than takes can only pass if a take is still open: close them all
    return d if not any(e["k"] == "step" and any(o["o"] == "take" and o["c"] == "errs" for o in e["ops"])
                        for e in d["ev"][:-2]) else None


def not_closed(d, rng):
    i = steps(d, lambda e: e["closed"])
    if not i:
        return None
    for j in i:
        d["ev"][j]["closed"] = False
    return d


def no_end(d, rng):
    i = steps(d, lambda e: "end" in e["errs"])
    if not i:
        return None
    for j in i:
        d["ev"][j]["errs"].remove("end")
    return d


def accepted(d, rng):
    i = steps(d, lambda e: True)
    d["ev"][rng.choice(i)]["acc"][0] += 1000
    return d


def after_close(d, rng):
    """Something written before the close is written after it."""
    c = steps(d, lambda e: e["closed"])
    i = steps(d, lambda e: not e["closed"] and e["outs"])
    if not c or not i:
        return None
    d["ev"][c[-1]]["outs"].append(d["ev"][i[-1]]["outs"].pop())
    return d


def check(ck, harness, module, subst, parts, more=()):
    """parts: (name, HX_PART or None, whether closing ends the channels)."""
    env = core.go_env(ck.sc)
    b = ck.par.start(core.go_build, ck.sc, env, harness)
    runs = [r for e in sorted({p[2] for p in parts}) for r in models(ck, e)]
    gen = flow.model(ck, runs + list(more), sample=ck.n(400, 6000))
    inp = flow.write_lines(ck, "inputs", gen)
    binary = core.Par.get(b)

    def go(part, **k):
        return core.run_harness(ck.sc, binary, ck.prop, ck.tier, ck.seed, inputs=inp,
                                extra={"HX_PART": part} if part else None, **k)
    jobs = [ck.par.start(go, p[1]) for p in parts]
    for (name, part, ends), j in zip(parts, jobs):
        text = core.cfg(inv=["Inv"], consts=dict(Patience="60", Ends="TRUE" if ends else "FALSE"), subst=subst)
        flow.conform(ck, name, core.Par.get(j), module, text,
                     mutators=[lost, twice, swapped, error_more, not_closed, accepted, after_close] +
                     ([no_end] if ends else []),
                     hang_retry=lambda i, part=part: go(part, only=i, hang=90))
