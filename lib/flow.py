"""The flow every check follows: model-check the specification, run the code,
validate what it did against the specification, and make sure that the
validation rejects corrupted copies of the same traces."""
import json
import os

import core
from core import CheckError, log


def wires(out, tag="WIRE "):
    """The JSON values a specification printed."""
    vs = []
    for ln in out.splitlines():
        if tag in ln[:len(tag) + 2]:
            s = ln.strip()
            if s.startswith('"'):
                s = json.loads(s)
            vs.append(s[len(tag):])
    return vs


def model(ck, runs, sample=300, workers=None):
    """Model-checks (module, cfg) pairs side by side. Returns a seeded sample of
    the behaviours they print."""
    k = max(1, min(len(runs), 4))
    jobs = []
    for module, text, *o in runs:
        opt = o[0] if o else {}
        jobs.append((module, ck.par.start(core.model_check, ck.sc, module, text,
                                          workers=workers or max(2, 8 // k), **opt)))
    gen = []
    for module, j in jobs:
        r = core.Par.get(j)
        ck.count(r)
        ck.cov.setdefault("model_checking", []).append(
            dict(spec=module, states=r.states, transitions=r.transitions))
        ws = sorted(set(wires(r.out)))
        if ws:
            ck.cov["model_checking"][-1]["behaviours"] = len(ws)
            gen += ck.rng.sample(ws, min(len(ws), max(1, sample // len(runs))))
    return gen


def corrupted(ck, traces, mutators, per=3, want=40):
    """Corrupted copies of traces. A mutator gets a decoded trace and a random
    source and returns a trace that no correct implementation can produce, or
    None if it has no way to make one of this trace."""
    res = []
    pool = [t for t in traces if len(t) < 60000]
    ck.rng.shuffle(pool)
    count = {}
    for t in pool:
        if len(res) >= want:
            break
        for m in ck.rng.sample(mutators, len(mutators)):
            if count.get(m.__name__, 0) >= max(per, want // len(mutators)):
                continue
            d = json.loads(t)
            d2 = m(d, ck.rng)
            if d2 is not None:
                orig = d["id"]
                d2["id"] = "neg!%s!%s" % (m.__name__, orig)
                res.append((d2["id"], orig, m.__name__, json.dumps(d2)))
                count[m.__name__] = count.get(m.__name__, 0) + 1
                break
    ids = set()
    uniq = []
    for r in res:
        if r[0] not in ids:
            ids.add(r[0])
            uniq.append(r)
    return uniq


def brief(trace, limit=1500):
    s = trace if isinstance(trace, str) else json.dumps(trace)
    return json.loads(s) if len(s) < limit else s[:limit] + "..."


def conform(ck, name, run, module, text, mutators=(), ok_phase=None, knob=None, describe=None,
            controls=40, hang_retry=None):
    """Judges a harness run: every scenario must have ended, and its trace must
    be a behaviour of the specification."""
    traces = {}
    for t in run.traces:
        traces[json.loads(t)["id"]] = t
    known = {p: what for prop, p, what in core.known_findings() if prop == ck.prop}

    def is_known(i):
        for p in known:
            if i == p or i.startswith(p + "-"):
                return p
        return None
    neg = corrupted(ck, [t for i, t in traces.items() if not is_known(i)], mutators, want=controls) \
        if mutators else []
    v = core.validate(ck.sc, module, text, list(traces.values()) + [n[3] for n in neg])
    ck.count(v)
    bad = []
    for i, t in traces.items():
        if i not in v.accepted:
            bad.append(i)
        elif ok_phase and not (v.accepted[i] & ok_phase):
            raise CheckError("%s: scenario %s left the domain of the property (%s)" % (name, i, v.accepted[i]))
    # Known findings: rejected as such, accepted once the specification is told of the defect.
    kb = [i for i in bad if is_known(i)]
    if kb and knob:
        v2 = core.validate(ck.sc, module, knob, [traces[i] for i in kb])
        ck.count(v2)
        for i in kb:
            if i in v2.accepted:
                bad.remove(i)
                if known[is_known(i)] not in ck.known:
                    ck.known.append(known[is_known(i)])
    broken = run.broken
    if not traces and not broken:
        raise CheckError("%s: no scenario ran" % name)
    hung = False
    for i, how, out in broken:
        if hung and how == "hang":
            continue    # one that is known to be a hang is enough; they take long
        if i is not None and how == "hang" and hang_retry:
            again = hang_retry(i)
            if not again.broken:
                v3 = core.validate(ck.sc, module, text, again.traces)
                if i in v3.accepted:
                    log("%s: %s was slow, not hung" % (name, i))
                    continue
            hung = True
        tail = out[-12000:]
        ck.violation("%s-%s" % (name, i), "%s while running scenario %s" % (how, i),
                     dict(harness=name, output=tail, inputs=ck.cov.get("_inputs")))
        if len(ck.violations) >= 5:
            break
    for i in bad[:max(0, 5 - len(ck.violations))]:
        at, ph = core.stuck_at(ck.sc, module, text, traces[i])
        tr = json.loads(traces[i])
        ev = tr["ev"]
        what = "event %d of scenario %s is not explained by %s (specification state: %s): %s" % (
            at, i, module, ph, json.dumps(ev[at - 1])[:600] if 0 < at <= len(ev) else "-")
        ck.violation("%s-%s" % (name, i), what, dict(harness=name, trace=tr, at=at))
    good = [i for i in traces if i not in bad]
    ck.validated += len(good)
    rejected = accepted = 0
    kinds = {}
    for nid, orig, m, _ in neg:
        if orig in bad:
            continue
        if nid in v.accepted:
            accepted += 1
            log("negative control accepted: %s" % nid)
            p = ck.replay_file("control-" + nid, json.loads([n[3] for n in neg if n[0] == nid][0]))
            log("   ", p)
        else:
            rejected += 1
            kinds[m] = kinds.get(m, 0) + 1
    if accepted and not rejected:
        raise CheckError("%s: the validation accepts corrupted traces" % name)
    c = ck.cov.setdefault("conformance", {})
    c[name] = dict(scenarios=len(traces), accepted=len(good), broken=len(broken),
                   events=sum(t.count('"k":') for t in traces.values()),
                   corrupted_copies_rejected=rejected, corrupted_copies_accepted=accepted,
                   corruptions=kinds)
    pick = [i for i in good if len(traces[i]) < 1500] or good
    for i in ck.rng.sample(sorted(pick), min(2, len(pick))):
        ck.samples.append(brief(traces[i]))
    return traces, bad


def write_lines(ck, name, lines):
    if not lines:
        return None
    p = ck.sc.path(name)
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


def main(props):
    import argparse
    import signal
    import sys
    import time
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(4))
    if a.property not in props:
        print("unknown property " + a.property, file=sys.stderr)
        return 2
    ck = core.Check(a.property, a.tier, a.seed)
    try:
        props[a.property](ck)
        rc = ck.finish()
    except CheckError as e:
        log("CHECK ERROR:", e)
        if ck.violations:      # what was found stands
            rc = ck.finish()
        else:
            rc = 3
    finally:
        ck.sc.close()
    log("%s %s: %s, %d states, %d traces, %.1f s" % (
        a.property, a.tier, "ok" if rc == 0 else "exit %d" % rc, ck.states, ck.validated, time.time() - ck.t0))
    return rc
