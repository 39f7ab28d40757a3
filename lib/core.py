"""Common machinery of the checks: builds the harnesses against /repo's working
tree, runs them, runs TLC, validates recorded traces and writes evidence."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOTS = ["/opt/veriftools/go1.27.3", "/usr/local/go"]


QUICK_LIMIT = 780   # seconds


class CheckError(Exception):
    """The check itself could not do its work."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-check-")
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def mkdir(self, name):
        p = self.path(name)
        os.makedirs(p)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- processes

def run(cmd, env=None, cwd=None, timeout=600, stdout=None):
    """Runs cmd in a process group of its own; returns (exit status, output)."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                         stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, (out or b"").decode("utf-8", "replace") + "\n[timed out]"
    return p.returncode, (out or b"").decode("utf-8", "replace")


class Par:
    """Runs functions side by side and passes on what they raise."""

    def __init__(self):
        self.jobs = []

    def start(self, f, *a, **k):
        job = {}

        def body():
            try:
                job["value"] = f(*a, **k)
            except BaseException as e:  # noqa: BLE001, passed on by get
                job["error"] = e
        t = threading.Thread(target=body, daemon=True)
        job["thread"] = t
        t.start()
        self.jobs.append(job)
        return job

    @staticmethod
    def get(job):
        job["thread"].join()
        if "error" in job:
            raise job["error"]
        return job["value"]


# ----------------------------------------------------------------------- go

def go_env(sc):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("GO", "CGO")) and k not in ("GOCACHE", "GOPATH", "GOMODCACHE"):
            del env[k]
    mod = sc.path("rtmp.mod")
    with open(mod, "w") as f:
        f.write("module github.com/WatchBeam/rtmp\n\ngo 1.23\n\nrequire github.com/WatchBeam/amf0 v0.0.0\n")
    rep = {} if os.path.exists(os.path.join(REPO, "go.mod")) else {os.path.join(REPO, "go.mod"): mod}
    ov = sc.path("overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    # harness/go.mod with this checkout's paths
    hm = sc.path("harness.mod")
    src = open(os.path.join(VERIF, "harness", "go.mod")).read()
    src = src.replace("=> /repo", "=> " + REPO).replace("=> ./amf0", "=> " + os.path.join(VERIF, "harness", "amf0"))
    with open(hm, "w") as f:
        f.write(src)
    for g in GOROOTS:
        if os.path.exists(os.path.join(g, "bin", "go")):
            env["PATH"] = os.path.join(g, "bin") + ":" + env["PATH"]
            break
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GO111MODULE="on",
               GOFLAGS="-mod=mod -modfile=%s -overlay=%s" % (hm, ov))
    env.setdefault("HOME", "/root")
    return env


def go_build(sc, env, pkg, race=False, tries=2):
    """Builds the test binary of a harness package."""
    out = sc.path(pkg + (".race" if race else ""))
    cmd = ["go", "test", "-vet=off", "-c", "-o", out]
    if race:
        cmd.append("-race")
        env = dict(env, CGO_ENABLED="1")
    cmd.append("./" + pkg)
    rc, o = run(cmd, env=env, cwd=os.path.join(VERIF, "harness"), timeout=600)
    if rc != 0 or not os.path.exists(out):
        raise CheckError("building %s failed (%d):\n%s" % (pkg, rc, o[-6000:]))
    return out


class HarnessRun:
    """What a harness run left behind."""

    def __init__(self):
        self.traces = []     # JSON lines, one per scenario that ended
        self.broken = []     # (scenario, how, output) of those that crashed or hung
        self.total = 0


def run_harness(sc, binary, prop, tier, seed, inputs=None, extra=None, only=None, test="TestRun",
                limit=600, hang=None, max_broken=12, max_hangs=3):
    """Runs the scenarios of a harness. A crash or hang costs the scenario under
    way; the ones after it are run by a new process."""
    res = HarnessRun()
    out, prog = sc.path("traces"), sc.path("progress")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "HX_"))}
    env.update(HX_PROP=prop, HX_TIER=tier, HX_SEED=str(seed), HX_OUT=out, HX_PROG=prog,
               GOTRACEBACK="all", GOMAXPROCS=os.environ.get("VERIF_GOMAXPROCS", "8"))
    if hang:
        env["HX_HANG_S"] = str(hang)
    if inputs:
        env["HX_INPUT"] = inputs
    if extra:
        env.update(extra)
    if only:
        env["HX_ONLY"] = only
    start = 0
    deadline = time.time() + limit
    while True:
        env["HX_START"] = str(start)
        for p in (prog,):
            if os.path.exists(p):
                os.unlink(p)
        rc, o = run([binary, "-test.run", "^%s$" % test, "-test.timeout", "0"], env=env,
                    cwd=sc.dir, timeout=max(30, deadline - time.time()))
        lines = open(prog).read().splitlines() if os.path.exists(prog) else []
        if lines and lines[-1].startswith("DONE ") and rc == 0:
            res.total = int(lines[-1].split()[1])
            break
        last = lines[-1].split(" ", 2) if lines else ["", "", ""]
        if rc == -9 and "[timed out]" in o and time.time() >= deadline:
            raise CheckError("harness did not end in time; last scenario %s" % last[2])
        if last[0] == "DONE":   # e.g. the race detector's exit status
            res.total = int(last[1])
            res.broken.append((None, "exit status %d" % rc, o))
            break
        if last[0] == "E":      # died between two scenarios: of what the last one left behind
            last[0] = "B"
        if last[0] != "B":
            raise CheckError("harness failed before its first scenario (%d):\n%s" % (rc, o[-4000:]))
        if rc == 98:
            raise CheckError("harness failure in %s:\n%s" % (last[2], o[-4000:]))
        res.broken.append((last[2], "hang" if rc == 97 else "crash (%d)" % rc, o))
        if len(res.broken) >= max_broken or \
                sum(how == "hang" for _, how, _ in res.broken) >= max_hangs:
            break
        start = int(last[1]) + 1
        if only:
            break
    if os.path.exists(out):
        with open(out) as f:
            res.traces = [ln for ln in f.read().split("\n") if ln]
    return res


# ---------------------------------------------------------------------- tlc

class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.ok = "Model checking completed. No error has been found." in out or \
            "Finished in" in out and rc == 0
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|"
                      r"Temporal properties were violated|Deadlock reached", out)
        self.violated = m.group(0) if m else None


def cfg(spec="Spec", inv=(), props=(), consts=None, subst=None, post=None, extra=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if inv:
        s += "INVARIANTS " + " ".join(inv) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    if consts or subst:
        s += "CONSTANTS\n"
        for k, v in (consts or {}).items():
            s += " %s = %s\n" % (k, v)
        for k, v in (subst or {}).items():
            s += " %s <- %s\n" % (k, v)
    return s + extra


def tlc(sc, module, cfgtext, workers=8, env=None, timeout=700, heap="4g", args=()):
    c = sc.path(module + ".cfg")
    with open(c, "w") as f:
        f.write(cfgtext)
    tmp = sc.mkdir("tlc")
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(tmp, "out")
    with open(out, "wb") as f:
        rc, _ = run(["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
                     "-cp", TLA, "tlc2.TLC", "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
                     "-workers", str(workers), "-config", c, *args,
                     os.path.join(VERIF, "spec", module + ".tla")],
                    env=e, cwd=tmp, timeout=timeout, stdout=f)
    with open(out, errors="replace") as f:
        r = Tlc(rc, f.read())
    shutil.rmtree(os.path.join(tmp, "meta"), ignore_errors=True)
    return r


def model_check(sc, module, cfgtext, **k):
    """Checks a specification on its own. A violation is an error of the
    specification, not of the code: it does not depend on the code."""
    r = tlc(sc, module, cfgtext, **k)
    if not r.ok or r.violated:
        raise CheckError("model checking %s failed (%s, %d):\n%s" %
                         (module, r.violated, r.rc, "\n".join(
                             ln for ln in r.out.splitlines() if "WIRE" not in ln)[-6000:]))
    return r


ACC = re.compile(r'<< ?"ACCEPTED", "((?:[^"\\]|\\.)*)"(?:, (.*?))? ?>>')
AT = re.compile(r'<< ?"AT", "((?:[^"\\]|\\.)*)", (\d+)(?:, (.*?))? ?>>')


class Validation:
    def __init__(self):
        self.accepted = {}
        self.states = self.transitions = 0


def validate(sc, module, cfgtext, traces, shards=None, timeout=700):
    """Validates traces (JSON lines) against a trace specification."""
    v = Validation()
    if not traces:
        return v
    total = sum(len(t) for t in traces)
    if shards is None:
        shards = max(1, min(6, total // 900000, len(traces)))
    groups = [[] for _ in range(shards)]
    load = [0] * shards
    for t in sorted(traces, key=len, reverse=True):
        i = load.index(min(load))
        groups[i].append(t)
        load[i] += len(t) + 2000
    par = Par()

    def one(g):
        dropped = 0
        while True:
            f = sc.path("trace.ndjson")
            with open(f, "w") as h:
                h.write("\n".join(g) + "\n")
            r = tlc(sc, module, cfgtext, workers=max(1, 8 // shards), env={"TRACE": f}, timeout=timeout)
            # A trace with values the specification is not even defined for is
            # not one of its behaviours: go on without it.
            m = re.search(r"(?s)unexpected exception.*The behavior up to this point is:.*^/\\ s = (\d+)$", r.out, re.M)
            if not m or "OutOfMemory" in r.out or "StackOverflow" in r.out:
                break
            bad = g.pop(int(m.group(1)) - 1)
            dropped += 1
            log("not defined for %s: %s" % (module, bad[:200]))
            if not g or dropped > 8:
                return r
        if not r.ok or r.violated:
            raise CheckError("validation with %s failed (%s, %d):\n%s" %
                             (module, r.violated, r.rc, r.out[-6000:]))
        return r
    for r in [Par.get(j) for j in [par.start(one, g) for g in groups]]:
        v.states += r.states
        v.transitions += r.transitions
        for m in ACC.finditer(r.out):
            v.accepted.setdefault(m.group(1), set()).add(m.group(2) or "")
    return v


def stuck_at(sc, module, cfgtext, trace):
    """How far a rejected trace was explained: the index of the first event that
    no behaviour of the specification explains."""
    if "INVARIANT" in cfgtext:
        text = re.sub(r"^INVARIANTS?.*$", "INVARIANT Progress", cfgtext, flags=re.M)
    else:
        text = cfgtext + "\nINVARIANT Progress\n"
    f = sc.path("stuck.ndjson")
    with open(f, "w") as h:
        h.write(trace + "\n")
    r = tlc(sc, module, text, workers=2, env={"TRACE": f}, timeout=120)
    best = (0, "")
    for m in AT.finditer(r.out):
        best = max(best, (int(m.group(2)), m.group(3) or ""))
    return best


# ------------------------------------------------------------ known findings

def known_findings():
    """finding lines: property, scenario prefix and what fails."""
    fs = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", ln)
            if m:
                fs.append(m.groups())
    return fs


# ------------------------------------------------------------------ a check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.sc = Scratch()
        self.rng = random.Random("%s/%s" % (seed, prop))
        self.par = Par()
        self.states = self.transitions = 0
        self.validated = 0
        self.violations = []
        self.known = []
        self.samples = []
        self.cov = {}
        self.notes = []
        self.thorough = tier == "thorough"
        if not self.thorough:
            t = threading.Timer(QUICK_LIMIT, self.late)
            t.daemon = True
            t.start()

    def late(self):
        """What was found is reported even if the code under test slows the rest
        of the check down."""
        if self.violations:
            log("%s: out of time after %d violations" % (self.prop, len(self.violations)))
            self.evidence()
            self.sc.close()
            sys.stdout.flush()
            os._exit(1)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def replay_file(self, scenario, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s" % (self.prop, scenario))[:120] + ".json"
        p = os.path.join(d, name)
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        return p

    def violation(self, scenario, what, data):
        p = self.replay_file(scenario, dict(property=self.prop, scenario=scenario, what=what,
                                            tier=self.tier, seed=self.seed, **data))
        self.violations.append((scenario, what, p))
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        log("  %s: %s" % (scenario, what))

    def evidence(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples)
        cov.update(self.cov)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                 assumptions=self.notes, wall_s=round(time.time() - self.t0, 2),
                 violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(e, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
        self.evidence()
        self.sc.close()
        return 1 if self.violations else 0
