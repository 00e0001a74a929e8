"""Check runner: deterministic case generation, worker processes, watchdogs,
evidence and replay files. Standard library only; runs on CPython 3.8+ and PyPy.

A check is a subclass of Check. Every case is a small JSON object derived from
(VERIF_SEED, property, index); `run` executes the code under test on it while
monitors observe, and raises Violation when the oracle disagrees.
"""
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PYPY = "/opt/venv/bin/python"       # interpreter the project is built and tested with
CPY = "/usr/bin/python3"


class Violation(Exception):
    """The property does not hold: 'kind' is a short stable label, 'key' optionally
    identifies the failing input / call site for the known-findings file."""
    def __init__(self, kind, detail="", key=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail, self.key = kind, str(detail), key or kind


class HarnessError(Exception):
    """The check itself could not do its work (missing tool, no disk, ...)."""


class Check:
    pid = None
    level = "exploration"
    rule = ""
    interp = CPY
    quick = 100
    thorough = 1000
    workers = 8
    case_timeout = 120        # wall seconds for one case before it counts as a hang
    soft_limit = 300          # stop starting new cases after this many seconds (quick)
    soft_limit_thorough = 3000
    data_limit = 8 << 30      # RLIMIT_DATA of a worker (0: none)
    assumptions = ()

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def prepare(self, shared):
        """Once per run, in the parent (stdlib only)."""

    def setup(self, ctx):
        """Once per worker."""

    def make(self, i, rng, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError


class Ctx:
    def __init__(self, tmp, shared, tier):
        self.tmp, self.shared, self.tier = tmp, shared, tier
        self.reset()

    def reset(self):
        self.counts, self.keys, self.samples = {}, set(), []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def distinct(self, *key):
        """Registers one distinct, non-trivial observation (hashed)."""
        self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def fail(self, kind, detail="", key=None):
        raise Violation(kind, detail, key)

    def check(self, cond, kind, detail="", key=None):
        self.count("oracle_evaluations")
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail, key)

    def fresh(self, name="d"):
        """A new empty scratch directory."""
        return tempfile.mkdtemp(prefix=name, dir=self.tmp)


def case_rng(seed, pid, i):
    return random.Random("%s:%s:%s" % (seed, pid, i))


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and ("property=%s " % pid) in line:
                key = line.split("key=", 1)[1].split()[0]
                out[key] = line
    return out


# ------------------------------------------------------------------ worker
def _limits(check):
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if check.data_limit:
            resource.setrlimit(resource.RLIMIT_DATA, (check.data_limit, check.data_limit))
    except (ValueError, OSError):
        pass


def worker_main(check, k, n, start, seed, tier, tmp, shared, deadline, single=None):
    _limits(check)
    wtmp = os.path.join(tmp, "w%d_%d" % (k, os.getpid()))
    os.makedirs(wtmp, exist_ok=True)
    os.chdir(wtmp)
    log = open(os.path.join(tmp, "log.%d" % k), "a", buffering=1)

    def emit(obj):
        log.write(json.dumps(obj) + "\n")
        log.flush()
    ctx = Ctx(wtmp, shared, tier)
    try:
        check.setup(ctx)
    except BaseException:
        emit({"t": "harness", "msg": "setup: " + traceback.format_exc()})
        return
    indices = range(check.count(tier)) if single is None else [None]
    for i in indices:
        if i is not None and (i % n != k or i < start):
            continue
        if time.time() > deadline:
            emit({"t": "deadline", "i": i})
            break
        case = single if i is None else check.make(i, case_rng(seed, check.pid, i), tier)
        if case is None:
            continue
        emit({"t": "begin", "i": i, "case": case, "time": time.time()})
        ctx.reset()
        viol = None
        try:
            check.run(case, ctx)
        except Violation as v:
            viol = {"kind": v.kind, "detail": v.detail[:4000], "key": v.key}
        except HarnessError as e:
            emit({"t": "harness", "i": i, "msg": str(e)})
            return
        except OSError as e:
            if e.errno in (23, 24, 28, 12, 11):   # ENFILE EMFILE ENOSPC ENOMEM EAGAIN
                emit({"t": "harness", "i": i, "msg": traceback.format_exc()})
                return
            viol = {"kind": "unexpected-exception", "detail": traceback.format_exc()[-3000:], "key": type(e).__name__}
        except (Exception, SystemExit) as e:
            viol = {"kind": "unexpected-exception", "detail": traceback.format_exc()[-3000:], "key": type(e).__name__}
        emit({"t": "end", "i": i, "counts": ctx.counts, "keys": sorted(ctx.keys),
              "samples": ctx.samples, "viol": viol})
        os.chdir(wtmp)
        for name in os.listdir(wtmp):
            p = os.path.join(wtmp, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
    emit({"t": "done"})


# ------------------------------------------------------------------ parent
def child_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8", TZ=env.get("TZ", "UTC"))
    return env


class Worker:
    def __init__(self, run, k):
        self.run, self.k, self.start, self.pos, self.last = run, k, 0, 0, None
        self.done = False
        self.proc = None
        self.current = None
        self.spawn()

    def spawn(self):
        r = self.run
        argv = [r.check.interp, "-B", os.path.join(VERIF, "vlib", "runner.py"), r.check.pid,
                "--worker", str(self.k), str(r.n), str(self.start), str(r.seed), r.tier, r.tmp, repr(r.deadline)]
        if r.single is not None:
            argv += ["--case", json.dumps(r.single)]
        err = open(os.path.join(r.tmp, "err.%d" % self.k), "ab")
        self.proc = subprocess.Popen(argv, env=child_env(), stdin=subprocess.DEVNULL,
                                     stdout=err, stderr=err, start_new_session=True)
        err.close()
        self.current = None
        self.began = time.time()

    def poll(self):
        path = os.path.join(self.run.tmp, "log.%d" % self.k)
        if os.path.exists(path):
            with open(path) as f:
                f.seek(self.pos)
                while True:
                    line = f.readline()
                    if not line.endswith("\n"):
                        break
                    self.pos = f.tell()
                    self.handle(json.loads(line))
        rc = self.proc.poll()
        if self.done:
            return
        if self.current is not None and time.time() - self.began > self.run.check.case_timeout:
            self.kill()
            self.run.violation(self.current, {"kind": "hang", "key": "hang",
                               "detail": "no result within %d s" % self.run.check.case_timeout})
            self.done = True
            self.run.stop = True
        elif self.current is None and rc is None and time.time() - self.began > 300:
            self.kill()
            self.run.harness.append("worker %d did not start" % self.k)
            self.done = True
        elif rc is not None:
            # one more look at the log to avoid a race with the final line
            if not getattr(self, "_again", False):
                self._again = True
                return
            self._again = False
            if self.current is not None:
                tail = open(os.path.join(self.run.tmp, "err.%d" % self.k), "rb").read()[-1500:].decode("latin1")
                self.run.violation(self.current, {"kind": "crash", "key": "crash",
                                   "detail": "process ended with status %s: %s" % (rc, tail)})
                self.start = self.current["i"] + 1 if self.current["i"] is not None else 0
                if self.run.single is not None or len(self.run.viols) >= 5:
                    self.done = True
                else:
                    self.spawn()
            else:
                tail = open(os.path.join(self.run.tmp, "err.%d" % self.k), "rb").read()[-1500:].decode("latin1")
                self.run.harness.append("worker %d ended with %s: %s" % (self.k, rc, tail))
                self.done = True

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def handle(self, m):
        r = self.run
        if m["t"] == "begin":
            self.current, self.began = m, time.time()
        elif m["t"] == "end":
            r.evaluations += 1
            for a, b in m["counts"].items():
                r.counts[a] = r.counts.get(a, 0) + b
            r.keys.update(m["keys"])
            if len(r.samples) < 3:
                r.samples.extend([{"case": self.current["case"], "observed": s} for s in m["samples"]][:1])
            if m["viol"]:
                r.violation(self.current, m["viol"])
            self.current = None
        elif m["t"] == "harness":
            r.harness.append(m["msg"])
            self.done = True
            self.current = None
        elif m["t"] == "deadline":
            r.cut = True
        elif m["t"] == "done":
            self.done = True
            self.current = None


class Run:
    def __init__(self, check, tier, seed, single=None):
        self.check, self.tier, self.seed, self.single = check, tier, seed, single
        self.n = 1 if single is not None else max(1, min(check.workers, check.count(tier)))
        self.evaluations, self.counts, self.keys, self.samples = 0, {}, set(), []
        self.viols, self.harness, self.cut, self.stop = [], [], False, False
        self.known, self.listed = known_findings(check.pid), {}
        limit = check.soft_limit if tier == "quick" else check.soft_limit_thorough
        self.t0 = time.time()
        self.deadline = self.t0 + limit

    def violation(self, begin, v):
        if v["key"] in self.known:
            self.listed[v["key"]] = self.known[v["key"]]
            self.counts["known_finding_" + v["key"]] = self.counts.get("known_finding_" + v["key"], 0) + 1
        else:
            self.viols.append((begin["case"], v))

    def go(self):
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % self.check.pid, dir=os.environ.get("VERIF_TMP"))
        ws = []
        try:
            shared = {"tmp": self.tmp}
            self.check.prepare(shared)
            with open(os.path.join(self.tmp, "shared.json"), "w") as f:
                json.dump(shared, f)
            ws = [Worker(self, k) for k in range(self.n)]
            while not all(w.done for w in ws):
                for w in ws:
                    if not w.done:
                        w.poll()
                if self.stop or len(self.viols) >= 8:
                    for w in ws:
                        w.kill()
                        w.done = True
                    break
                time.sleep(0.02)
        finally:
            for w in ws:
                w.kill()
            shutil.rmtree(self.tmp, ignore_errors=True)


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    single = None
    rest = list(argv)
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(rest.pop(0))
        elif a == "--replay":
            single = json.load(open(rest.pop(0)))["case"]
        else:
            print("unknown argument", a)
            return 2
    run = Run(check, tier, seed, single)
    try:
        run.go()
    except HarnessError as e:
        run.harness.append(str(e))
    wall = time.time() - run.t0
    reported, kf = run.viols, run.listed
    if run.single is None:
        ev = {"property": check.pid, "tier": tier, "seed": seed, "level": check.level,
              "coverage": {"evaluations": run.evaluations, "distinct_nontrivial": len(run.keys),
                           "rule": check.rule, "samples": run.samples or [{"note": "no case completed"}],
                           "observed": run.counts, "cut_short_by_time_limit": run.cut},
              "assumptions": list(check.assumptions), "wall_s": round(wall, 3), "violations": len(reported)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for line in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (check.pid, line.split("key=", 1)[1].split(None, 1)[-1]))
    seen = set()
    for case, v in reported:
        if v["kind"] in seen:
            continue
        seen.add(v["kind"])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps([case, v["kind"]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.pid, h))
        with open(path, "w") as f:
            json.dump({"property": check.pid, "case": case, "violation": v, "seed": seed, "tier": tier}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        print("  %s: %s" % (v["kind"], v["detail"][:1500].replace("\n", "\n    ")))
    print("%s %s seed=%d: %d cases, %d distinct, %s, %.1fs%s" % (
        check.pid, tier, seed, run.evaluations, len(run.keys), json.dumps(run.counts), wall,
        " (cut short)" if run.cut else ""))
    if reported:
        return 1
    if run.harness:
        print("HARNESS ERROR:", "\n".join(run.harness)[:4000])
        return 2
    if run.single is None and run.evaluations == 0:
        print("HARNESS ERROR: nothing was evaluated")
        return 2
    return 0
