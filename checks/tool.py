"""C46-C48: the search as a command-line program: it ends, its diagnostics, and its options may come from
configuration files."""
import math
import os
import random
import re
import resource
import subprocess

from vlib import core
from vlib.core import Check, HarnessError
from vlib.pylib import Result, read, snap, write


def search_tools():
    from checks import search
    return search


WRAPPER = b"""import sys
from fpfind.fpfind import main
sys.exit(main())
"""


class Tool(Check):
    interp = core.PYPY
    workers = 8
    CPU = 90            # seconds of processor time; the longest searches generated here need about 3

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def program(self, ctx):
        """A script of the name under which the search is installed."""
        p = os.path.join(ctx.fresh(), "fpfind")
        return write(p, WRAPPER)

    def call(self, ctx, prog, args, cwd, where):
        e = dict(os.environ, PYTHONPATH=core.SRC, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")

        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (self.CPU, self.CPU + 5))
        try:
            p = subprocess.run([core.PYPY, "-B", prog] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, preexec_fn=pre, timeout=110)
        except subprocess.TimeoutExpired as x:
            # waiting for anything but the processor is no excuse either, unless the machine is overloaded
            used = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
            ctx.fail("endless", "%s: no result after 110 s (%.0f s of processor time so far); %r" % (where, used, (x.stderr or b"")[-300:]))
        res = Result(p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "surrogateescape"))
        if p.returncode in (-24, -9):
            ctx.fail("endless", "%s: no result after %d s of processor time; %r" % (where, self.CPU, res.err[-300:]))
        ctx.count("searches")
        return res


class C46(Tool):
    quick, thorough = 480, 6000
    rule = ("a case runs one search over correlated, uncorrelated, identical, periodic, bunched, single-bin, sparse or very unequal streams, or files of random bytes, or peaks so smeared that they are significant in wide bins only, with random settings: separations from 0.2 to 20 windows, final resolutions "
            "below and above the initial one, thresholds from 0, wraps, small buffers, precompensation scans; it must end within %d s of processor time, and with correlated streams, a separation of at least 0.3 windows and a final resolution not above the initial one give the true offsets to the initial resolution and the width by which the offset spreads the peak within one window; distinct by (data, settings)" % Tool.CPU)
    assumptions = ("a search that needs %d s of processor time, about thirty times the longest regular one, is not going to end" % Tool.CPU,)

    def run(self, case, ctx):
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        r = random.Random(case["s"])
        kind = ["pairs", "pairs", "pairs", "noise", "identical", "periodic", "bunched", "onebin", "sparse", "unequal", "random", "weak", "weak"][case["i"] % 13]
        st = sr.Setting(r)
        st.s = r.choice([0.2, 0.3, 0.5, 0.8, 1, 1, 1.2, 1.4, 1.41, 1.415, 1.5, 1.8, 2, 2.01, 2.5, 3, 4, 6, 11, 20])
        st.r = r.choice([1, 1, 2, 3, 7, st.R, st.R + 1, 100, 10 ** 5])
        if kind == "weak":
            st.q, st.R, st.r, st.k = r.choice([13, 13, 14, 15]), r.choice([4, 16, 50]), r.choice([1, 1, 2]), 1
            st.s = r.choice([2, 2, 2, st.s])
        elif kind != "pairs":
            st.q = r.choice([2, 5, 9, 13, 15])
            st.R = r.choice([1, 3, 16, 250, 5000])
            st.k = r.choice([1, 2, 7])
        st.finish()
        df, dt = st.draw(r) if kind == "pairs" else (0.0, 0.0)
        rng = np.random.default_rng(r.randrange(1 << 40))
        d = ctx.fresh()
        A, B = os.path.join(d, "ref.dat"), os.path.join(d, "tgt.dat")
        end = int(st.dur * 1.3 * 256) + 1000
        n = r.choice([2, 30, 1000, 8000])
        if kind == "pairs":
            p = st.n / st.Ta
            D = sy.make(rng, st.dur * 1.3 + abs(dt), dt, df, p * 0.3, p * 0.7, p * 1.3, jitter=0.1)
            a, b = D.a, D.b
        elif kind == "weak":
            # smeared peak that is significant only with wide bins
            p = 3000 / st.Ta
            jitter = st.R * r.uniform(0.4, 5)
            c = min(0.9, r.uniform(7, 20) / math.sqrt(st.Ta / st.k / max(st.R, 3.5 * jitter)))
            D = sy.make(rng, st.dur * 1.3, r.uniform(-0.1, 0.1) * st.Ta / st.k, r.choice([0, 0, st.R / st.Ts]), p * c, p * (1 - c), p * (1 - c), jitter=jitter / 1.42)
            a, b = D.a, D.b
        elif kind == "periodic":
            step = max(1, end // n)
            a = np.arange(n, dtype=np.uint64) * np.uint64(step)
            b = a + np.uint64(r.choice([0, 0, step // 2, 1]))
        elif kind == "bunched":
            c = rng.integers(0, end, max(1, n // 100))
            a = np.sort((c[rng.integers(0, len(c), n)] + rng.integers(0, 2000, n)).astype(np.uint64))
            b = np.sort((c[rng.integers(0, len(c), n)] + rng.integers(0, 2000, n)).astype(np.uint64))
        elif kind == "onebin":
            a = np.sort(rng.integers(0, 256, n)).astype(np.uint64)
            b = np.sort(rng.integers(0, 256, n)).astype(np.uint64)
        else:
            m = {"sparse": 2, "unequal": max(2, n // 50)}.get(kind, n)
            a = np.sort(rng.integers(0, end, n)).astype(np.uint64)
            b = a.copy() if kind == "identical" else np.sort(rng.integers(0, end, m)).astype(np.uint64)
        if kind == "random":
            for f in (A, B):
                write(f, rng.bytes(8 * n))
        else:
            sy.write_a1(A, a)
            sy.write_a1(B, b)
        args = ["-t", A, "-T", B] + st.args()
        if kind != "pairs":
            args += sr.opt("-S", r.choice([6, 6, 5] if kind == "weak" else [-1, 0, 0, 1, 3, 6, 1e9, "nan", "inf"]))
            if r.random() < 0.3:
                args += ["-P"] + sr.opt("--precomp-step", r.choice([0, 1e-6, 5e-6])) + sr.opt("--precomp-stop", r.choice([0, 1e-5, -1e-5])) + r.choice([[], ["--precomp-fullscan"], ["--precomp-ordered"]])
        where = "%s (%d and %d events) %r df=%.3e dt=%.1f %s" % (kind, len(a), len(b), st, df, dt, args[4:])
        res = self.call(ctx, self.program(ctx), args, d, where)
        if kind == "pairs" and st.s >= 0.3 and st.r <= st.R + 1:
            ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
            f, t = sr.parse(res.out)
            fr = max(st.r, st.R)
            td, tf = 1.6 * fr + 0.8 * abs(df) * st.Ta + 0.6, (1.6 * fr + abs(df) * st.Ta) / st.Ts
            ctx.check(abs(int(t) - dt) <= td and abs(float(f) - df) <= tf, "wrong-offset", lambda: "%s: printed %s, tolerance %.1f ns %.2e" % (where, res.out.strip(), td, tf))
            ctx.count("correct_results")
        else:
            # either a well-formed result or a failure with a message
            if res.status == 0:
                f, t = sr.parse(res.out)
                float(f), int(t)
                ctx.count("other_results")
            else:
                ctx.check(res.out == "" and res.err.strip() != "", "failure", lambda: "%s: %r" % (where, res))
                ctx.count("failures")
        ctx.count("kind_" + kind)
        ctx.distinct(kind, repr(st), case["s"])
        ctx.sample({"kind": kind, "settings": repr(st), "status": res.status, "printed": res.out.strip()})


WAYS = ["config", "default", "split", "save", "omitted"]


class C47(Tool):
    quick, thorough = 80, 1800
    rule = ("a case draws search options and gives them (1) on the command line, (2) in a --config file, (3) in fpfind.default.conf of the working folder, with no argument at all, (4) split over all three with conflicting values that must be overridden "
            "(command line, then --config, then default file), (5) through a file written by --save; the result and status must be those of (1), --save must run no search, and no other file may appear; or leaves options out, which must give the search (result and messages) of their documented defaults, with clear, marginal and no correlation; distinct by (options, split)")
    LONG = {"-t": "reference", "-T": "target", "-X": "legacy", "-Z": "skip-duration", "-k": "num-wraps", "-q": "buffer-order", "-R": "initial-res", "-r": "final-res", "-s": "separation", "-S": "threshold", "-V": "output",
            "-P": "precomp-enable", "--precomp-start": "precomp-start", "--precomp-step": "precomp-step", "--precomp-stop": "precomp-stop", "--precomp-ordered": "precomp-ordered", "--precomp-fullscan": "precomp-fullscan", "--quiet": "quiet"}

    def conf(self, r, path, pairs):
        sep = r.choice([" = ", "=", ": "])
        lines = ["# search options", ""]
        for k, v in pairs:
            lines.append(self.LONG[k] + sep + ("true" if v is None else str(v)))
            if r.random() < 0.2:
                lines.append(r.choice(["", "# comment", "; other comment"]))
        write(path, ("\n".join(lines) + "\n").encode())
        return path

    def cli(self, r, pairs):
        out = []
        for k, v in pairs:
            k = r.choice([k, "--" + self.LONG[k]])
            out += [k] if v is None else r.choice([[k, str(v)], [k + "=" + str(v)]]) if k.startswith("--") else [k, str(v)]
        return out

    DEFAULTS = [("-R", 16), ("-r", 1), ("-k", 1), ("-s", 6), ("-S", 6), ("-V", 0), ("-Z", 0)]
    SCAN = [("--precomp-start", 0), ("--precomp-step", "0.0000001"), ("--precomp-stop", "0.00001")]

    def omitted(self, case, ctx, r):
        """An option left out acts as its documented default."""
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        st = sr.Setting(r)
        st.q, st.k, st.s, st.R, st.r = 14, 1, 6, 16, 1
        st.finish()
        df, dt = st.draw(r)
        rng = np.random.default_rng(r.randrange(1 << 40))
        kind = r.choice(["clear", "weak", "weak", "none"]) if case["i"] // len(WAYS) % 4 > 1 else r.choice(["none", "weak"])
        n = 2000 if kind == "clear" else r.choice([600, 1500])
        common = {"clear": 0.4, "weak": r.uniform(1.2, 2.2) / math.sqrt(n), "none": 0}[kind]
        p = n / st.Ta
        D = sy.make(rng, st.dur * 1.2 + abs(dt), dt, df if kind == "clear" else 0.0, p * common, p * (1 - common), p * (1 - common), jitter=0.1)
        d = ctx.fresh()
        sy.write_a1(os.path.join(d, "ref.dat"), D.a, False)
        sy.write_a1(os.path.join(d, "tgt.dat"), D.b, False)
        base = [("-t", "ref.dat"), ("-T", "tgt.dat"), ("-q", st.q)]
        every = list(self.DEFAULTS)
        scan = case["i"] // len(WAYS) % 4
        if scan < 2:
            start, step, stop = self.SCAN
            base += [("-P", None), [("--precomp-step", "0.000002"), ("--precomp-stop", "0.0000005")][scan]] + r.choice([[], [("--precomp-fullscan", None)]])
            every += [start, [stop, step][scan]]
        if case["i"] // len(WAYS) % 8 == 7:
            # the full size takes minutes: only up to the announced duration
            base = [("-t", "ref.dat"), ("-T", "missing.dat")]
            every.append(("-q", 26))
        given = [x for x in every if r.random() < 0.3 and x[0] != "-q"]
        prog = self.program(ctx)

        def messages(res):
            return [re.sub(r"(END PROFILING: ).*", r"\1", x.partition("|")[2].strip()) for x in res.err.splitlines() if "Namespace(" not in x and "Traceback" not in x]
        want = self.call(ctx, prog, ["-vv"] + self.cli(r, base + every), d, "all options")
        got = self.call(ctx, prog, ["-vv"] + self.cli(r, base + given), d, "options omitted")
        where = "%s; without %s" % (st, [k for k, v in every if (k, v) not in given])
        ctx.check((got.status, got.out) == (want.status, want.out), "omitted", lambda: "%s: status %s, printed %r instead of %s, %r" % (where, got.status, got.out, want.status, want.out))
        a, b = [x for x in messages(want) if x], [x for x in messages(got) if x]
        ctx.check(a == b, "omitted-search", lambda: "%s: %s" % (where, [(x, y) for x, y in zip(a, b) if x != y][:3] or (len(a), len(b))))
        ctx.count("way_omitted")
        ctx.count("omitted_status_%s" % want.status)
        ctx.distinct("omitted", tuple(map(str, given)), case["s"])

    def run(self, case, ctx):
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        r = random.Random(case["s"])
        if WAYS[case["i"] % len(WAYS)] == "omitted":
            return self.omitted(case, ctx, r)
        st = sr.Setting(r)
        st.q, st.k, st.s = r.choice([13, 14]), r.choice([1, 1, 2]), r.choice([4, 5.5])
        st.n = 2000
        st.finish()
        df, dt = st.draw(r)
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        D = sy.make(rng, st.dur * 1.4 + abs(dt), dt, df, p * 0.4, p * 0.6, p, jitter=0.1)
        d = ctx.fresh()
        legacy = r.random() < 0.4
        sy.write_a1(os.path.join(d, "ref.dat"), D.a, legacy)
        sy.write_a1(os.path.join(d, "tgt.dat"), D.b, legacy)
        names = (lambda f: f) if r.random() < 0.5 else (lambda f: os.path.join(d, f))
        pairs = [("-t", names("ref.dat")), ("-T", names("tgt.dat")), ("-q", st.q), ("-R", st.R), ("-r", st.r), ("-k", st.k), ("-s", st.s)]
        if legacy:
            pairs.append(("-X", None))
        if r.random() < 0.7:
            pairs.append(("-V", r.randrange(1, 16)))
        if r.random() < 0.4:
            pairs.append(("-S", r.choice([4, 5.5, 7])))
        if r.random() < 0.3:
            pairs.append(("-Z", "%.7f" % (r.uniform(0, 0.3) * st.Ta * 1e-9)))
        if r.random() < 0.5:
            pairs += [("-P", None), ("--precomp-step", 1e-6)] + r.choice([[], [("--precomp-stop", "0.0000030")], [("--precomp-stop", r.choice([2e-6, "0.000004", "0.0000021"])), ("--precomp-fullscan", None)], [("--precomp-stop", 5e-6), ("--precomp-fullscan", None)], [("--precomp-start", 1e-6), ("--precomp-ordered", None)]])
        r.shuffle(pairs)
        if r.random() < 0.15:                   # a failing search must fail in the same way
            i = [k for k, v in pairs].index("-t")
            pairs[i] = ("-t", names("missing.dat"))
        prog = self.program(ctx)
        files = snap(d)
        log = ["-vv"] if ("-P", None) in pairs else []
        want = self.call(ctx, prog, log + self.cli(r, pairs), d, "command line %s" % pairs)

        def scan(res):
            return [x.partition("|")[2].strip() for x in res.err.splitlines() if "precompensation" in x]

        def same(res, where, extra=()):
            # the candidates tried, as far as they are logged
            ctx.check(scan(res) == scan(want), "scan", lambda: "%s: tried %r instead of %r; options %s" % (where, scan(res)[:5], scan(want)[:5], pairs))
            ctx.check((res.status, res.out) == (want.status, want.out), "differs", lambda: "%s: status %s, printed %r instead of %s, %r; options %s; %r" % (where, res.status, res.out, want.status, want.out, pairs, res.err[-500:]))
            now = snap(d)
            for x in extra:
                now.pop(x, None)
            ctx.check(now == files, "files", lambda: "%s: %s" % (where, sorted(now)))
            ctx.count("results_compared")
        way = WAYS[case["i"] % len(WAYS)]
        if way == "config":
            c = self.conf(r, os.path.join(d, "my.conf"), pairs)
            same(self.call(ctx, prog, log + ["--config", r.choice([c, "my.conf"])], d, way), way, ["my.conf"])
        elif way == "default":
            self.conf(r, os.path.join(d, "fpfind.default.conf"), pairs)
            same(self.call(ctx, prog, log, d, way), way, ["fpfind.default.conf"])
            os.unlink(os.path.join(d, "fpfind.default.conf"))
        elif way == "split":
            # every option at one level, with other values at the levels below
            wrong = {"-t": names("tgt.dat"), "-T": names("nothing.dat"), "-q": 3, "-R": 77, "-r": 900, "-k": 9, "-s": 40, "-S": 1e6, "-V": 0, "-Z": 1000, "--precomp-step": 0.5, "--precomp-stop": 1e-9, "--precomp-start": 1e-3}
            level = {k: r.randrange(3) for k, v in pairs}
            low = [(k, v if level[k] == 0 else wrong[k]) for k, v in pairs if level[k] == 0 or (k in wrong and r.random() < 0.7)]
            mid = [(k, v if level[k] == 1 else wrong[k]) for k, v in pairs if level[k] == 1 or (level[k] == 2 and k in wrong and r.random() < 0.7)]
            top = [(k, v) for k, v in pairs if level[k] == 2]
            self.conf(r, os.path.join(d, "fpfind.default.conf"), low)
            self.conf(r, os.path.join(d, "c"), mid)
            same(self.call(ctx, prog, log + ["--config", "c"] + self.cli(r, top), d, way), "%s: default file %s, --config %s, command line %s" % (way, low, mid, top), ["c", "fpfind.default.conf"])
        else:
            res = self.call(ctx, prog, self.cli(r, pairs) + ["--save", "saved"], d, way)
            ctx.check(res.status == 0 and os.path.exists(os.path.join(d, "saved")), "not-saved", lambda: "%s: %r" % (pairs, res))
            ctx.check("\t" not in res.out and "Peak" not in res.err, "searched", lambda: "%s: %r" % (pairs, res))
            same(self.call(ctx, prog, log + ["--config", "saved"], d, way), way, ["saved"])
        ctx.count("way_" + way)
        ctx.distinct(way, tuple(map(str, pairs)), case["s"])
        ctx.sample({"way": way, "options": [[k, str(v)] for k, v in pairs if k not in ("-t", "-T")], "printed": want.out.strip(), "status": want.status})


class C48(Tool):
    quick, thorough = 48, 1000
    rule = ("a case runs one search at every verbosity, with a log file (also replacing an old one) and --quiet; the messages of each run are parsed: levels as selected, the same messages in the same order at every verbosity that includes them, log file identical with standard error, "
            "no message on standard error with --quiet while the file stays complete, same result; a scan must name every candidate tried with the outcome that the result confirms; distinct by (options)")
    REC = re.compile(r"^(\d{8}_\d{6})\t(\w+) *\t([^\t]*):(\d+)\t\| (.*)$")
    CONT = re.compile(r"^\s+\| (.*)$")

    def records(self, ctx, text, where):
        """[(level, function:line, lines)], and what follows the messages."""
        out, lines = [], text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        for n, l in enumerate(lines):
            m = self.REC.match(l)
            if m:
                out.append((m.group(2), "%s:%s" % (m.group(3), m.group(4)), [m.group(5)]))
                width = len(l.expandtabs(8).split("| ")[0])
                continue
            if l.startswith("Traceback"):
                return out, lines[n:]
            m = self.CONT.match(l)
            ctx.check(m is not None and out, "stray-line", lambda: "%r in %r; %s" % (l, text[:2000], where))
            ctx.check(len(l.expandtabs(8).split("| ")[0]) == width, "misaligned-details", lambda: "%r; %s" % (l, where))
            out[-1][2].append(m.group(1))
        return out, []

    def plain(self, records):
        """Without what may differ between runs: options and elapsed times."""
        return [(lv, f, [re.sub(r"(END PROFILING: ).*", r"\1", x) for x in ls]) for lv, f, ls in records if not ls[0].startswith("Namespace(")]

    def run(self, case, ctx):
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        r = random.Random(case["s"])
        st = sr.Setting(r)
        st.q, st.k, st.s = r.choice([13, 14]), r.choice([1, 1, 2]), r.choice([4, 5.5])
        st.n = 2000
        st.finish()
        kind = ["plain", "scan", "fullscan", "fail", "plain", "scanfail", "unusable", "fullscan"][case["i"] % 8]
        df, dt = st.draw(r)
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        pairs = 0.0 if kind in ("fail", "scanfail") else 0.4
        D = sy.make(rng, st.dur * 1.3 + abs(dt), dt, df, p * pairs, p * (1 - pairs), p, jitter=0.1)
        d = ctx.fresh()
        sy.write_a1(os.path.join(d, "ref.dat"), D.a)
        sy.write_a1(os.path.join(d, "tgt.dat"), D.b)
        args = ["-t", "ref.dat", "-T", "tgt.dat"] + [str(x) for x in st.args()]
        if not pairs:
            args += ["-S", "12"]
        if kind == "unusable":
            args = args[2:]
        values = [0.0]
        if "scan" in kind:
            # small steps all succeed; large ones only at zero, which need not come first
            step, start = r.choice([(10 ** r.uniform(-7, -6.3), 0.0), (1e-3, 0.0), (1e-3, -1e-3), (2e-3, -4e-3)])
            m = r.choice([1, 2, 3])
            ordered = r.random() < 0.5
            if start:
                m = max(m, round(-start / step))
            args += ["-P", "--precomp-step", repr(step), "--precomp-stop", repr((m + 0.5) * step + (start if ordered else 0))]
            args += ["--precomp-start=%r" % start] if start else []
            if ordered:
                args.append("--precomp-ordered")
                values = [start + k * step for k in range(m + 1)]
            else:
                values = [start] + [start + x for k in range(1, m + 1) for x in (k * step, -k * step)]
            if kind == "fullscan":
                args.append("--precomp-fullscan")
        prog = self.program(ctx)
        log = os.path.join(d, "log")
        runs = {}

        def go(level, extra=(), file=False):
            """Runs at a verbosity; returns (records on standard error, in the file)."""
            spell = {0: [], 1: r.choice([["-v"], ["--verbosity"]]), 2: r.choice([["-vv"], ["-v", "-v"]]), 3: ["-vvv"]}[level]
            if file and r.random() < 0.5:
                write(log, b"old content\n" * r.choice([1, 2000]))
            opts = spell + list(extra) + (r.choice([["-L", "log"], ["--logging", log], ["--logging=log"]]) if file else [])
            res = self.call(ctx, prog, args + opts, d, "%s %s" % (args, opts))
            where = "%s %s: status %s" % (args, opts, res.status)
            err, rest = self.records(ctx, res.err, where)
            ctx.check(sorted(os.listdir(d)) == sorted(["ref.dat", "tgt.dat"] + ["log"] * file), "files", lambda: "%s: %s" % (where, os.listdir(d)))
            inlog = None
            if file:
                text = read(log).decode("utf-8", "replace")
                os.unlink(log)
                inlog, more = self.records(ctx, text, where)
                ctx.check(not more, "traceback-in-log", where)
                if "--quiet" not in extra:
                    shown = res.err[: len(res.err) - len("\n".join(rest)) - 1] if rest else res.err
                    ctx.check(shown == text, "log-differs", lambda: "%s: standard error %r, log file %r" % (where, shown[-500:], text[-500:]))
            allowed = ["WARNING", "ERROR"] + ["INFO"] * (level >= 1) + ["DEBUG"] * (level >= 2)
            for lv, f, ls in err + (inlog or []):
                ctx.check(lv in allowed, "level", lambda: "%s message %r; %s" % (lv, ls, where))
            result = (res.status, res.out)
            runs.setdefault("result", result)
            ctx.check(runs["result"] == result, "result-differs", lambda: "%r instead of %r; %s" % (result, runs["result"], where))
            ctx.check((res.status == 0) == (kind in ("plain", "scan", "fullscan")), "status", lambda: "%s %r" % (where, res))
            ctx.count("messages_parsed", len(err) + len(inlog or []))
            return err, inlog, where

        most, inlog, where = go(2, file=r.random() < 0.5)
        full = self.plain(most)
        ctx.check(len(full) >= (1 if kind == "unusable" else 5), "few-messages", lambda: "%r; %s" % (full, where))
        ctx.check(sum(x[2][0].startswith("Namespace(") for x in most) == 1, "options-not-logged", where)

        def expect(level, got, where):
            drop = {0: ("INFO", "DEBUG"), 1: ("DEBUG",), 2: (), 3: ()}[level]
            want = [x for x in full if x[0] not in drop]
            got = self.plain(got)
            ctx.check(got == want, "messages-differ", lambda: "%r instead of %r; %s" % ([x for x in got if x not in want][:3], [x for x in want if x not in got][:3], where))
            ctx.count("message_lists_compared")
        for level in (0, 1, 3):
            err, inlog, where = go(level, file=r.random() < 0.5)
            expect(level, err, where)
            if level == 1:
                info = err
        level = r.choice([0, 1, 2])
        err, inlog, where = go(level, ["--quiet"], file=True)
        ctx.check(not err, "not-quiet", lambda: "%r; %s" % (err[:3], where))
        expect(level, inlog, where)
        if r.random() < 0.5:
            err, inlog, where = go(r.choice([0, 1, 2]), ["--quiet"])
            ctx.check(not err, "not-quiet", lambda: "%r; %s" % (err[:3], where))

        # one line for each candidate, in order; the first success is the result
        tried = []
        for lv, f, ls in info:
            m = re.match(r"\s*Peak f(ound|inding failed), +(-?[\d.]+) ppm: .*?(?:dt= *(-?\d+), df=(-?[\d.]+)ppm)?\)?$", ls[0])
            if m:
                tried.append((float(m.group(2)), m.group(1) == "ound", m.group(3), m.group(4)))
        where = "%s: %s" % (args, tried)
        if kind != "unusable":
            first = next((n for n, t in enumerate(tried) if t[1]), None)
            n = len(values) if kind in ("fullscan", "scanfail") or first is None else first + 1
            ctx.check(len(tried) == n, "candidates-reported", lambda: "%d instead of %d candidates; %s" % (len(tried), n, where))
            ctx.check(all(abs(t[0] - v * 1e6) <= 0.00051 for t, v in zip(tried, values)), "candidate-values", lambda: "%s instead of %s" % (where, values))
            ctx.check((first is None) == (runs["result"][0] != 0), "success-reported", lambda: "%s; %r" % (where, runs["result"]))
            if first is not None:
                f, t = sr.parse(runs["result"][1])
                ctx.check(int(tried[first][2]) == int(t) and abs(float(tried[first][3]) - float(f) * 1e6) < 0.00011, "reported-offsets", lambda: "%s; printed %r" % (where, runs["result"][1]))
            ctx.count("candidates_reported", len(tried))
        ctx.count("scans_with_failed_and_found", 0 < sum(t[1] for t in tried) < len(tried))
        for _ in range(20):
            self.layout(ctx, r)
        ctx.distinct(kind, case["s"])
        ctx.sample({"kind": kind, "messages": len(full), "candidates": tried, "printed": runs["result"][1].strip()})

    def layout(self, ctx, r):
        """Lines made of one record by the formatter."""
        import logging
        from fpfind.lib.logging import LoggingOverrideFormatter
        human = r.random() < 0.7
        words = lambda: "".join(r.choice("ab1 =.%{}\u00b5") for _ in range(r.randrange(1, 8))).strip() or "x"
        text = " " * r.choice([0, 0, 2, 6]) + r.choice(["", words(), words() + " " + words()])
        kind = r.choice(["none", "list", "tuple", "dict", "empty"])
        details = {"none": None, "list": [words() for _ in range(r.randrange(1, 5))], "tuple": tuple(words() for _ in range(r.randrange(1, 5))), "dict": {words() + str(k): words() for k in range(r.randrange(1, 4))}, "empty": []}[kind]
        over = {k: v for k, v in (("_funcname", "[f]"), ("_filename", "x.py"), ("_lineno", 77)) if r.random() < 0.5}
        rec = logging.LogRecord("n", logging.INFO, "/p/file.py", 5, text.replace("%", "%%"), (), None, "func")
        rec.msg = text
        for k, v in over.items():
            setattr(rec, k, v)
        if details is not None:
            rec.details = details
        got = LoggingOverrideFormatter(fmt="{levelname:<7s}\t{funcName}:{filename}:{lineno}\t| {message}", style="{", human_readable=human).format(rec)
        head = "INFO   \t%s:%s:%s\t| " % (over.get("_funcname", "func"), over.get("_filename", "file.py"), over.get("_lineno", 5))
        if details is None or (human and not details):
            want = [head + text]
        elif not human:
            want = [head + text + "\t" + str(details)]
        else:
            blank = "".join(c if c.isspace() else " " for c in head[:-2]) + "| "
            pad = " " * (len(text) - len(text.lstrip(" "))) + "  "
            rows = ["%s: %s" % kv for kv in details.items()] if kind == "dict" else list(details)
            want = [blank + pad + x for x in rows]
            if text.strip(" ") == "":
                want[0] = head + want[0][len(blank):]
            else:
                want.insert(0, head + text)
        ctx.check(got == "\n".join(want), "layout", lambda: "%r instead of %r (message %r, details %r)" % (got, "\n".join(want), text, details))
        ctx.count("layouts_compared")
