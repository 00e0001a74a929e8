"""C49: reading and writing errors of the system, injected by strace, by limits on the file
size and by full or closed streams."""
import os
import random
import resource
import shutil
import subprocess

from vlib import core
from vlib.core import Check
from vlib.pylib import Result, read, run_main, run_sub, write

TS = "fpfind.lib.parse_timestamps"
GEN = "fpfind.lib.generate_freqcd_testcase"
FP = "fpfind.fpfind"

READER = """import sys
import fpfind.lib.parse_epochs as E
kind, name = sys.argv[1:]
s = getattr(E, "read_" + kind)(name)
if kind == "T3":
    print([int(x) for x in s.coinc_matrix], [int(x) for x in s.garbage], int(s.okcount), s.qber)
else:
    print([repr(x) for x in s[0]], [int(x) for x in s[1]])
"""


def traced(args, path, inject, cwd, stdin=None, limit=None):
    """Runs the interpreter under strace; returns (Result, number of errors delivered)."""
    log = os.path.join(cwd, "..", "trace.%d" % os.getpid())
    cmd = [core.PYPY, "-B"] + [str(a) for a in args]
    if inject:
        name = inject.split(":")[0]
        cmd = ["strace", "-f", "-qq", "-o", log, "-P", path, "-e", "trace=" + name, "-e", "inject=" + inject] + cmd
    pre = None
    if limit is not None:
        pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    p = subprocess.run(cmd, cwd=cwd, input=stdin, stdin=subprocess.DEVNULL if stdin is None else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=pre)
    n = 0
    if inject:
        with open(log, errors="replace") as f:
            n = sum("(INJECTED)" in l for l in f)
        os.unlink(log)
    dec = lambda b: b.decode("utf-8", "surrogateescape")
    res = Result(p.returncode, dec(p.stdout), dec(p.stderr))
    res.raw = p.stdout
    return res, n


class C49(Check):
    interp = core.PYPY
    workers = 8
    soft_limit = 240
    quick, thorough = 288, 4000
    rule = ("a case runs one tool as a process (conversion and report over all formats and modes, test-case generator, search on files and epochs) while one call on one of its files fails - open, the n-th read, the n-th write, close - or the file size is limited at a random point, or standard output is full or closed; "
            "exit status 0 is accepted only with the complete correct output, anything else must be reported by a nonzero status and leave nothing but a prefix of it; a third of the cases have limits that are not reached and must succeed; distinct by (tool, formats, fault)")
    assumptions = ("errors are those the system reports to the process; -1/errno is injected at the system call, before any library",)
    KINDS = ["conv-read", "conv-write", "conv-limit", "conv-read", "report-read", "conv-close", "gen-read", "gen-write", "gen-limit", "fp-read", "conv-open", "report-full", "fp-epoch", "conv-limit", "gen-temp", "fp-full", "fp-dir", "fp-config"]

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def run(self, case, ctx):
        if not shutil.which("strace"):
            raise core.HarnessError("strace is missing")
        r = random.Random(case["s"])
        kind = self.KINDS[case["i"] % len(self.KINDS)]
        d = ctx.fresh()
        getattr(self, kind.split("-")[0])(case, ctx, r, d, kind.split("-")[1])

    # -------------------------------------------------------------- oracle
    def judge(self, ctx, res, n, got, want, where, must=None, prefix=True):
        """got: what is there (None: nothing); must: required outcome, if the fault decides it."""
        detail = lambda: "%s: status %s, %s errors delivered, %s of %d bytes there, equal=%s, stderr %r" % (where, res.status, n, None if got is None else len(got), len(want), got == want, res.err[-300:])
        if res.status == 0:
            ctx.check(got == want, "success-without-result", detail)
            ctx.check(must != "fail", "error-hidden", detail)
        else:
            ctx.check(must != "succeed", "needless-failure", detail)
            ctx.check(res.err.strip() != "", "no-message", detail)
            if prefix and got is not None:
                ctx.check(want.startswith(got), "not-a-prefix", detail)
        ctx.sample({"run": where[:200], "status": res.status, "errors_delivered": n, "bytes_there": None if got is None else len(got), "bytes_expected": len(want)})
        ctx.count("errors_delivered", n)
        ctx.count("runs_that_failed", res.status != 0)
        ctx.count("runs_that_succeeded", res.status == 0)

    READ = ["EIO", "EIO", "ESTALE", "EINTR", "ENXIO"]
    WRITE = ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"]

    def fault(self, r, call, most):
        err = r.choice(self.READ if call == "read" else self.WRITE)
        when = r.randrange(1, most + 1)
        rest = "+" if r.random() < 0.4 and err != "EINTR" else ""
        return "%s:error=%s:when=%d%s" % (call, err, when, rest), err

    # -------------------------------------------------------------- tools
    def conv(self, case, ctx, r, d, what):
        from checks import timestamps as T
        src, dst = r.choice(T.FORMATS), r.choice(T.FORMATS)
        n = r.choice([1, 40, 700, 3000, 12000] if what != "limit" else [1, 5, 700, 3000])
        big = what == "read" and r.random() < 0.15
        if big:
            n, src = 130000, r.choice(["a1", "a1x"])
        ev = T.gen_events(r, n, sort=True)
        mode = r.choice([[], ["--inmemory"]])
        data, want = T.enc(src, ev), T.enc(dst, ev)
        inp, out = write(os.path.join(d, "in.dat"), data), os.path.join(d, "out.dat")
        args = T.fmt_args(src, dst) + mode + r.choice([[], ["-q"]]) + [inp, out]
        limit, inject, path, must = None, None, None, None
        if what == "read":
            inject, err = self.fault(r, "read", 4)
            path = inp
        elif what == "write":
            inject, err = self.fault(r, "write", max(1, min(6, len(want) // 8192)))
            path = out
        elif what == "open":
            path = r.choice([inp, out])
            inject = "openat:error=%s:when=1" % r.choice(["EACCES", "EMFILE", "EIO"])
        elif what == "close":
            inject, path = "close:error=%s:when=1" % r.choice(["EIO", "ENOSPC"]), out
        else:
            over = r.random() < 0.6
            limit = r.randrange(len(want)) if over and want else len(want) + r.choice([0, 1, 100])
            must = "fail" if over and want else "succeed"
        res, k = traced(["-m", TS] + args, path, inject, d, limit=limit)
        got = read(out) if os.path.exists(out) else None
        if what in ("open", "close") and k:
            must = "fail"
        if what == "write" and k and "EINTR" not in inject and got != want:
            must = "fail"
        self.judge(ctx, res, k, got, want, "%s n=%d fault %s on %s" % (args[:-2], n, inject or "size limit %d" % limit, path and os.path.basename(path)), must)
        ctx.check(read(inp) == data, "input-modified", lambda: str(args))
        ctx.distinct("conv", what, src, dst, tuple(mode), inject)
        ctx.count("conversions")

    def report(self, case, ctx, r, d, what):
        from checks import timestamps as T
        src = r.choice(T.FORMATS)
        ev = T.gen_events(r, r.choice([1, 40, 3000, 12000]), sort=True)
        inp = write(os.path.join(d, "in.dat"), T.enc(src, ev))
        args = ["-A", src[1]] + (["-X"] if src == "a1x" else []) + ["-p", "-q"] + r.choice([[], ["--inmemory"]]) + [inp]
        want = run_main(TS, args)
        ctx.check(want.status == 0, "failed", lambda: repr(want))
        if what == "read":
            inject, err = self.fault(r, "read", 4)
            res, k = traced(["-m", TS] + args, inp, inject, d)
            self.judge(ctx, res, k, res.out, want.out, "%s fault %s" % (args, inject))
        else:
            self.streams(ctx, r, d, ["-m", TS] + args, str(args))
        ctx.distinct("report", what, src, case["s"])
        ctx.count("reports")

    def streams(self, ctx, r, d, args, where):
        """Standard output full, closed, or a pipe nobody reads any more."""
        how = r.choice(["full", "closed pipe"])
        if how == "full":
            with open("/dev/full", "wb") as f:
                p = subprocess.run([core.PYPY, "-B"] + [str(a) for a in args], cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, timeout=300)
        else:
            a, b = os.pipe()
            os.close(a)
            try:
                p = subprocess.run([core.PYPY, "-B"] + [str(a) for a in args], cwd=d, stdin=subprocess.DEVNULL, stdout=b, stderr=subprocess.PIPE, timeout=300)
            finally:
                os.close(b)
        ctx.check(p.returncode != 0, "error-hidden", lambda: "%s: standard output %s, status 0" % (where, how))
        ctx.count("standard_outputs_" + how.replace(" ", "_"))
        ctx.count("runs_that_failed")

    def gen(self, case, ctx, r, d, what):
        from checks import timestamps as T
        legacy = r.random() < 0.4
        x = ["-x"] if legacy else []
        fmt = "a1x" if legacy else "a1"
        if what in ("write", "limit"):
            ts = [r.randrange(1 << 53) for _ in range(r.choice([1, 3, 50, 400]))]
            out = os.path.join(d, "o")
            # the events of the program in question, written without any fault
            w = run_sub(GEN, x + ["-t"] + ts, cwd=d)
            ctx.check(w.status == 0 and len(w.raw) == 8 * len(ts), "failed", lambda: repr(w))
            want = w.raw
            limit = inject = must = None
            if what == "limit":
                over = r.random() < 0.6
                limit = r.randrange(len(want)) if over else len(want) + r.choice([0, 1, 100])
                must = "fail" if over else "succeed"
                res, k = traced(["-m", GEN] + x + ["-o", out, "-t"] + ts, None, None, d, limit=limit)
                got = read(out) if os.path.exists(out) else None
            elif r.random() < 0.6:
                inject, err = self.fault(r, "write", min(len(ts), 6))
                res, k = traced(["-m", GEN] + x + ["-o", out, "-t"] + ts, out, inject, d)
                got = read(out) if os.path.exists(out) else None
                must = "fail" if k and got != want else None
            else:
                self.streams(ctx, r, d, ["-m", GEN] + x + ["-t"] + ts, "generator to standard output")
                return
            self.judge(ctx, res, k, got, want, "generator %s %d events fault %s" % (x, len(ts), inject or "size limit %d" % limit), must)
        else:
            ev = [(t, p) for t, p in T.gen_events(r, r.choice([1, 40, 1500, 6000]))]
            data = T.enc(fmt, ev)
            inp = write(os.path.join(d, "in.dat"), data)
            want = run_main(GEN, x + [inp])
            ctx.check(want.status == 0 and want.out.split() == [str(t) for t, _ in ev], "failed", lambda: repr(want))
            if what == "read":
                inject, err = self.fault(r, "read", 4)
                res, k = traced(["-m", GEN] + x + [inp], inp, inject, d)
                self.judge(ctx, res, k, res.out, want.out, "generator %s reading %d events, fault %s" % (x, len(ev), inject))
            else:                      # standard input, by way of a temporary file
                limit = r.choice([r.randrange(len(data)), len(data) + r.randrange(100)])
                res, k = traced(["-m", GEN] + x + ["-"], None, None, d, stdin=data, limit=limit)
                self.judge(ctx, res, k, res.out, want.out, "generator %s reading %d events from standard input, size limit %d" % (x, len(ev), limit), "fail" if limit < len(data) else "succeed")
                ctx.check(os.listdir(d) == ["in.dat"], "left-behind", lambda: str(os.listdir(d)))
        ctx.distinct("gen", what, legacy, case["s"])
        ctx.count("generator_runs")

    def fp(self, case, ctx, r, d, what):
        import numpy as np
        from checks import search as S
        sy = S.S()
        st = S.Setting(r)
        if what == "epoch":
            return self.epoch(case, ctx, r, d)
        if what == "dir":
            return self.directories(case, ctx, r, d)
        st.q, st.k = 14, 1
        st.finish()
        df, dt = st.draw(r)
        p = st.n / st.Ta
        D = sy.make(np.random.default_rng(r.randrange(1 << 40)), st.dur * 1.06 + abs(dt), dt, df, p * 0.4, p * 0.5, p * 0.6, jitter=0.1)
        legacy = r.random() < 0.3
        fa, fb = sy.write_a1(os.path.join(d, "ref.dat"), D.a, legacy), sy.write_a1(os.path.join(d, "tgt.dat"), D.b, legacy)
        args = ["-t", fa, "-T", fb] + st.args() + (["-X"] if legacy else [])
        want = run_main(FP, args)
        ctx.check(want.status == 0, "failed", lambda: repr(want))
        if what == "full":
            self.streams(ctx, r, d, ["-m", FP] + args, "search")
        elif what == "config":
            self.config(case, ctx, r, d, args, want)
        else:
            path = r.choice([fa, fb])
            inject, err = self.fault(r, "read", 3)
            res, k = traced(["-m", FP] + args, path, inject, d)
            where = "search %r, fault %s on %s" % (st, inject, os.path.basename(path))
            self.judge(ctx, res, k, res.out, want.out, where, prefix=False)
            if res.status:
                ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res.out))
        ctx.distinct("fp", what, repr(st), case["s"])
        ctx.count("searches")

    def config(self, case, ctx, r, d, args, want):
        """Configuration files that cannot be read or written."""
        conf = os.path.join(d, "conf")
        full = run_sub(FP, args + ["--save", conf], cwd=d)
        ctx.check(full.status == 0, "failed", lambda: repr(full))
        text = read(conf)
        if r.random() < 0.5:
            inject, err = self.fault(r, "read", 2)
            res, k = traced(["-m", FP, "--config", conf], conf, inject, d)
            self.judge(ctx, res, k, res.out, want.out, "search with a configuration file, fault %s" % inject, prefix=False)
        else:
            over = r.random() < 0.6
            os.unlink(conf)
            limit = r.randrange(len(text)) if over else len(text) + r.choice([0, 1, 100])
            res, k = traced(["-m", FP] + args + ["--save", conf], None, None, d, limit=limit)
            got = read(conf) if os.path.exists(conf) else None
            self.judge(ctx, res, k, got, text, "saving a configuration of %d bytes, size limit %d" % (len(text), limit), "fail" if over else "succeed")
        ctx.count("configuration_files")

    def directories(self, case, ctx, r, d):
        """Searches over epoch directories in which one file cannot be opened or read."""
        import numpy as np
        from checks import search as S
        sy, EP = S.S(), 1 << 37
        st = S.Setting(r)
        st.q, st.R, st.r, st.k, st.s = r.choice([(15, 8000, 50, 1, 8), (16, 8000, 50, 1, 4)])
        st.n = 800
        st.finish()
        total, ref, p = int(-(-st.dur // (EP / 256))) + 1, int(0.02 * EP), st.n / st.Ta
        D = sy.make(np.random.default_rng(r.randrange(1 << 40)), (total * EP - ref) / 256 - 5000, 1000.0, 1e-7, p * 0.3, p * 0.7, p, ref=ref, lead=0.0)
        e0 = r.randrange(1 << 28, 1 << 31)
        A, B = os.path.join(d, "T2"), os.path.join(d, "T1")
        sy.write_epochs(A, D.a, e0, "T2")
        sy.write_epochs(B, D.b, e0, "T1")
        args = ["-d", A, "-D", B] + st.args()
        want = run_main(FP, args)
        ctx.check(want.status == 0, "failed", lambda: repr(want))
        path = os.path.join(r.choice([A, B]), "%x" % (e0 + r.randrange(total)))
        if r.random() < 0.3:
            inject = "openat:error=%s:when=1+" % r.choice(["EACCES", "EIO", "EMFILE"])
        else:
            inject, err = self.fault(r, "read", 2)
        res, k = traced(["-m", FP] + args, path, inject, d)
        where = "search %r, fault %s on file %s" % (st, inject, path[-12:])
        self.judge(ctx, res, k, res.out, want.out, where, prefix=False)
        if res.status:
            ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res.out))
        ctx.distinct("dir", repr(st), inject, case["s"])
        ctx.count("searches")

    def epoch(self, case, ctx, r, d):
        """Epoch files of all types, read by the library."""
        from checks import epochs as E
        kind = r.choice(["T1", "T2", "T3", "T4"])
        epoch, n = r.randrange(1 << 32), r.choice([1, 50, 3000, 9000])
        data = {"T1": lambda: E.enc_t1(epoch, [(x << 10, r.randrange(1, 16)) for x in sorted(r.sample(range(1, 1 << 27), n))]),
                "T2": lambda: E.enc_t2(epoch, [(r.randrange(2, 1 << 15), r.randrange(16)) for _ in range(n)], 15, 4),
                "T3": lambda: E.enc_t3(epoch, [17 << r.randrange(4) for _ in range(4 * n)]),
                "T4": lambda: E.enc_t4(epoch, [(r.randrange(1 << 12), r.randrange(4)) for _ in range(n)], 13, 2)}[kind]()
        name = write(os.path.join(d, "%x" % epoch), data)
        prog = ["-c", READER, kind, name]
        want = subprocess.run([core.PYPY, "-B"] + prog, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        ctx.check(want.returncode == 0, "failed", lambda: want.stderr.decode()[-500:])
        inject, err = self.fault(r, "read", max(2, min(6, len(data) // 8192 + 3)))
        res, k = traced(prog, name, inject, d)
        self.judge(ctx, res, k, res.out, want.stdout.decode(), "%s file of %d bytes, fault %s" % (kind, len(data), inject), prefix=False)
        if res.status:
            ctx.check(res.out == "", "output", lambda: "%s: %r" % (kind, res.out[:300]))
        ctx.distinct("epoch", kind, inject, len(data))
        ctx.count("epoch_files")
