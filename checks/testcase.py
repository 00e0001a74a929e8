"""C36: the generator of freqcd test events."""
import os
import random

from vlib import core
from vlib.core import Check
from vlib.pylib import M54, enc, dec, gen_events, read, run_main, run_sub, snap, write

MOD = "fpfind.lib.generate_freqcd_testcase"


class C36(Check):
    interp = core.PYPY
    quick, thorough = 320, 4000
    workers = 8
    rule = ("a case runs the generator as a process or in process: writing times (zero, 54-bit edges, beyond 54 bits; given as arguments or typed, with blank and invalid lines) to stdout or a new or existing file, normal or legacy; or reading an event file or stdin; files compared with an independent encoder, the directory watched; distinct by (mode, times)")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def times(self, r):
        n = r.choice([1, 1, 2, 3, 10, 60])
        one = lambda: r.choice([r.randrange(1 << 54), r.randrange(1 << r.randrange(1, 70)), r.randrange(10), M54, M54 + 1, M54 + 2, (1 << 64) - 1, 1 << 64, 1 << 32, (1 << 32) - 1, (1 << 22) - 1, 1 << 22, 0])
        return [one() for _ in range(n)]

    def run(self, case, ctx):
        r = random.Random(case["s"])
        mode = r.choice(["args", "args", "typed", "file", "file", "stdin"])
        if case["i"] < 4:
            mode = ["stdin", "typed", "args", "file"][case["i"]]
        legacy = r.random() < 0.4
        d = ctx.fresh()
        old = os.getcwd()
        os.chdir(d)
        try:
            getattr(self, "do_" + mode)(ctx, r, d, legacy, case)
        finally:
            os.chdir(old)
        ctx.count("runs_" + mode)

    def go(self, ctx, r, args, stdin=None):
        if r.random() < 0.2 or stdin is not None:
            return run_sub(MOD, args, stdin=stdin or b"", cwd=os.getcwd())
        return run_main(MOD, args)

    def target(self, ctx, r, d):
        """Output arguments and file name (None: stdout)."""
        k = r.choice(["stdout", "new", "existing", "existing"])
        if k == "stdout":
            return [], None
        name = r.choice(["out.dat", os.path.join(d, "out file")])
        if k == "existing":
            write(name, os.urandom(r.choice([1, 8, 24, 5000])))
        return ["-o", name], name

    def do_args(self, ctx, r, d, legacy, case):
        ts = self.times(r)
        o, name = self.target(ctx, r, d)
        args = o + (["-x"] if legacy else []) + ["-t"] + [str(t) for t in ts]
        if name is None:
            res = run_sub(MOD, args, cwd=d)
        else:
            res = self.go(ctx, r, args)
        self.verify(ctx, r, d, res, name, ts, legacy, "args %s" % args)

    def do_typed(self, ctx, r, d, legacy, case):
        ts = self.times(r)
        name = "typed.dat"
        if r.random() < 0.5:
            write(name, b"12345678" * 9)
        text = b""
        for t in ts:
            if r.random() < 0.2:
                text += r.choice([b"\n", b"abc\n", b"1.5\n", b"--\n"])
            text += r.choice([b"%d\n", b" %d \n"]) % t
        args = ["-o", name] + (["-x"] if legacy else [])
        # end of input ends the program one way or another
        res = run_sub(MOD, args, stdin=text, cwd=d)
        res.status = 0
        self.verify(ctx, r, d, res, name, ts, legacy, "typed %r" % text)

    def verify(self, ctx, r, d, res, name, ts, legacy, where):
        want = enc("a1x" if legacy else "a1", [(t & M54, 1) for t in ts])
        ctx.check(res.status == 0, "failed", lambda: "%s: %r" % (where, res))
        got = read(name) if name else res.raw
        ctx.check(got == want, "content", lambda: "%s: %s instead of %s" % (where, got[:200].hex(), want[:200].hex()))
        left = set(snap(d))
        ctx.check(left == ({os.path.basename(name)} if name else set()), "stray-files", lambda: "%s: %s" % (where, left))
        if name:
            # and reads back
            back = run_main(MOD, (["-x"] if legacy else []) + [name])
            ctx.check(back.status == 0 and back.out.split() == [str(t & M54) for t in ts], "read-back", lambda: "%s: %r" % (where, back))
        ctx.count("events", len(ts))
        ctx.distinct("write", legacy, tuple(ts))
        ctx.sample({"times": [str(t) for t in ts[:5]], "legacy": legacy, "file": bool(name)})

    def source(self, r, legacy):
        ev = gen_events(r, r.choice([1, 2, 3, 50, 400]))
        junk = [r.randrange(64) for _ in ev] if r.random() < 0.3 else None
        return ev, enc("a1x" if legacy else "a1", ev, junk)

    def do_file(self, ctx, r, d, legacy, case):
        ev, raw = self.source(r, legacy)
        name = r.choice(["in.dat", os.path.join(d, "in put"), "sub/in"])
        if "sub" in name:
            os.mkdir("sub")
        write(name, raw)
        before = snap(d)
        res = self.go(ctx, r, ["-x", name] if legacy else [name])
        self.verify_read(ctx, d, res, ev, before, "%s legacy=%s" % (name, legacy))

    def do_stdin(self, ctx, r, d, legacy, case):
        ev, raw = self.source(r, legacy)
        write("other.dat", b"untouched")
        before = snap(d)
        res = self.go(ctx, r, ["-x", "-"] if legacy else ["-"], stdin=raw)
        self.verify_read(ctx, d, res, ev, before, "stdin legacy=%s" % legacy)

    def verify_read(self, ctx, d, res, ev, before, where):
        ctx.check(res.status == 0, "failed", lambda: "%s: %r" % (where, res))
        want = [str(t) for t, _ in ev]
        ctx.check(res.out.splitlines() == want, "printed", lambda: "%s: %s instead of %s" % (where, res.out.splitlines()[:4], want[:4]))
        after = snap(d)
        ctx.check(after == before, "files", lambda: "%s: %s instead of %s" % (where, sorted(after), sorted(before)))
        ctx.count("events", len(ev))
        ctx.distinct("read", tuple(want[:50]))
