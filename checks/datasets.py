"""C50, C51: the tools that made and examined the project's test data sets."""
import os
import random
import runpy
import sys
from fractions import Fraction

from vlib import core
from vlib.core import Check
from vlib.pylib import M54, enc, dec, read, snap, write

FOLDER = os.path.join("Clock-sync", "20221007_freqdetuneg2")
SOURCE = "singletimestampnodelay.a1.dat"
RATIOS = {"c4e%d.dat" % k: Fraction(1, 10**k) for k in (10, 9, 8, 7, 6, 5, 4, 3)}


class C50(Check):
    interp = core.PYPY
    quick, thorough = 160, 2400
    workers = 8
    rule = ("a case stores a legacy data set (1-3000 events; spans from 1 us to days, up to the end of the 54-bit range; channels 1 and 4, others and coincidences of several; starting with any of them; without one of the channels) in a scratch directory, "
            "runs the detuning script there, and compares the channel-1 file event by event and the eight detuned channel-4 files with exact rational arithmetic; distinct by data set")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def source(self, r):
        n = r.choice([1, 2, 3, 10, 100, 100, 600, 600, 3000])
        span = int(10 ** r.uniform(6, 16) / 4)
        room = (1 << 54) - span - span // 900
        t0 = r.choice([0, 1, r.randrange(1 << 20), r.randrange(room), room - 1])
        off = sorted(r.randrange(span) for _ in range(n - 1))
        ts = [t0] + [t0 + o for o in off]
        pats = r.choice([[1, 8], [1, 8], [1, 8, 2, 4, 9, 15, 0, 12], [8], [1], [9, 8, 1, 10], [2, 4]])
        return [(t, r.choice(pats)) for t in ts]

    def run(self, case, ctx):
        r = random.Random(case["s"])
        d = ctx.fresh()
        folder = os.path.join(d, FOLDER)
        os.makedirs(folder)
        ev = self.source(r)
        write(os.path.join(folder, SOURCE), enc("a1x", ev))
        if r.random() < 0.3:     # left from an earlier run
            write(os.path.join(folder, "c4e7.dat"), os.urandom(80))
        before = snap(folder)[SOURCE]
        old = os.getcwd()
        os.chdir(d)
        try:
            runpy.run_module("fpfind.lib.generate_freqdetuneg2", run_name="__main__")
        finally:
            os.chdir(old)
        ctx.check(snap(folder)[SOURCE] == before, "source-changed", "")
        ctx.check(set(os.listdir(folder)) == {SOURCE, "c1_a2.dat"} | set(RATIOS), "files", lambda: sorted(os.listdir(folder)))
        ones = enc("a2", [e for e in ev if e[1] == 1])
        got = read(os.path.join(folder, "c1_a2.dat"))
        ctx.check(got == ones, "channel-1", lambda: "%r instead of %r" % (got[:120], ones[:120]))
        start = ev[0][0]
        eights = [t for t, p in ev if p == 8]
        for name, ratio in RATIOS.items():
            back = dec("a1x", read(os.path.join(folder, name)))
            ctx.check(len(back) == len(eights), "count", lambda: "%s: %d events instead of %d" % (name, len(back), len(eights)))
            for (t, p, _), s in zip(back, eights):
                want = start + (s - start) * (1 + ratio)
                # one unit of storage, and the rounding of the skew to double precision
                tol = 1 + (s - start) * Fraction(3, 10**16)
                ctx.check(p == 8 and abs(t - want) <= tol, "detuned", lambda: "%s: event at %d: %d (pattern %d) instead of %.3f" % (name, s, t, p, float(want)))
        ctx.count("events", len(ev))
        ctx.count("detuned_events", 8 * len(eights))
        ctx.distinct(tuple(ev[:200]))
        ctx.sample({"events": len(ev), "start": str(start), "span": str(ev[-1][0] - start)})


class C51(Check):
    interp = core.PYPY
    quick, thorough = 400, 6000
    workers = 8
    rule = ("a case correlates two streams of 0-150 events (integers, doubles or extended precision; uniform, bursts, or copies with a delay; events exactly on the limits of the window, delays on multiples of the width, at and beside 10 ms and beyond the histogram's range) and compares every bin with the pairs counted in exact integer arithmetic; distinct by streams")
    WINDOW, BINS, LIMIT = 1 << 27, 1 << 18, 10000000

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40)}

    def stream(self, r, start, width):
        n = r.choice([0, 1, 2, 5, 30, 60, 150])
        k = r.choice(["uniform", "burst", "edges"])
        W = self.WINDOW
        if k == "uniform":
            s = [start + r.randrange(-W // 8, W + W // 8) for _ in range(n)]
        elif k == "burst":
            c = start + r.randrange(W)
            s = [c + int(r.gauss(0, 1) * 10 ** r.uniform(1, 7)) for _ in range(n)]
        else:
            s = [start + r.choice([0, 1, W, W + 1, -1, W - 1, r.randrange(W)]) for _ in range(n)]
        return [max(x, 0) for x in s]

    def run(self, case, ctx):
        import numpy as np
        from fpfind.lib.g2_two_timestamps import g2
        r = random.Random(case["s"])
        width = r.choice([1, 1, 2, 16, 32, 100, 1000, 12345])
        start = r.choice([0, 1, 12345678, r.randrange(1 << 45)])
        a = self.stream(r, start, width)
        b = self.stream(r, start, width)
        if r.random() < 0.5:     # correlated, with delays of a whole number of widths and others
            dl = r.choice([0, width * r.randrange(1, 300), r.randrange(1 << 22), self.LIMIT, self.LIMIT - 1, self.LIMIT + 1, -width * r.randrange(1, 300)])
            b += [max(x + dl, 0) for x in a if r.random() < 0.7]
        a.sort()
        b.sort()
        kind = r.choice([np.int64, np.float64, np.longdouble])
        A, B = np.array(a, dtype=kind), np.array(b, dtype=kind)
        A0, B0 = A.copy(), B.copy()
        got = g2(A, B, start, width)
        ctx.check(len(got) == self.BINS and (A == A0).all() and (B == B0).all(), "shape-or-inputs", "")
        ain = [x for x in a if start < x <= start + self.WINDOW]
        bin_ = [x for x in b if start < x <= start + self.WINDOW]
        want, free = {}, {}
        for y in bin_:
            for x in ain:
                k = ((y - x) // width) % self.BINS
                if y - x < self.LIMIT:
                    want[k] = want.get(k, 0) + 1
                else:
                    # the last event may be kept although it is too early
                    if x == ain[-1]:
                        free[k] = free.get(k, 0) + 1
        have = {int(k): int(got[k]) for k in np.nonzero(got)[0]}
        for k in set(want) | set(have):
            lo = want.get(k, 0)
            ctx.check(lo <= have.get(k, 0) <= lo + free.get(k, 0), "bin", lambda: "bin %d: %d pairs instead of %d (width %d)" % (k, have.get(k, 0), lo, width))
        ctx.count("pairs", sum(want.values()))
        ctx.count("bins_filled", len(want))
        ctx.count("negative_delays", sum(1 for k in want if k >= self.BINS // 2))
        if want:
            ctx.distinct(tuple(a), tuple(b), width)
        ctx.sample({"width": width, "pairs": sum(want.values()), "type": kind.__name__})
