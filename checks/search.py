"""C25-C29, C31-C33, C35, C38: the offset search (fpfind), its inputs, outputs and users."""
import math
import os
import random
import re
import struct
import subprocess
import sys
import types
from fractions import Fraction

from vlib import core
from vlib.core import Check
from vlib.pylib import read, run_main, run_sub, snap, write

MOD = "fpfind.fpfind"
MAXF = 2.0 ** -13


def S():
    from vlib import synth
    return synth


def NP():
    import numpy
    return numpy


def opt(name, value):
    """Option and value; long options joined so that negative numbers stay values."""
    return ["%s=%s" % (name, value)] if name.startswith("--") else [name, str(value)]


def parse(out, fields=2):
    line = out.rstrip("\n")
    assert out.endswith("\n") and "\n" not in line, "not one line: %r" % out
    f = line.split("\t")
    assert len(f) == fields, "not %d tab-separated fields: %r" % (fields, out)
    return f


class Setting:
    """Search parameters and the accuracy they allow."""
    def __init__(self, r, kind="normal"):
        if kind == "wide":            # windows beyond the 100 ms limit
            self.q, self.R, self.k, self.s = r.choice([(17, 1600, 1, 4), (18, 1000, 1, 4), (18, 800, 1, 3)])
            self.r = r.choice([8, 50, 100])
            self.n = 4000
        else:
            self.q = r.choice([14, 15, 16, 17])
            self.R = r.choice([8, 16, 32])
            self.r = r.choice([1, 1, 2, 4])
            self.k = r.choice([1, 1, 1, 2, 3])
            self.s = r.choice([4, 6, 6, 8, 5.5])
            self.n = 3000
        self.finish()

    def finish(self):
        self.W = self.R * 2 ** self.q               # ns, one wrap
        self.Ta = self.W * self.k
        self.Ts = self.s * self.Ta
        self.dur = (self.s + 1) * self.Ta

    def args(self):
        return ["-q", self.q, "-R", self.R, "-r", self.r, "-k", self.k, "-s", self.s]

    def draw(self, r, lo=-7, hi=-4.1, wide=False):
        """(df, dt) within the tracking range and the search window."""
        hi = min(hi, math.log10(4.0 / 2 ** self.q / self.k), math.log10(0.1 / self.s / self.k))
        df = r.choice([-1, 1]) * 10 ** r.uniform(min(lo, hi - 1), hi)
        top = min(0.38 * self.W, 9.7e7)
        dt = r.choice([-1, 1]) * (r.uniform(0.6, 0.97) * min(1e8, 0.44 * self.W) if wide else r.uniform(0, top))
        return df, dt

    def fine(self, df, dt):
        """Whether the refinement is not stopped early by the documented guard against spurious peaks."""
        return abs(df) * self.Ts >= 2.2 * self.R and abs(dt) > 1.3 * self.R + abs(df) * self.Ta

    def tol(self, df, dt):
        """(ns, relative) accuracy."""
        if self.fine(df, dt):
            return 1.6 * self.r + 0.6, 1.6 * self.r / self.Ts
        return 1.1 * self.R + 0.8 * abs(df) * self.Ta + 0.6, (1.6 * self.R + abs(df) * self.Ta) / self.Ts

    def __repr__(self):
        return "q=%d R=%d r=%d k=%d s=%s" % (self.q, self.R, self.r, self.k, self.s)


class Search(Check):
    interp = core.PYPY
    workers = 8

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def data(self, r, st, df, dt, pairs=0.3, na=0.7, nb=1.3, **kw):
        np = NP()
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        extra = kw.pop("extra", 0)
        return S().make(rng, st.dur * 1.06 + abs(dt) + extra, dt, df, p * pairs, p * na, p * nb, **kw)

    def files(self, ctx, D, legacy=False):
        d = ctx.fresh()
        return d, S().write_a1(os.path.join(d, "ref.dat"), D.a, legacy), S().write_a1(os.path.join(d, "tgt.dat"), D.b, legacy)

    def run_fp(self, ctx, args, sub=False):
        res = run_sub(MOD, args) if sub else run_main(MOD, args)
        ctx.count("searches")
        return res

    def truth(self, ctx, st, res, df, dt, where, frac=1):
        """Checks printed (df, dt) against the truth."""
        ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
        f, t = parse(res.out)
        f, t = float(f), int(t) * frac
        td, tf = st.tol(df, dt)
        ctx.check(abs(t - dt) <= td, "time", lambda: "%s: printed %s, true dt %.3f ns, tolerance %.2f ns" % (where, res.out.strip(), dt, td))
        ctx.check(abs(f - df) <= tf, "frequency", lambda: "%s: printed %s, true df %.6e, tolerance %.2e" % (where, res.out.strip(), df, tf))
        ctx.count("fine_results", st.fine(df, dt))
        return f, t


class C25(Search):
    quick, thorough = 800, 8000
    rule = ("a case is one search on synthetic streams with exactly known offsets: both signs, wraps, buffer orders, resolutions, separations, skips, leads of either side, jitter; every fifth with offsets up to 97 ms (windows of 200-260 ms), every tenth with an (unneeded) precompensation scan; distinct by (settings, offsets)")
    assumptions = ("accuracy beyond the initial resolution is claimed only where the drift over the separation exceeds about two initial bins and the offset four (otherwise the guard against spurious peaks ends the refinement early)",
                   "visible peak: true pairs are 30 % of the reference rate, 3000-4000 events per correlation window")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        i = case["i"]
        if i % 8 == 6:
            return self.smeared(case, ctx, r)
        wide = i % 5 == 4
        st = Setting(r, "wide" if wide else "normal")
        df, dt = st.draw(r, wide=wide)
        if not wide and r.random() < 0.3:
            dt = r.uniform(-6, 6) * st.R
        skip = 0.0 if r.random() < 0.6 else round(r.uniform(0.1, 1.5) * st.Ta * 1e-9, 6)
        D = self.data(r, st, df, dt, skip=skip, jitter=r.choice([0, 0.1, 0.3]))
        legacy = r.random() < 0.2
        d, a, b = self.files(ctx, D, legacy)
        args = ["-t", a, "-T", b] + st.args() + (["-X"] if legacy else []) + (opt("-Z", repr(skip)) if skip else [])
        if i % 10 == 7:
            args += ["-P"] + opt("--precomp-step", 1e-7)
        if r.random() < 0.2:
            args += opt("-S", r.choice([5, 7, 8]))
        where = "%r df=%.4e dt=%.1f skip=%s legacy=%s" % (st, df, dt, skip, legacy)
        res = self.run_fp(ctx, args, sub=i % 60 == 3)
        self.truth(ctx, st, res, df, dt, where)
        ctx.distinct(repr(st), df, dt)
        ctx.sample({"settings": repr(st), "true": [df, dt], "printed": res.out.strip(), "events": [len(D.a), len(D.b)]})

    def smeared(self, case, ctx, r):
        """A frequency offset that spreads the peak over many bins, so that it only
        reaches the threshold after the bin width has been doubled once or more."""
        while True:
            st = Setting(r)
            st.q, st.k, st.R, st.s = r.choice([16, 17, 18]), 1, r.choice([8, 16]), r.choice([4, 6, 8])
            st.n = {16: 15000, 17: 20000, 18: 28000}[st.q]
            st.finish()
            m = r.choice([8, 12, 16, 24])
            df = r.choice([-1, 1]) * m * st.R / st.Ta
            sig0 = r.uniform(5, 9)                       # at the initial bin width; grows by the square root of 2
            pairs = sig0 * m * math.sqrt(1.6) / 2 ** (st.q / 2)
            thr = sig0 + 3.5
            if abs(df) <= 0.9 * MAXF and abs(df) * st.Ta * st.s < 0.4 * st.W and pairs < 0.5 and sig0 * math.sqrt(m / 2) >= thr + 6:
                break
        dt = r.uniform(-0.3, 0.3) * st.W
        D = self.data(r, st, df, dt, pairs, 1 - pairs, 1.6 - pairs, jitter=r.choice([0, 0.1]))
        d, a, b = self.files(ctx, D)
        where = "%r df=%.4e (spread %d bins) dt=%.1f threshold %.1f" % (st, df, m, dt, thr)
        res = self.run_fp(ctx, ["-t", a, "-T", b] + st.args() + opt("-S", "%.1f" % thr))
        ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
        f, t = parse(res.out)
        f, t = float(f), int(t)
        td, tf = 2 * m * st.R, 4 * m * st.R / st.Ts
        ctx.check(abs(t - dt) <= td, "time", lambda: "%s: printed %s, tolerance %.1f ns" % (where, res.out.strip(), td))
        ctx.check(abs(f - df) <= tf, "frequency", lambda: "%s: printed %s, tolerance %.2e" % (where, res.out.strip(), tf))
        ctx.count("peaks_found_after_doubling")
        ctx.distinct(repr(st), df, dt)


class C26(Search):
    quick, thorough = 320, 4000
    rule = ("a case searches streams without correlated pairs (independent Poisson streams, bursts, one stream periodic, few correlated pairs far below the threshold; one in four a clear peak with a threshold it cannot reach at any bin width; one in four a threshold 3-12 % above or below the highest peak of all allowed bin widths, computed exactly, or a blurred peak that would reach it beyond 10 us only), with and without precompensation scan, as files or epoch directories; must fail with nothing on stdout; distinct by (settings, kind)")

    def run(self, case, ctx):
        np = NP()
        r = random.Random(case["s"])
        rng = np.random.default_rng(r.randrange(1 << 40))
        st = Setting(r)
        st.q = min(st.q, 16)
        if case["i"] % 4 == 1:
            return self.below(case, ctx, r, st)
        if case["i"] % 4 == 3:
            return self.edge(case, ctx, r, rng, st)
        st.n = int(6 * 2 ** (st.q / 2 + 1))        # mean of 144 per bin: nearly Gaussian
        st.finish()
        kind = r.choice(["poisson", "poisson", "bursts", "weak", "shifted"])
        n = int(st.n * (st.s + 1) * 1.1)
        T = st.dur * 1.1
        U = 256
        if kind == "poisson" or kind == "weak":
            a, b = rng.uniform(0, T, n), rng.uniform(0, T, n)
        elif kind == "bursts":
            # more events in some stretches of one stream, nothing in common
            w = rng.uniform(0, T, 8)
            a = np.concatenate([rng.uniform(0, T, n // 2), rng.choice(w, n // 2) + rng.uniform(0, T / 20, n // 2)])
            b = rng.uniform(0, T, n)
            a = a[a < T]
        else:
            # true pairs, but far outside the part of the streams that is compared
            a = rng.uniform(0, T, n)
            b = np.concatenate([rng.uniform(0, T, n - n // 3), a[: n // 3] + 40 * T])
        if kind == "weak":
            m = max(1, int(0.02 * math.sqrt(st.n * st.n / 2 ** st.q) * (st.s + 1)))
            b[:m] = a[:m] + 1000
        base = int(rng.integers(1 << 40, 1 << 50))
        A = (np.sort(a) * U).astype(np.int64).astype(np.uint64) + np.uint64(base)
        B = (np.sort(b) * U).astype(np.int64).astype(np.uint64) + np.uint64(base)
        d = ctx.fresh()
        fa, fb = S().write_a1(os.path.join(d, "ref.dat"), A), S().write_a1(os.path.join(d, "tgt.dat"), B)
        flag = r.choice([0, 0, 1, 2, 7, 8])
        args = ["-t", fa, "-T", fb] + st.args() + opt("-S", 12) + opt("-V", flag)
        scan = r.random() < 0.4
        if scan:
            args += ["-P"] + opt("--precomp-step", 2e-6) + opt("--precomp-stop", r.choice([4e-6, 1e-5])) + r.choice([[], ["--precomp-fullscan"], ["--precomp-ordered"]])
        if r.random() < 0.3:
            args += [r.choice(["-v", "-vv", "--quiet"])]
        res = self.run_fp(ctx, args, sub=case["i"] % 40 == 7)
        where = "%r %s scan=%s" % (st, kind, scan)
        ctx.check(res.status != 0, "offset-reported", lambda: "%s: %r" % (where, res))
        ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res))
        ctx.distinct(repr(st), kind, scan, case["s"])
        ctx.count("with_scan", scan)
        ctx.sample({"settings": repr(st), "kind": kind, "scan": scan, "status": res.status})

    @staticmethod
    def heights(D, st, top):
        """[(bin width, lowest, highest reading of the height of the peak)]: height of the
        highest bin of the exact cyclic correlation above the mean, in standard deviations
        of other bins: readings with all of them, all but those next to the peak, and the
        half of the spectrum around the peak (not ending at zero delay or half the range)."""
        np = NP()
        N = 1 << st.q
        f = []
        for t in (D.a, D.b):
            u = t.astype(np.int64) - max(int(D.a[0]), int(D.b[0]))
            u = u[(u >= 0) & (u < int(st.Ta * 256))]
            f.append(np.fft.rfft(np.bincount((u // (st.R * 256)) % N, minlength=N)))
        c = np.rint(np.fft.irfft(np.conj(f[0]) * f[1], N))
        out, R = [], st.R
        while True:
            k = int(np.argmax(c))
            v = []
            for w in (0, 2):
                rest = np.delete(c, [x % len(c) for x in range(k - w, k + w + 1)])
                v.append(float((c[k] - rest.mean()) / rest.std()))
            rest = np.concatenate([c[k // 2:k], c[k + 1:(k + len(c)) // 2 + 1]])
            v.append(float((c[k] - rest.mean()) / rest.std()))
            out.append((R, min(v), max(v)))
            R *= 2
            if R > top or len(c) < 64:
                return out
            c = c.reshape(-1, 2).sum(axis=1)

    def edge(self, case, ctx, r, rng, st):
        """Thresholds just above (or below) the height of the peak at every allowed bin width."""
        blur = case["i"] % 8 == 3            # the peak only stands out in bins wider than 10 us
        for _ in range(200):
            if blur:
                st.q, st.R, st.k, st.s = r.choice([(17, 64, 1, 4), (16, 100, 1, 4), (16, 200, 1, 4), (17, 128, 1, 4)])
            st.n = r.choice([2000, 4000, 8000])
            st.finish()
            df, dt = 0.0, r.uniform(-0.3, 0.3) * st.W
            D = self.data(r, st, df, dt, r.uniform(0.05, 0.3) if not blur else 0.6, 0.7, 1.3, jitter=r.uniform(6e3, 1.2e4) if blur else 0, lead=0)
            h = self.heights(D, st, 5e4)
            lo, hi = max(x for R, x, _ in h if R <= 1e4), max(x for R, _, x in h if R <= 1e4)
            if blur:
                wide = max(x for R, x, _ in h if R > 1e4)
                if wide > 1.25 * hi and hi > 5:
                    thr, fails = hi * r.uniform(1.07, 1.12), True
                    break
            elif 9 < lo and hi < 1.06 * lo:
                fails = r.random() < 0.6
                thr = hi * r.uniform(1.03, 1.12) if fails else lo * r.uniform(0.9, 0.97)
                break
        else:
            ctx.count("no_data_drawn")
            return
        d, a, b = self.files(ctx, D)
        thr = round(thr, 3)
        args = ["-t", a, "-T", b] + st.args() + opt("-S", thr) + opt("-V", 0)
        res = self.run_fp(ctx, args)
        where = "%r dt=%.1f threshold=%s, heights %s" % (st, dt, thr, [(R, round(x, 2), round(y, 2)) for R, x, y in h])
        if fails:
            ctx.check(res.status != 0, "offset-reported", lambda: "%s: %r" % (where, res))
            ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res))
        else:
            ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
            R = min(R for R, x, _ in h if x >= thr)
            f, t = parse(res.out)
            ctx.check(abs(int(t) - dt) <= 1.1 * R + 1 and abs(float(f)) <= 2.2 * R / st.Ts, "offset", lambda: "%s: %r" % (where, res))
        ctx.count("thresholds_%s_peak_height" % ("beyond_10us" if blur else "just_above" if fails else "just_below"))
        ctx.distinct(repr(st), "edge", thr)

    def below(self, case, ctx, r, st):
        """A clear peak, but a threshold that it cannot reach at any bin width."""
        df, dt = st.draw(r)
        pairs, na, nb = 0.3, 0.7, 1.3
        D = self.data(r, st, df, dt, pairs, na, nb, jitter=0)
        top = st.n * pairs / math.sqrt(st.n * (pairs + na) * st.n * (pairs + nb) / 2 ** st.q)
        thr = round(top * r.choice([1.7, 3, 10]) + 12, 1)
        d, a, b = self.files(ctx, D)
        args = ["-t", a, "-T", b] + st.args() + opt("-S", thr) + opt("-V", r.choice([0, 0, 1, 2, 7, 8]))
        scan = r.random() < 0.3
        if scan:
            args += ["-P"] + opt("--precomp-step", 2e-6) + opt("--precomp-stop", 4e-6) + r.choice([[], ["--precomp-fullscan"], ["--precomp-ordered"]])
        res = self.run_fp(ctx, args)
        where = "%r df=%.3e dt=%.1f threshold=%s, peak at most about %.1f, scan=%s" % (st, df, dt, thr, top, scan)
        ctx.check(res.status != 0, "offset-reported", lambda: "%s: %r" % (where, res))
        ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res))
        ctx.count("peaks_below_threshold")
        ctx.distinct(repr(st), "below", scan, case["s"])


class C27(Search):
    quick, thorough = 240, 3000
    rule = "a case searches one data set in normal and inverted output and with reference and target exchanged (1/8 ns time unit); inverse relations checked exactly up to rounding, exchange up to the accuracy; distinct by (settings, offsets)"

    def run(self, case, ctx):
        r = random.Random(case["s"])
        wide = case["i"] % 3 == 2
        st = Setting(r, "wide" if wide else "normal")
        df, dt = st.draw(r, lo=-6, wide=wide)
        D = self.data(r, st, df, dt, lead=r.choice([0, 100, None]))
        d, a, b = self.files(ctx, D)
        base = ["-t", a, "-T", b] + st.args()
        out = []
        for flag in (8, 9, 0, 1):
            res = self.run_fp(ctx, base + opt("-V", flag))
            ctx.check(res.status == 0, "search-failed", lambda: "%r df=%.4e dt=%.1f: %r" % (st, df, dt, res))
            f, t = parse(res.out)
            out.append((float(f), int(t)))
        (f, t8), (fi, ti8), (f0, t0), (f1, t1) = out
        where = "%r df=%.4e dt=%.1f printed %s" % (st, df, dt, out)
        ctx.check(f == f0 and fi == f1, "frequency-differs", where)
        ctx.check(abs((1 + f) * (1 + fi) - 1) < 1e-14, "frequency-inverse", where)
        # the printed times are roundings of one value
        want8 = -t8 / (1 + f)
        ctx.check(abs(ti8 - want8) <= 1.01, "time-inverse", lambda: "expected %.2f eighths; %s" % (want8, where))
        ctx.check(abs(t1 - want8 / 8) <= 0.57 + 0.01, "time-inverse", lambda: "expected %.2f; %s" % (want8 / 8, where))
        # exchanged inputs
        res = self.run_fp(ctx, ["-t", b, "-T", a] + st.args())
        ctx.check(res.status == 0, "exchange-failed", lambda: "%s: %r" % (where, res))
        fs, ts = parse(res.out)
        td, tf = st.tol(df, dt)
        ctx.check(abs(int(ts) - t1) <= 2 * td and abs(float(fs) - fi) <= 2 * tf, "exchange", lambda: "exchanged: %s %s, tolerance %.1f ns %.1e; %s" % (fs, ts, 2 * td, 2 * tf, where))
        ctx.distinct(repr(st), df, dt)
        ctx.sample({"true": [df, dt], "printed": out[2], "inverted": out[3], "exchanged": [fs, ts]})


class C28(Search):
    quick, thorough = 80, 1500
    rule = "a case prints one data set in all 16 output settings and compares the views; distinct by (settings, offsets)"

    def run(self, case, ctx):
        r = random.Random(case["s"])
        wide = case["i"] % 3 == 2
        st = Setting(r, "wide" if wide else "normal")
        df, dt = st.draw(r, wide=wide)
        D = self.data(r, st, df, dt)
        d, a, b = self.files(ctx, D)
        got = {}
        for flag in range(16):
            res = self.run_fp(ctx, ["-t", a, "-T", b] + st.args() + opt(r.choice(["-V", "--output"]), flag))
            ctx.check(res.status == 0, "search-failed", lambda: "%r df=%.4e dt=%.1f -V%d: %r" % (st, df, dt, flag, res))
            ctx.check(res.out.count("\n") == 1 and res.out.endswith("\n"), "not-one-line", lambda: "-V%d: %r" % (flag, res.out))
            got[flag] = res.out[:-1].split("\t")
            ctx.check(len(got[flag]) == (1 if flag & 4 else 2), "fields", lambda: "-V%d: %r" % (flag, res.out))
        where = "%r df=%.4e dt=%.1f all: %s" % (st, df, dt, got)
        for inv in (0, 1):
            f = float(got[inv][0])
            for flag in range(inv, 16, 2):
                v = got[flag]
                if flag & 2:
                    ctx.check(re.fullmatch(r"-?\d+", v[0]) and int(v[0]) == round(Fraction(f) * (1 << 34)), "frequency-integer",
                              lambda: "-V%d: %s instead of %s; %s" % (flag, v[0], f * 2 ** 34, where))
                    ctx.check(abs(int(v[0])) <= 1 << 21, "frequency-integer", where)
                else:
                    ctx.check(float(v[0]) == f, "frequency", lambda: "-V%d: %s instead of %r; %s" % (flag, v[0], f, where))
                if not flag & 4:
                    ctx.check(re.fullmatch(r"-?\d+", v[1]), "time-integer", lambda: "-V%d: %r" % (flag, v))
                    same = got[inv | (flag & 8)][1]
                    ctx.check(v[1] == same, "time", lambda: "-V%d: %s instead of %s; %s" % (flag, v[1], same, where))
            t1, t8 = int(got[inv][1]), int(got[inv | 8][1])
            ctx.check(abs(t8 / 8 - t1) <= 0.5 + 1 / 16 + 1e-6, "time-unit", lambda: "%d eighths, %d ns; %s" % (t8, t1, where))
        self_t = int(got[0][1])
        ctx.check(abs((1 + float(got[0][0])) * (1 + float(got[1][0])) - 1) < 1e-14, "inverse", where)
        ctx.check(abs(int(got[9][1]) + int(got[8][1]) / (1 + float(got[0][0]))) <= 1.01, "inverse", where)
        td, tf = st.tol(df, dt)
        ctx.check(abs(self_t - dt) <= td and abs(float(got[0][0]) - df) <= tf, "truth", where)
        ctx.distinct(repr(st), df, dt)
        ctx.sample({"true": [df, dt], "views": got})


class C29(Search):
    quick, thorough = 320, 6000
    soft_limit = 200
    rule = ("three of four cases compare the generated scan values with the documented sequence (start, step and stop of both orders); one of eight a start value that leaves a considerable rest (the total must be as exact as without precompensation), one of eight a data set whose peak is visible only within about one step of the true offset: the scan must find the total offset (any order, start, full scan), plain search and scans "
            "that miss it must fail; distinct by (parameters)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        if case["i"] % 4:
            self.values(case, ctx, r)
        elif case["i"] % 8 == 4:
            self.residual(case, ctx, r)
        else:
            self.search(case, ctx, r)

    def residual(self, case, ctx, r):
        """A start value that leaves a considerable offset to the search itself: the
        reported total is as exact as that of a search without precompensation."""
        st = Setting(r, r.choice(["wide", "normal"]))
        while True:
            df1, dt1 = st.draw(r, lo=-5.2, wide=r.random() < 0.5)      # what remains after the precompensation
            df0 = r.choice([-1, 1]) * r.uniform(1e-5, 1.2e-4)
            if st.fine(df1, dt1):
                break
        df, dt = (1 + df0) * (1 + df1) - 1, dt1 * (1 + df0)
        D = self.data(r, st, df, dt, jitter=r.choice([0, 0.1]))
        d, a, b = self.files(ctx, D)
        step = r.choice([1e-4, 3e-4])
        how = r.choice(["one", "scan", "ordered", "full"])
        extra = {"one": opt("--precomp-stop", 0), "scan": opt("--precomp-stop", repr(2 * step)),
                 "ordered": opt("--precomp-stop", repr(df0 + 1.5 * step)) + ["--precomp-ordered"],
                 "full": opt("--precomp-stop", repr(step)) + ["--precomp-fullscan"]}[how]
        args = ["-t", a, "-T", b] + st.args() + ["-P"] + opt("--precomp-start", repr(df0)) + opt("--precomp-step", repr(step)) + extra
        res = self.run_fp(ctx, args)
        self.truth2(ctx, st, res, df, dt, df1, dt1, "%r df=%.5e dt=%.1f precompensated %.3e (%s)" % (st, df, dt, df0, how))
        ctx.count("totals_with_a_considerable_rest")
        ctx.distinct(repr(st), df, dt, how)

    def truth2(self, ctx, st, res, df, dt, df1, dt1, where):
        ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
        f, t = parse(res.out)
        td, tf = st.tol(df1, dt1)
        ctx.check(abs(int(t) - dt) <= td, "total-time", lambda: "%s: printed %s, tolerance %.2f ns" % (where, res.out.strip(), td))
        ctx.check(abs(float(f) - df) <= tf, "total-frequency", lambda: "%s: printed %s, tolerance %.2e" % (where, res.out.strip(), tf))

    def values(self, case, ctx, r):
        from fpfind.fpfind import generate_precompensations as gen
        for _ in range(8):
            scale = r.choice([1e-7, 1e-6, 1.0, 3e-6])
            step = scale * r.choice([1, 0.5, 2, r.uniform(0.1, 3)])
            start = r.choice([0, 0, scale, -2.25 * scale, 7.5 * step, r.uniform(-5, 5) * scale])
            m = r.choice([0, 1, 2, 3, 10, 99, r.randrange(200)])
            ordered = r.random() < 0.5
            exact = r.random() < 0.4
            if exact:                   # stop is a multiple of the step, as one would type it
                scale = 10.0 ** r.randrange(-8, 1)
                step, start = float("%.6g" % (scale * r.choice([1, 2, 5, 2.5, 3, 7]))), 0
                if r.random() < 0.5:
                    start = float("%.6g" % (step * r.choice([-3, 1, 4, -10, 0.5])))
                stop = float("%.9g" % (step * m + (start if ordered else 0)))
            else:
                stop = step * (m + r.choice([0.5, 0.25, 0.75])) + (start if ordered else 0)
            if case["i"] % 16 == 1 and _ == 0:
                got = list(gen(start, stop, 0, ordered=ordered))
                ctx.check(len(got) == 1, "zero-step", lambda: "%r" % got)
                continue
            got = [float(x) for x in (gen(start, stop, step, ordered=ordered) if r.random() < 0.5 or ordered else gen(start, stop, step))]
            where = "start=%r stop=%r step=%r ordered=%s: %s" % (start, stop, step, ordered, got[:12])
            if ordered:
                want = [start + k * step for k in range(m + 2)]
                lens = (m + 1,) if exact else (m + 1, m + 2)
            else:
                want = [start]
                for k in range(1, m + 2):
                    want += [start + k * step, start - k * step]
                lens = (2 * m + 1,) if exact else (2 * m + 1, 2 * m + 3)
            ctx.check(len(got) in lens, "range", lambda: "%d values, expected %s; %s" % (len(got), lens, where))
            eps = 1e-12 * (abs(start) + step * (m + 1))
            bad = [k for k, (x, y) in enumerate(zip(got, want)) if abs(x - y) > eps]
            ctx.check(not bad, "sequence", lambda: "value %d: %r instead of %r; %s" % (bad[0], got[bad[0]], want[bad[0]], where))
            ctx.count("values_compared", len(got))
            ctx.count("scans_ending_on_the_stop_value", exact)
            ctx.distinct(start, stop, step, ordered)

    def search(self, case, ctx, r):
        st = Setting(r)
        # the drift within a window spreads the peak over 2^q*df bins
        st.q, st.R, st.r, st.k, st.s = r.choice([(18, 16, 1, 1, 4), (17, 16, 2, 1, 5), (18, 200, 20, 1, 3)])
        st.n = 14000 if st.q == 18 else 9000
        st.finish()
        step = 0.9 / 2 ** st.q
        j = r.choice([-1, 1]) * r.randrange(6, 11)
        df = (j + r.uniform(-0.35, 0.35)) * step * 2
        step *= 2
        if abs(df) > 1.1e-4:
            df *= 1.1e-4 / abs(df)
        dt = r.uniform(-0.35, 0.35) * st.W
        pairs = 0.09 if st.q == 18 else 0.127
        D = self.data(r, st, df, dt, pairs, 1 - pairs, 1 - pairs)
        d, a, b = self.files(ctx, D)
        base = ["-t", a, "-T", b] + st.args() + opt("-S", 18.5)
        where = "%r df=%.4e (%.2f steps of %.3e) dt=%.1f" % (st, df, df / step, step, dt)
        P = ["-P"] + opt("--precomp-step", repr(step))
        stop = (abs(df) / step // 1 + 2.5) * step
        res = self.run_fp(ctx, base)
        ctx.count("failed_without_scan", res.status != 0)
        # (the spread peak cannot reach the threshold at any bin width)
        ctx.check(res.status != 0 and res.out == "", "found-without-scan", lambda: "%s: %r" % (where, res))
        what = r.choice(["default", "start", "ordered", "fullscan", "orderedfull"])
        extra = {"default": opt("--precomp-stop", repr(stop)),
                 "start": opt("--precomp-start", repr(df + r.choice([-1, 1]) * 2.3 * step)) + opt("--precomp-stop", repr(3.5 * step)),
                 "ordered": opt("--precomp-start", repr(df - 2.2 * step)) + opt("--precomp-stop", repr(df + 3.3 * step)) + ["--precomp-ordered"],
                 "fullscan": opt("--precomp-start", repr(df + 1.8 * step)) + opt("--precomp-stop", repr(3.5 * step)) + ["--precomp-fullscan"],
                 "orderedfull": opt("--precomp-start", repr(df - 2.2 * step)) + opt("--precomp-stop", repr(df + 3.3 * step)) + ["--precomp-ordered", "--precomp-fullscan"]}[what]
        res = self.run_fp(ctx, base + P + extra)
        ctx.check(res.status == 0, "not-found", lambda: "%s %s: %r" % (where, extra, res))
        f, t = parse(res.out)
        # after precompensation the rest may be below the guard's limit: initial resolution
        td, tf = 2.5 * st.R + 2, 2.5 * st.R / st.Ts
        ctx.check(abs(int(t) - dt) <= td and abs(float(f) - df) <= tf, "offset", lambda: "%s %s: printed %s; tolerance %.1f ns %.2e" % (where, extra, res.out.strip(), td, tf))
        ctx.count("scans_" + what)
        # a scan that misses the offset fails
        miss = opt("--precomp-start", repr(-df)) + opt("--precomp-stop", repr(3.5 * step)) + r.choice([[], ["--precomp-fullscan"]])
        res = self.run_fp(ctx, base + P + miss)
        ctx.check(res.status != 0 and res.out == "", "found-outside-scan", lambda: "%s %s: %r" % (where, miss, res))
        ctx.count("failed_outside_scan", res.status != 0)
        ctx.distinct(repr(st), df, dt, what)
        ctx.sample({"settings": repr(st), "true": [df, dt], "scan": what, "printed": [f, t]})


class C31(Search):
    quick, thorough = 72, 1200
    soft_limit = 200
    rule = ("a case writes one data set as a1, legacy a1 and T2/T1 epoch directories (epoch numbers crossing a multiple of 2^17 in a third of the cases; extra leading epochs on one or both sides; first epoch and skipped epochs given or not) and compares all answers with the truth at the respective time reference; distinct by (settings, epochs)")

    def run(self, case, ctx):
        np = NP()
        r = random.Random(case["s"])
        sy = S()
        st = Setting(r)
        st.q, st.R, st.r, st.k, st.s = r.choice([(14, 4000, 50, 1, 4), (13, 5000, 50, 1, 5), (14, 2000, 20, 2, 3), (14, 1000, 10, 1, 6)])
        st.n = 700
        st.finish()
        EP = 1 << 37                                   # epoch length in 4 ps
        skip = r.choice([0, 0, 1, 2])
        lead_ep = r.choice([0, 0, 1])                  # epochs before the requested first one
        need = math.ceil(st.dur / (EP / 256)) + 1
        total = lead_ep + skip + need + 1
        df, dt = st.draw(r, lo=-5.5)
        cross = case["i"] % 3 == 2
        if cross:
            e0 = (r.randrange(1, 1 << 14) << 17) - r.randrange(1, total)
        else:
            e0 = (r.randrange(0, 1 << 14) << 17) + r.randrange(0, (1 << 17) - total - 2)
        # time origin: start of epoch e0; streams begin inside it
        ref = int(r.uniform(0.02, 0.5) * EP)
        dur_ns = (total * EP - ref) / 256 - 1000 - abs(dt) * 1.01
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        D = sy.make(rng, dur_ns, dt, df, p * 0.3, p * 0.7, p * 1.0, ref=ref, lead=float(r.uniform(0, 4e6)))
        a, b = D.a.astype(np.int64), D.b.astype(np.int64)
        ok = a < total * EP
        a, b = a[ok], b[b < total * EP]
        d = ctx.fresh()
        sy.write_epochs(os.path.join(d, "T2"), a, e0, "T2")
        sy.write_epochs(os.path.join(d, "T1"), b, e0, "T1")
        # epochs present on one side only, before the common ones
        if r.random() < 0.5:
            side, kind = r.choice([("T2", "T2"), ("T1", "T1")])
            sy.write_epochs(os.path.join(d, side), np.array([5, 600000, 7000000]), e0 - 1, kind)
        before = snap(d)
        args = ["-d", os.path.join(d, "T2"), "-D", os.path.join(d, "T1")] + st.args()
        first = e0
        if lead_ep or r.random() < 0.3:
            first = e0 + lead_ep
            args += ["-e", "%x" % first]
        if skip:
            args += opt("-z", skip)
        if r.random() < 0.3:
            args += opt("-Z", r.choice([0.3, 1.7, 40]))     # an option of timestamp files only
            ctx.count("skip_duration_with_epochs")
        res = self.run_fp(ctx, args)
        # reference: later of the two first events from the first used epoch on
        t0 = (first - e0 + skip) * EP
        ref1 = max(int(a[a >= t0][0]), int(b[b >= t0][0]))
        dt1 = dt + df * (ref1 - ref) / 256
        where = "%r df=%.4e dt=%.1f epoch %x first=%x skip=%d cross=%s" % (st, df, dt1, e0, first, skip, cross)
        f1, t1 = self.truth(ctx, st, res, df, dt1, where)
        ctx.check(snap(d) == before, "files-touched", where)
        # the same events as timestamp files, from the same reference on
        sel_a, sel_b = a[a >= t0], b[b >= t0]
        off = int(rng.integers(1 << 30, 1 << 50))
        outs = []
        for legacy in (False, True):
            fa = sy.write_a1(os.path.join(d, "ref%d" % legacy), sel_a + off, legacy)
            fb = sy.write_a1(os.path.join(d, "tgt%d" % legacy), sel_b + off, legacy)
            res = self.run_fp(ctx, ["-t", fa, "-T", fb] + st.args() + (["-X"] if legacy else []))
            f2, t2 = self.truth(ctx, st, res, df, dt1, where + " a1 legacy=%s" % legacy)
            outs.append(res.out)
        ctx.check(outs[0] == outs[1], "legacy-differs", lambda: "%r; %s" % (outs, where))
        td, tf = st.tol(df, dt1)
        ctx.check(abs(t1 - t2) <= 1.5 * td and abs(f1 - f2) <= 1.5 * tf, "epochs-differ", lambda: "%s %s vs %s %s; %s" % (f1, t1, f2, t2, where))
        ctx.count("crossing_2^17", cross)
        ctx.count("skipped_epochs", skip)
        ctx.distinct(repr(st), e0, first, skip, df)
        ctx.sample({"settings": repr(st), "true": [df, dt1], "epochs": [f1, t1], "a1": outs[0].strip(), "first_epoch": "%x" % first, "skip": skip})


class C32(Search):
    quick, thorough = 16, 200
    soft_limit = 200
    workers = 6
    rule = ("a case runs one search as separate processes: plain, repeated, with each verbosity, --quiet, log file, and through a saved and reloaded configuration; standard output must be byte-identical, the directory unchanged but for the requested files; a quarter of the cases is a failing search; distinct by (settings)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        st = Setting(r)
        fail = case["i"] % 4 == 3
        df, dt = st.draw(r)
        D = self.data(r, st, df, dt, pairs=0.0 if fail else 0.3)
        d, a, b = self.files(ctx, D)
        cwd = os.path.join(d, "cwd")
        os.mkdir(cwd)
        base = ["-t", a, "-T", b] + st.args() + opt("-V", r.choice([0, 0, 1, 2, 8, 11]))
        if fail:
            base += opt("-S", 12)
        elif r.random() < 0.5:
            base += ["-P"] + opt("--precomp-step", 1e-7)
        before = snap(d)
        where = "%r" % st

        def go(extra, files=(), args=None, check_out=True):
            res = run_sub(MOD, (base if args is None else args) + extra, cwd=cwd)
            ctx.count("processes")
            after = snap(d)
            new = {k: v for k, v in after.items() if k not in before}
            ctx.check(all(after.get(k) == v for k, v in before.items()), "file-changed", lambda: "%s %s" % (extra, where))
            ctx.check(set(new) == set(files), "stray-files", lambda: "%s: %s instead of %s; %s" % (extra, sorted(new), sorted(files), where))
            if check_out:
                ctx.check((res.status, res.out) == (plain.status, plain.out), "output-differs",
                          lambda: "%s: status %s %r instead of %s %r; %s\n%s" % (extra, res.status, res.out, plain.status, plain.out, where, res.err[-500:]))
            return res
        plain = go([], check_out=False)
        if fail:
            ctx.check(plain.status != 0 and plain.out == "", "failing-search", repr(plain))
        else:
            ctx.check(plain.status == 0 and plain.out.count("\n") == 1, "search-failed", repr(plain))
        go([])
        noisy = go(["-vv"])
        ctx.check(len(noisy.err) > 50, "silent", "no diagnostics with -vv; %s" % where)
        go([r.choice(["-v", "-vvv", "--quiet", "--verbosity"])])
        log = os.path.join(cwd, "run.log")
        write(log, b"")
        before["cwd/run.log"] = None
        os.unlink(log)
        del before["cwd/run.log"]
        res = go(["-L", log, r.choice(["-v", "-vv"])], files=["cwd/run.log"])
        ctx.check(os.path.getsize(log) > 0, "empty-log", where)
        os.unlink(log)
        conf = os.path.join(cwd, "saved.conf")
        res = go(["--save", conf], files=["cwd/saved.conf"], check_out=False)
        ctx.check(res.status == 0, "save-failed", lambda: "%r" % res)
        before.update(snap(d))
        go([], args=["--config", conf])
        ctx.distinct(repr(st), case["s"])
        ctx.sample({"settings": repr(st), "stdout": plain.out, "status": plain.status})


class C33(Search):
    quick, thorough = 180, 1800
    rule = ("a case searches a data set (V3 or V2 output), passes the printed integer to the freqcd binary on the target or reference stream (normal or legacy files) and searches again: the remaining offset must be near zero and the start offset as before; distinct by (settings, offsets, side)")

    def prepare(self, shared):
        from vlib import fq
        shared["exe"] = fq.build(os.path.join(shared["tmp"], "freqcd"))

    def run(self, case, ctx):
        r = random.Random(case["s"])
        st = Setting(r)
        df, dt = st.draw(r, lo=-5.5)
        for _ in range(20):
            if st.fine(df, dt):
                break
            df, dt = st.draw(r, lo=-5)
        D = self.data(r, st, df, dt, lead=float(r.uniform(0, 0.02 * st.Ta)))
        legacy = r.random() < 0.3
        x = ["-X"] if legacy else []
        d, a, b = self.files(ctx, D, legacy)
        side = r.choice(["target", "reference"])
        base = st.args() + x
        res = self.run_fp(ctx, ["-t", a, "-T", b] + base + opt("-V", 3 if side == "target" else 2))
        where = "%r df=%.4e dt=%.1f side=%s" % (st, df, dt, side)
        ctx.check(res.status == 0, "search-failed", lambda: "%s: %r" % (where, res))
        val, t = parse(res.out)
        src, dst = (b, b + ".corr") if side == "target" else (a, a + ".corr")
        q = subprocess.run([ctx.shared["exe"], "-i", src, "-o", dst, "-f", val] + (["-x"] if legacy else []), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        ctx.check(q.returncode == 0, "freqcd-failed", lambda: "%r; %s" % (q, where))
        ctx.check(os.path.getsize(dst) == os.path.getsize(src), "events-lost", where)
        a2, b2 = (a, dst) if side == "target" else (dst, b)
        res2 = self.run_fp(ctx, ["-t", a2, "-T", b2] + base)
        ctx.check(res2.status == 0, "second-search-failed", lambda: "%s after -f %s: %r" % (where, val, res2))
        f2, t2 = parse(res2.out)
        td, tf = st.tol(df, dt)
        # the second search sees almost no drift: accuracy of the initial resolution
        tol_f = tf + 2.2 * st.R / st.Ts
        # freqcd pivots at the first event of its own stream
        f = int(val) / 2.0 ** 34
        sy = S()
        ref2 = max(int(sy.read_a1(a2, legacy)[0]), int(sy.read_a1(b2, legacy)[0]))
        if side == "target":
            want = dt + f * ((D.ref - int(D.b[0])) / 256 + dt)
        else:
            want = dt - f * (D.ref - int(D.a[0])) / 256
        ctx.check(abs(float(f2)) <= tol_f, "skew-remains", lambda: "first %s, second %s, tolerance %.2e; %s" % (res.out.strip(), res2.out.strip(), tol_f, where))
        ctx.check(abs(int(t2) - want) <= 1.6 * st.R + 1, "offset-moved", lambda: "first %s, second %s, expected %.1f; %s" % (res.out.strip(), res2.out.strip(), want, where))
        # the corrected streams keep no drift: pairs measured directly by the monitor
        self.drift(ctx, st, sy.read_a1(a2, legacy), sy.read_a1(b2, legacy), D, df, f, side, where)
        ctx.distinct(repr(st), df, dt, side)
        ctx.sample({"true": [df, dt], "printed": res.out.strip(), "second": res2.out.strip(), "side": side})

    def drift(self, ctx, st, a2, b2, D, df, f, side, where):
        """Remaining skew from the exact events: corrected streams against the true relation."""
        rest = (1 + df) * (1 + f) - 1 if side == "target" else (1 + df) / (1 + f) - 1
        ctx.check(abs(rest) <= st.tol(df, D.dt)[1] + 2.0 ** -33, "skew", lambda: "remaining %.3e after -f %r; %s" % (rest, f, where))


def curve(n):
    """Histogram of the stand-in: (counts, delays)."""
    np = NP()
    k = np.arange(11 + n % 7)
    return (k * k + n) % 13, k * 2.0 - n


def stub_modules(record):
    """Stand-ins for packages fpplot needs that are not part of the project."""
    import configargparse
    boiler = types.ModuleType("boiler")
    su = types.ModuleType("boiler.scriptutil")
    lg = types.ModuleType("boiler.logging")
    su.generate_default_parser = lambda *a, **k: configargparse.ArgumentParser(add_help=False)

    def parse_args_or_help(parser, *a, **k):
        args = parser.parse_args()
        if getattr(args, "help", False):
            sys.exit(1)
        return args
    su.parse_args_or_help = parse_args_or_help
    lg.set_default_handlers = lambda *a, **k: None
    lg.set_logging_level = lambda *a, **k: None
    boiler.scriptutil, boiler.logging = su, lg
    s15, g2, g2b = types.ModuleType("S15lib"), types.ModuleType("S15lib.g2lib"), types.ModuleType("S15lib.g2lib.g2lib")

    def histogram(alice, bob, *args, **kw):
        np = NP()
        record.append((np.array(alice, copy=True), np.array(bob, copy=True), args, kw))
        return curve(len(alice))
    g2b.histogram = histogram
    s15.g2lib, g2.g2lib = g2, g2b
    g2.histogram = histogram
    for m in (boiler, su, lg, s15, g2, g2b):
        sys.modules[m.__name__] = m


class C35(Search):
    quick, thorough = 240, 4000
    rule = ("a case runs fpplot on a data set with its true offsets (a1, legacy a1, or epoch directories; skip, first epoch, width, duration, or their defaults) with a recording stand-in for the histogram; the monitor finds the true pairs in the recorded streams: they must lie at zero delay from begin to end, the curve drawn must be the histogram returned, and the plot file named must hold an image; incomplete inputs must fail without a plot; distinct by (settings, kind, offsets)")

    def setup(self, ctx):
        self.record = []
        stub_modules(self.record)

    def run(self, case, ctx):
        np = NP()
        sy = S()
        r = random.Random(case["s"])
        rng = np.random.default_rng(r.randrange(1 << 40))
        kind = r.choice(["a1", "a1", "legacy", "epochs"])
        df = r.choice([-1, 1]) * 10 ** r.uniform(-6.5, -4.1)
        dt = r.uniform(-2e6, 2e6)
        omit = r.choice(["", "", "", "freq", "both"])
        if omit:
            df = 0.0
            dt = dt if omit == "freq" else 0.0
        skip = r.choice([0.0, 0.0, 0.125, 0.25]) if kind != "epochs" else 0.0
        dur = 1.2e9
        EP = 1 << 37
        D = sy.make(rng, dur, dt, df, 3e-6, 3e-6, 6e-6, skip=skip, jitter=0, lead=float(r.uniform(0, 3e7)), ref=int(r.uniform(0.1, 0.5) * EP) + (int(skip * 256e9)))
        a, b = D.a.astype(np.int64), D.b.astype(np.int64)
        d = ctx.fresh()
        width = r.choice([1000, 200, 5000, None])
        duration = r.choice([None, 0.3, 0.5])
        nskip = 0
        if kind == "epochs":
            e0 = r.choice([r.randrange(1, 1 << 14) << 17, r.randrange(1 << 31)]) - 1
            sy.write_epochs(os.path.join(d, "T2"), a, e0, "T2")
            sy.write_epochs(os.path.join(d, "T1"), b, e0, "T1")
            nskip = r.choice([0, 0, 1])
            n = r.choice([1, 2])
            args = ["-d", os.path.join(d, "T2"), "-D", os.path.join(d, "T1")] + (opt("-z", nskip) if nskip else [])
            args += ["-n", n] if n > 1 or r.random() < 0.5 else []
            first = 0
            if r.random() < 0.5:
                first = r.choice([0, 1]) if n + nskip < 3 else 0
                args += ["-e", "%08x" % (e0 + first)]
            a, b = [x[(x >= (first + nskip) * EP) & (x < (first + nskip + n) * EP)] for x in (a, b)]
            a = a >> 5 << 5                            # 125 ps resolution
        else:
            legacy = kind == "legacy"
            off = int(rng.integers(1 << 30, 1 << 50))
            args = ["-t", sy.write_a1(os.path.join(d, "r"), a + off, legacy), "-T", sy.write_a1(os.path.join(d, "t"), b + off, legacy)] + (["-X"] if legacy else [])
            if skip:
                args += opt("-Z", repr(skip))
        ref = max(int(a[0]), int(b[0])) + int(skip * 256e9)
        dt1 = dt + df * (ref - D.ref) / 256
        args += [] if omit else opt("--freq", repr(df * 1e6))
        args += [] if omit == "both" else opt("--time", repr(dt1))
        args += opt("--width", width) if width else []
        if duration:
            args += opt("--duration", duration)
        import matplotlib.pyplot as plt
        plt.close("all")
        if r.random() < 0.15:
            # one input missing: nothing to plot
            k = [j for j, x in enumerate(args) if x in ("-t", "-T", "-d", "-D")][r.randrange(2)]
            del args[k:k + 2]
            del self.record[:]
            res = run_main("fpfind.fpplot", args)
            ctx.check(res.status != 0 and not self.record and not plt.get_fignums(), "incomplete-input", lambda: "%s: %r" % (args, res))
            ctx.count("incomplete_inputs_refused")
            return
        image = os.path.join(d, "plot.png") if r.random() < 0.2 else None
        args += opt("--save-plot", image) if image else []
        before = snap(d)
        del self.record[:]
        res = run_main("fpfind.fpplot", args)
        where = "%s df=%.3e dt=%.1f skip=%s/%d duration=%s: %r" % (kind, df, dt1, skip, nskip, duration, res)
        ctx.check(res.status == 0 and len(self.record) == 1, "failed", lambda: where)
        A, B, pos, kw = self.record[0]
        after = snap(d)
        if image:
            ctx.check(read(image)[:8] == b"\x89PNG\r\n\x1a\n", "saved-plot", lambda: where)
            ctx.count("plots_saved")
            after = {k: v for k, v in after.items() if k != "plot.png"}
        ctx.check(after == before, "files-changed", lambda: "%s" % sorted(set(after) ^ set(before)))
        lines = [l for f in plt.get_fignums() for ax in plt.figure(f).axes for l in ax.lines]
        ctx.check(len(lines) == 1 and [float(x) for x in lines[0].get_xdata()] == [float(x) for x in curve(len(A))[1]]
                  and [float(x) for x in lines[0].get_ydata()] == [float(x) for x in curve(len(A))[0]], "curve", lambda: where)
        plt.close("all")
        width = width or 1000
        ctx.check(width in list(pos) + list(kw.values()), "width", lambda: "%r %r; %s" % (pos, kw, where))
        # expected reference events
        ea = (a[a >= ref] - ref) / 256.0
        eb = (b[b >= ref] - ref) / 256.0
        if duration:
            ea, eb = ea[ea < duration * 1e9], eb[eb < duration * 1e9]
        ctx.check(len(A) == len(ea) and len(B) == len(eb), "events", lambda: "%d, %d instead of %d, %d events; %s" % (len(A), len(B), len(ea), len(eb), where))
        # the pairs found by the monitor (delay within 2 ns), over the whole duration
        A, B = np.sort(np.asarray(A, dtype=np.float64)), np.sort(np.asarray(B, dtype=np.float64))
        truth = np.sort((eb - dt1) / (1 + df))
        off = (B - truth) - (A[0] - ea[0])
        ctx.check(float(np.max(np.abs(off))) < 0.2, "target-times", lambda: "times deviate by up to %.3f ns; %s" % (np.max(np.abs(off)), where))
        want = self.pairs(np, ea, truth)
        got = self.pairs(np, A, B)
        ctx.check(len(want) > 200, "harness", "only %d pairs" % len(want))
        edges = np.linspace(0, float(ea[-1]), 5)
        hw, hg = np.histogram(want, edges)[0], np.histogram(got - (A[0] - ea[0]), edges)[0]
        ctx.count("pairs_at_zero_delay", len(got))
        ctx.check(all(abs(int(x) - int(y)) <= 0.05 * x + 3 for x, y in zip(hw, hg)), "misaligned",
                  lambda: "pairs within 2 ns of zero delay, by quarter: %s instead of %s; %s" % (hg.tolist(), hw.tolist(), where))
        ctx.distinct(kind, df, dt)
        ctx.sample({"kind": kind, "true": [df, dt1], "pairs_by_quarter": hg.tolist(), "expected": hw.tolist()})

    def pairs(self, np, A, B):
        """Times in A that have a partner in B within 2 ns."""
        k = np.searchsorted(B, A)
        lo = np.abs(A - B[np.clip(k - 1, 0, len(B) - 1)])
        hi = np.abs(A - B[np.clip(k, 0, len(B) - 1)])
        return A[np.minimum(lo, hi) <= 2]


class C38(Search):
    quick, thorough = 400, 4000
    rule = ("a case searches data whose true offsets lie beyond a limit (frequency 1.02-4 times 2^-13, or time 105-128 ms in a window that reaches it), just within it, or are wrapped; nothing beyond the limits may be printed, and data clearly beyond must fail; distinct by (settings, offsets)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        what = ["freq", "time", "timein", "freqin", "freqedge"][case["i"] % 5]
        st = Setting(r, "wide" if what.startswith("time") else "normal")
        if what == "freq":
            # short windows keep the peak narrow enough to be seen
            st.q, st.R, st.r, st.k, st.s = r.choice([13, 14]), r.choice([16, 32]), 1, 1, 4
            st.n = 4000
            st.finish()
            df, dt = r.choice([-1, 1]) * MAXF * r.uniform(1.15, 4), r.uniform(-0.3, 0.3) * st.W
        elif what == "freqedge":
            # the first estimate, in steps of about a fifth of the limit, may fall on the other side of it
            st.q, st.R, st.r, st.k, st.s = r.choice([13, 13, 14]), r.choice([16, 32]), 1, 1, r.choice([4, 4.3, 4.5, 4.7, 5.4, 5.5, 6.6, 7.3])
            st.n = 4000
            st.finish()
            df, dt = r.choice([-1, 1]) * MAXF * r.uniform(0.97, 1.09), r.choice([-1, 1]) * r.uniform(0.05, 0.3) * st.W
        elif what == "freqin":
            st.q, st.R, st.r, st.k, st.s = r.choice([13, 14]), r.choice([16, 32]), 1, 1, 4
            st.n = 4000
            st.finish()
            df, dt = r.choice([-1, 1]) * MAXF * r.uniform(0.3, 0.98), r.uniform(-0.3, 0.3) * st.W
        else:
            df = r.choice([-1, 1]) * 10 ** r.uniform(-7, -5.5)
            half = st.W / 2
            if what == "time":
                dt = r.choice([-1, 1]) * r.uniform(1.04e8, min(0.97 * half, 1.3e8))
            else:
                dt = r.choice([-1, 1]) * r.uniform(0.9e8, 0.985e8)
        if r.random() < 0.15 and what == "freq":
            df = r.choice([-1, 1]) * MAXF * r.uniform(1.02, 1.15)
        D = self.data(r, st, df, dt, pairs=0.4, na=0.6, nb=0.6)
        d, a, b = self.files(ctx, D)
        args = ["-t", a, "-T", b] + st.args()
        if r.random() < 0.3:
            args += opt("-S", r.choice([5, 7]))
        res = self.run_fp(ctx, args)
        where = "%s %r df=%.4e dt=%.1f: %r" % (what, st, df, dt, res)
        if res.status == 0:
            f, t = parse(res.out)
            ctx.check(abs(float(f)) < MAXF, "frequency-out-of-range", lambda: where)
            ctx.check(abs(int(t)) <= 1e8 + 2 * st.R, "time-out-of-range", lambda: where)
        else:
            ctx.check(res.out == "", "output", lambda: where)
        beyond = (what == "freq" and abs(df) > 1.02 * MAXF) or what == "time" or (what == "freqedge" and abs(df) > 1.002 * MAXF and st.fine(df, dt))
        if beyond:
            ctx.check(res.status != 0, "beyond-limit-accepted", lambda: where)
            ctx.count("beyond_limit")
        else:
            # the estimate may exceed the limit when the truth is close to it
            ctx.check(res.status == 0 or abs(df) > 0.5 * MAXF, "within-limit-refused", lambda: where)
            ctx.count("within_limit_found", res.status == 0)
        ctx.distinct(what, repr(st), df, dt)
        ctx.sample({"kind": what, "settings": repr(st), "true": [df, dt], "status": res.status, "printed": res.out.strip()})
