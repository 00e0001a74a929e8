"""C30, C34, C39: cross-correlation, normalisation and peak statistics of fpfind.lib.utils,
compared with exact integer arithmetic."""
import math
import random
import warnings
from fractions import Fraction

from vlib import core
from vlib.core import Check


class Numerics(Check):
    interp = core.PYPY
    workers = 6

    def setup(self, ctx):
        warnings.simplefilter("ignore")
        import numpy
        import fpfind.lib.utils as u
        self.np, self.u = numpy, u

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}


class C30(Numerics):
    quick, thorough = 2400, 30000
    rule = ("a case draws two event lists (integer, fractional, extended-precision, clustered, equal, single), an even bin count (powers of two and others) and a bin width, compares the whole correlation with exact pair counting and the delay candidates of every histogram (also with negative resolution order, peak at 0 and at half the range); distinct by (sizes, bins, width)")

    def run(self, case, ctx):
        np, u = self.np, self.u
        r = random.Random(case["s"])
        n = r.choice([2, 4, 8, 16, 64, 256, 1024, 2048, 6, 10, 100])
        w = r.choice([1, 1, 2, 16, 0.5, 0.25, 1000, 4.0, 100])
        style = r.choice(["int", "float", "long", "cluster"])
        # events in units of w/16, exactly representable
        span = n * r.choice([1, 1, 2, 5, 1000, 10 ** 7]) * 16
        hi = r.choice([0, 0, 1 << 40]) if style == "long" else 0

        def draw():
            k = r.choice([1, 2, 5, 30, 200, 200])
            if style == "cluster":
                c = r.randrange(span)
                return sorted(c + r.randrange(33) for _ in range(k))
            return sorted(r.randrange(span) + hi for _ in range(k))
        A, B = draw(), draw()
        if r.random() < 0.3:
            s = r.randrange(span)
            B = [x + s for x in A]
        bins = lambda v: [x // 16 % n for x in v]
        f = Fraction(w) / 16

        def arr(v):
            if style == "int" and (f * 16).denominator == 1 and all((x * f).denominator == 1 for x in v):
                return np.array([int(x * f) for x in v], dtype=np.int64)
            t = np.longdouble if style == "long" else np.float64
            return np.array([t(x) for x in v], dtype=t) * t(float(f))
        if style == "int":
            A, B = [x // 16 * 16 for x in A], [x // 16 * 16 for x in B]
        a, b = arr(A), arr(B)
        a0, b0 = a.copy(), b.copy()
        # exact
        ca, cb = [0] * n, [0] * n
        for x in bins(A):
            ca[x] += 1
        for x in bins(B):
            cb[x] += 1
        want = [0] * n
        ia = [(i, c) for i, c in enumerate(ca) if c]
        ib = [(i, c) for i, c in enumerate(cb) if c]
        for i, c in ia:
            for j, d in ib:
                want[(j - i) % n] += c * d
        where = "%s n=%d w=%s sizes %d %d" % (style, n, w, len(A), len(B))
        fa, fb = u.generate_fft(a, n, w), u.generate_fft(b, n, w)
        fa0, fb0 = fa.copy(), fb.copy()
        got = u.get_xcorr(fa, fb)
        got = [float(x) for x in got]
        ctx.check((fa == fa0).all() and (fb == fb0).all(), "spectrum-modified", where)
        ctx.check(len(got) == n, "length", lambda: "%d; %s" % (len(got), where))
        scale = max(want)
        tol = 1e-9 * (len(A) * len(B) + n) + 1e-9
        bad = [(k, got[k], want[k]) for k in range(n) if abs(got[k] - want[k]) > tol]
        ctx.check(not bad, "pair-count", lambda: "bin, got, exact: %s; %s" % (bad[:5], where))
        ctx.check((a == a0).all() and (b == b0).all(), "input-modified", where)
        # with a filter: low-pass, weights or a delay
        g = np.random.default_rng(r.randrange(1 << 40))
        flt = r.choice([(np.arange(n // 2 + 1) <= n // 8).astype(float), g.uniform(0, 2, n // 2 + 1), np.exp(-2j * np.pi * np.arange(n // 2 + 1) * r.randrange(n) / n)])
        flt0 = flt.copy()
        fg = u.get_xcorr(fa, fb, flt)
        fw = np.abs(np.fft.irfft(np.conjugate(fa0) * fb0 * flt0, n))
        ctx.check(len(fg) == n and float(np.max(np.abs(fg - fw))) <= 2 * tol and (flt == flt0).all() and (fa == fa0).all() and (fb == fb0).all(), "filter", where)
        ctx.count("bins_compared", n)
        ctx.count("pairs", len(A) * len(B))
        # delay candidates of this histogram and of one with a single peak anywhere
        xs = np.arange(n) * w
        self.candidates(ctx, np, u, np.array(want), xs, w, n, where)
        for p in {0, 1, n // 2, n // 2 - 1, n - 1, r.randrange(n)}:
            h = [r.randrange(5) for _ in range(n)]
            h[p] = 9
            if r.random() < 0.3 and p + 1 < n:
                h[r.randrange(p + 1, n)] = 9       # a later equal maximum
            self.candidates(ctx, np, u, np.array(h), xs, w, n, where)
        # candidates of the k highest bins
        h = r.sample(range(10 * n), n)
        k = r.choice([1, 2, 3, n])
        k = min(k, n)
        ha, xs0 = np.array(h), xs.copy()
        got = u.get_top_k_delays_fft(ha, xs, k)
        order = sorted(range(n), key=lambda i: -h[i])[:k]
        ctx.check(len(got) == k, "top-k", lambda: "%d instead of %d" % (len(got), k))
        for p, g in zip(order, got):
            g = [float(x) for x in g]
            if k > 1:
                ctx.check(g[0] == h[p], "top-k", lambda: "height %s instead of %d; k=%d %s" % (g[0], h[p], k, where))
                g = g[1:]
            pair = sorted([p * w, -((n - p) % n) * w], key=abs)
            ctx.check(g == pair or (abs(pair[0]) == abs(pair[1]) and g == pair[::-1]), "top-k-candidates", lambda: "%s instead of %s; %s" % (g, pair, where))
        # the same histogram over signed delays
        hs, ts = u.convert_histogram_fft(ha, xs)
        ctx.check([int(x) for x in ha] == h and (xs == xs0).all(), "histogram-modified", where)
        ctx.check([float(x) for x in ts] == [(k - n // 2) * w for k in range(n)] and [int(x) for x in hs] == [h[(k - n // 2) % n] for k in range(n)], "signed-histogram",
                  lambda: "times %s.. counts %s.. for %s..; %s" % (list(ts[:4]), list(hs[:4]), h[:4], where))
        ctx.distinct(style, n, w, len(A), len(B), case["s"])
        ctx.sample({"where": where, "peak": scale, "sum": sum(want)})

    def candidates(self, ctx, np, u, h, xs, w, n, where):
        hl = [int(x) for x in h]
        peaks = [i for i, x in enumerate(hl) if x == max(hl)]
        got = [float(x) for x in u.get_timing_delay_fft(h, xs)]
        ok = []
        for p in peaks:                       # any of several equal maxima
            pos, neg = p * w, -((n - p) % n) * w
            ok += [[pos, neg]] if abs(pos) < abs(neg) else [[neg, pos]] if abs(pos) > abs(neg) else [[pos, neg], [neg, pos]]
        ctx.check(got in ok, "candidates", lambda: "%s instead of %s; %s" % (got, ok[:3], where))
        ctx.count("candidate_pairs")


class C34(Numerics):
    quick, thorough = 4500, 45000
    rule = ("a case normalises one to four sorted lists (float, extended precision; equal starts, ties, negative and huge offsets; skips within the data; with and without relative preservation) and slices one list at random and at event boundaries; compared with exact arithmetic; distinct by (sizes, skip, window)")
    assumptions = ("every list keeps at least one event",)

    def run(self, case, ctx):
        np, u = self.np, self.u
        r = random.Random(case["s"])
        long_ = r.random() < 0.5
        T = np.longdouble if long_ else np.float64
        unit = Fraction(1, 256) if long_ else r.choice([Fraction(1), Fraction(1, 8)])
        base = r.choice([0, -1000, 10 ** 6, (1 << 54) if long_ else (1 << 40)])
        m = r.choice([1, 2, 2, 2, 3, 4])
        span = r.choice([50, 10 ** 4, 10 ** 9, 10 ** 10])
        lists = []
        for _ in range(m):
            s = base + r.choice([0, 0, r.randrange(span)])
            lists.append(sorted(s + r.randrange(span) for _ in range(r.choice([1, 2, 10, 100, 400]))))
        if r.random() < 0.2:
            lists[-1] = list(lists[0])
        preserve = r.random() < 0.75
        used = lists if preserve else [[x - v[0] for x in v] for v in lists]
        start = max(v[0] for v in used)
        end = min(v[-1] for v in used)
        if end < start:
            for v, o in zip(used, lists):       # make every list reach the common start
                v.append(start + 5)
                if v is not o:
                    o.append(o[0] + start + 5)
            end = min(v[-1] for v in used)
        # a skip (seconds) that is exact in this unit
        skip = 0.0
        if r.random() < 0.6:
            lim = (end - start) * unit
            ns = math.floor(lim)
            if ns >= 1:
                k = r.randrange(0, int(ns) + 1)
                if r.random() < 0.7 and k >= 1953125:
                    k = k // 1953125 * 1953125      # multiple of 2^-9 s
                    skip = k / 1e9
                elif Fraction(float(k / 1e9) * 1e9) == k:
                    skip = k / 1e9
        sk = Fraction(skip * 1e9)
        arrays = [np.array([T(x) for x in v], dtype=T) * T(float(unit)) for v in lists]
        orig = [x.copy() for x in arrays]
        got = u.normalize_timestamps(*arrays, skip=skip) if preserve and r.random() < 0.5 else u.normalize_timestamps(*arrays, skip=skip, preserve_relative=preserve)
        where = "lists %s skip=%r preserve=%s %s unit %s start %d" % ([len(v) for v in lists], skip, preserve, T.__name__, unit, base)
        s = start * unit + sk
        want = [[float(x * unit - s) for x in v if x * unit >= s] for v in used]
        ctx.check(len(got) == m, "lists", where)
        for k in range(m):
            g = [float(x) for x in got[k]]
            ctx.check(len(g) == len(want[k]), "selection", lambda: "list %d: %d instead of %d events; %s" % (k, len(g), len(want[k]), where))
            bad = [(x, y) for x, y in zip(g, want[k]) if x != y]
            ctx.check(not bad, "times", lambda: "list %d: %s; %s" % (k, bad[:3], where))
            ctx.check((arrays[k] == orig[k]).all(), "input-modified", where)
            ctx.count("events", len(g))
        # slices
        v = lists[0]
        x = arrays[0]
        for _ in range(6):
            lo = r.choice([v[0], r.choice(v), r.choice(v) + 1, r.choice(v) - 1, v[0] - 100, r.randrange(v[0], v[-1] + 1)])
            lo = min(lo, v[-1])
            dur = None if r.random() < 0.2 else r.choice([1, r.randrange(1, span + 2), v[-1] - lo, v[-1] - lo + 1, r.choice(v) - lo])
            if dur is not None and dur <= 0:
                dur = 1
            st = T(lo) * T(float(unit))
            if r.random() < 0.15:
                lo, g = v[0], u.slice_timestamps(x, duration=None if dur is None else float(dur * unit))
            else:
                g = u.slice_timestamps(x, st if long_ else float(st), None if dur is None else float(dur * unit))
            w = [float((y - lo) * unit) for y in v if y >= lo and (dur is None or y - lo < dur)]
            ctx.check([float(y) for y in g] == w, "slice", lambda: "start %d duration %s: %s instead of %s; %s" % (lo, dur, [float(y) for y in g][:4], w[:4], where))
            ctx.check((x == orig[0]).all(), "input-modified", where)
            ctx.count("slices")
        # truncation to the common length
        short, cut = u.get_overlap(*arrays)
        want_n = min(len(y) for y in arrays)
        ctx.check(short == want_n and len(cut) == m and all(len(c) == want_n and (c == y[:want_n]).all() for c, y in zip(cut, arrays)), "overlap", lambda: "%s %s; %s" % (short, [len(c) for c in cut], where))
        ctx.distinct(m, len(v), skip, preserve, case["s"])
        ctx.sample({"where": where, "kept": [len(w) for w in want]})


class C39(Numerics):
    quick, thorough = 4500, 45000
    rule = ("a case takes a histogram (counts of various sizes, peak anywhere including both ends, multiple maxima, flat, one-sided tails) and compares significance, maximum, mean and deviation with exact arithmetic, then shifted and scaled copies; distinct by histogram")
    assumptions = ("histograms of at least 4 bins with a background",)

    def run(self, case, ctx):
        np, u = self.np, self.u
        r = random.Random(case["s"])
        n = r.choice([4, 5, 8, 16, 17, 64, 256, 1024])
        kind = r.choice(["random", "random", "peak", "flat", "flatpeak", "tails", "small"])
        top = r.choice([3, 30, 1000, 10 ** 6])
        h = [r.randrange(top) for _ in range(n)]
        c = r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)])
        if kind == "flat":
            h = [top] * n
        elif kind == "flatpeak":
            h = [top] * n
            h[c] += r.randrange(1, 1000)
        elif kind == "peak":
            h[c] = top * r.choice([2, 10, 50])
        elif kind == "tails":
            h = [r.randrange(top) if n // 4 < i < 3 * n // 4 else 0 for i in range(n)]
            h[c] = top * 3
        elif kind == "small":
            h = [r.randrange(2) for _ in range(n)]
        res = r.choice([1, 16, 2.0, 0.5])
        p = max(range(n), key=lambda i: (h[i], -i))
        sig, mean, var = self.exact(h, p)
        where = "%s n=%d peak %d at %d" % (kind, n, h[p], p)
        if mean is None:
            return
        arr = np.array(h, dtype=r.choice([np.int64, np.float64]))
        st = u.get_statistics(arr, res)
        ctx.check(float(st.max) == h[p], "maximum", lambda: "%s; %s" % (st.max, where))
        ctx.check(abs(float(st.mean) - float(mean)) <= 1e-9 * (1 + abs(mean)), "mean", lambda: "%s instead of %s; %s" % (st.mean, float(mean), where))
        ctx.check(abs(float(st.stdev) - math.sqrt(var)) <= 1e-9 * (1 + math.sqrt(var)), "deviation", lambda: "%s instead of %s; %s" % (st.stdev, math.sqrt(var), where))
        s = float(st.significance)
        if var == 0:
            ctx.check(s == 0, "flat", lambda: "%s; %s" % (s, where))
            ctx.count("flat_backgrounds")
        else:
            ctx.check(abs(s - sig) <= 0.0005 + 1e-9 * (1 + abs(sig)), "significance", lambda: "%s instead of %s; %s" % (s, sig, where))
            ctx.check(abs(s * 1000 - round(s * 1000)) < 1e-6 * (1 + abs(s)), "not-rounded", lambda: "%r" % s)
        # figures without a value are None
        flat = np.full(n, r.choice([0, 3]), dtype=arr.dtype)
        P, none = u.PeakStatistics, arr[:0]
        x = P(flat[:1] + 5, flat)
        got = [P(none, arr).max, P(none, arr).total, P(arr, none).mean, P(arr, none).stdev, x.significance_raw, x.significance2, P(arr, flat * 0).g2]
        ctx.check(got == [None] * 7 and x.significance == 0 and P(none, arr).mean == np.mean(arr) and P(arr, none).max == np.max(arr), "undefined", lambda: "%s %s; %s" % (got, x.significance, where))
        # shifts and positive factors
        add, mul = r.choice([1, 7, 1000]), r.choice([2, 3, 0.5, 1000])
        for g in (arr + add, arr * mul, (arr + add) * mul, arr.astype(np.float64) - 5):
            s2 = float(u.get_statistics(g, res).significance)
            ctx.check(abs(s2 - s) <= 0.00101 + 1e-9 * abs(s), "not-invariant", lambda: "%s and %s; +%s *%s %s" % (s, s2, add, mul, where))
        # a window around the peak, or around a given (non-negative or wrapped negative) centre
        ires = r.choice([1, 4, 16])
        win = r.choice([0, 1, 2, 3, 5, 8]) * ires
        half = -(-win // (2 * ires))
        centre = r.choice([None, r.randrange(n), -r.randrange(1, n)])
        q = p if centre is None else centre % n
        lo, hi = max(0, q - half), min(n, q + half)
        signal = h[lo:hi + 1]
        bg = h[lo // 2:lo] + h[hi + 1:(n + hi) // 2 + 1]
        if bg and signal:
            st = u.get_statistics(arr, ires, None if centre is None else centre * ires, win)
            mean = Fraction(sum(bg), len(bg))
            var = sum((x - mean) ** 2 for x in bg) / len(bg)
            want = float(max(signal) - mean) / math.sqrt(var) if var else 0.0
            ctx.check(abs(float(st.significance) - want) <= 0.0005 + 1e-9 * (1 + abs(want)), "window-significance",
                      lambda: "%s instead of %s; window %s centre %s; %s" % (st.significance, want, win, centre, where))
            ctx.count("windows")
            # counts in the window beyond the background, and the ratios
            total = sum(signal) - len(signal) * mean
            ctx.check(abs(float(st.total) - float(total)) <= 1e-9 * (1 + sum(signal) + abs(float(total))), "window-total", lambda: "%s instead of %s; window %s centre %s; %s" % (st.total, float(total), win, centre, where))
            if mean > 0:
                g2 = max(signal) / mean
                ctx.check(abs(float(st.g2) - float(g2)) <= 1e-9 * (1 + g2), "ratio", lambda: "%s instead of %s; window %s centre %s; %s" % (st.g2, float(g2), win, centre, where))
            if var:
                # the same over all these bins
                every = signal + bg
                m3 = Fraction(sum(every), len(every))
                v3 = sum((x - m3) ** 2 for x in every) / len(every)
                want = float(max(every) - m3) / math.sqrt(v3) if v3 else 0.0
                ctx.check(abs(float(st.significance_raw) - want) <= 1e-9 * (1 + abs(want)), "raw-significance",
                          lambda: "%s instead of %s; window %s centre %s; %s" % (st.significance_raw, want, win, centre, where))
            groups = [sum(bg[k:k + len(signal)]) for k in range(0, len(bg) - len(signal) + 1, len(signal))]
            if var and groups:
                m2 = Fraction(sum(groups), len(groups))
                v2 = sum((x - m2) ** 2 for x in groups) / len(groups)
                if v2:
                    want = float(total) / math.sqrt(v2)
                    ctx.check(abs(float(st.significance2) - want) <= 0.0005 + 1e-9 * (1 + abs(want)), "window-total-significance",
                              lambda: "%s instead of %s; window %s centre %s; %s" % (st.significance2, want, win, centre, where))
        ctx.distinct(n, kind, tuple(h[:20]), p)
        ctx.sample({"where": where, "significance": s, "mean": float(mean), "variance": float(var)})

    def exact(self, h, p):
        n = len(h)
        bg = h[p // 2:p] + h[p + 1:(n + p) // 2 + 1]
        if not bg:
            return None, None, None
        mean = Fraction(sum(bg), len(bg))
        var = sum((x - mean) ** 2 for x in bg) / len(bg)
        sig = float(h[p] - mean) / math.sqrt(var) if var else 0.0
        return sig, mean, var
