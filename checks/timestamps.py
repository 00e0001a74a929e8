"""C10-C16: timestamp files (fpfind.lib.parse_timestamps)."""
import contextlib
import io
import math
import os
import random
import re
import sys
from fractions import Fraction

from vlib import core, pylib
from vlib.core import Check
from vlib.pylib import FORMATS, M54, dec, enc, gen_events, read, run_main, run_sub, snap, write

MOD = "fpfind.lib.parse_timestamps"
RES = {"NS1": 1, "PS125": 8, "PS4": 256}


def lib():
    import fpfind.lib.parse_timestamps as m
    return m


def tsres(name):
    from fpfind import TSRES
    return getattr(TSRES, name)


def reader(fmt, stream=False):
    m = lib()
    return getattr(m, ("s" if stream else "") + "read_" + fmt[:2]), fmt == "a1x"


def as_units(np, t, res):
    """Exact 4 ps units of an array of fractional times, or None where not a multiple."""
    f = np.asarray(t).astype(np.longdouble) * (256 // RES[res])
    u = f.astype(np.uint64)
    same = u.astype(np.longdouble) == f
    return [int(x) if s else None for x, s in zip(u.tolist(), same.tolist())]


def check_read(ctx, t, p, events, res, frac, where):
    import numpy as np
    ctx.check(len(t) == len(events) and len(p) == len(events), "event-count",
              lambda: "%d times and %d patterns for %d events; %s" % (len(t), len(p), len(events), where))
    if frac:
        got = as_units(np, t, res)
        want = [e[0] for e in events]
    else:
        k = 256 // RES[res]
        got = [int(x) for x in np.asarray(t).tolist()]
        want = [e[0] // k for e in events]
        if len(events):
            ctx.check(np.asarray(t).dtype.kind in "ui", "not-integer", lambda: "dtype %s; %s" % (np.asarray(t).dtype, where))
    if got != want:
        i = [a == b for a, b in zip(got, want)].index(False)
        ctx.fail("time", "event %d of %d: got %r, stored %r (raw value %s); %s" % (i, len(events), got[i], want[i], t[i], where))
    pats = [int(x) for x in np.asarray(p).tolist()]
    if pats != [e[1] for e in events]:
        i = [a == b[1] for a, b in zip(pats, events)].index(False)
        ctx.fail("pattern", "event %d: got %r, stored %r; %s" % (i, pats[i], events[i][1], where))
    ctx.count("events_compared", len(events))
    ctx.count("oracle_evaluations")


class TsCheck(Check):
    interp = core.PYPY
    workers = 8

    def size(self, r, big=400):
        return r.choice([0, 1, 1, 2, 3, r.randrange(4, 40), r.randrange(40, big)])

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}


class C10(TsCheck):
    quick, thorough = 2000, 20000
    rule = ("a case is one generated file (format, 0-2000 events over the 54-bit range incl. 2^53.. and power-of-two edges, junk in bits 4-9, upper-case hex, missing last newline) read with all resolution/fraction options; "
            "distinct by (format, size, style, seed) with at least one event")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        fmt = FORMATS[case["i"] % 4]
        ev = gen_events(r, self.size(r, 2000))
        junk = [r.randrange(64) for _ in ev] if r.random() < 0.5 else None
        data = enc(fmt, ev, junk, upper=r.random() < 0.15, final_newline=r.random() > 0.15)
        d = ctx.fresh()
        path = write(os.path.join(d, "f"), data)
        fn, legacy = reader(fmt)
        combos = [(res, fr) for res in RES for fr in (True, False)]
        for res, fr in combos if len(ev) < 300 else r.sample(combos, 2):
            kw = {"resolution": tsres(res), "fractional": fr}
            if legacy or r.random() < 0.5:
                kw["legacy"] = legacy
            t, p = fn(path, **kw)
            check_read(ctx, t, p, ev, res, fr, "%s n=%d %s fractional=%s junk=%s" % (fmt, len(ev), res, fr, junk is not None))
        if r.random() < 0.3:         # default: ns, fractional
            t, p = fn(path, legacy) if legacy else fn(path)
            check_read(ctx, t, p, ev, "NS1", True, "%s defaults" % fmt)
        sfn, legacy = reader(fmt, True)
        res, fr = r.choice(combos)
        import numpy as np
        bs = r.choice([1, 2, 7, len(ev) or 1, len(ev) + 1, 100000]) if len(ev) < 300 else r.choice([97, len(ev), 100000])
        parts = list(sfn(path, legacy, tsres(res), fr, bs)[0]) if len(ev) else []
        t = [x for a, _ in parts for x in a]
        p = [x for _, b in parts for x in b]
        if parts:
            t = np.array(t, dtype=np.asarray(parts[0][0]).dtype)
            check_read(ctx, t, np.array(p), ev, res, fr, "streamed %s n=%d %s fractional=%s buffer=%d junk=%s" % (fmt, len(ev), res, fr, bs, junk is not None))
        ctx.check(read(path) == data and os.listdir(d) == ["f"], "file-touched", fmt)
        if ev:
            ctx.distinct(fmt, len(ev), case["s"])
        ctx.sample({"format": fmt, "events": ev[:3], "n": len(ev)})


def split_batches(r, ev):
    out, k = [], 0
    while k < len(ev):
        n = r.choice([0, 1, 1, 2, 3, 7, 50, len(ev)])
        out.append(ev[k:k + n])
        k += n
    if r.random() < 0.3:
        out.append([])
    return out


class C11(TsCheck):
    quick, thorough = 2000, 20000
    rule = ("a case writes generated events in one format from times in a random resolution (fractional extended floats or integers; exact or with sub-4ps part), once at once and once as a random split into batches, and compares the bytes with an independent encoder and the readers' result; "
            "distinct by (format, resolution, type, batches)")

    def run(self, case, ctx):
        import numpy as np
        r = random.Random(case["s"])
        fmt = FORMATS[case["i"] % 4]
        m = lib()
        ev = gen_events(r, self.size(r))
        res = r.choice(list(RES))
        k = 256 // RES[res]
        kind = r.choice(["frac", "frac", "int", "sub", "list", "float64"])
        if kind in ("int", "list") and k > 1:
            ev = [(t // k * k, p) for t, p in ev]
        if kind == "float64":
            ev = [(t & ~3, p) for t, p in ev]      # 52 significant bits: exact in double precision

        def times(evs):
            if kind == "int":
                return np.array([t // k for t, _ in evs], dtype=r2.choice([np.uint64, np.int64]))
            if kind == "list":
                return [t // k for t, _ in evs]
            a = np.array([t for t, _ in evs], dtype=np.uint64).astype(np.longdouble)
            if kind == "sub":
                a = a + np.array([sub[(t, q)] for t, q in evs], dtype=np.longdouble)
            a = a / k
            return a.astype(np.float64) if kind == "float64" else a
        sub = {e: r.choice([0, 0.25, 0.5, 0.75, 0.96875]) for e in ev}
        r2 = random.Random(case["s"])
        ptype = r.choice([np.uint32, np.int64, np.uint8, None])

        def pats(evs):
            return [q for _, q in evs] if ptype is None else np.array([q for _, q in evs], dtype=ptype)
        legacy = fmt == "a1x"
        d = ctx.fresh()
        want = enc(fmt, ev)
        where = "%s n=%d %s %s" % (fmt, len(ev), res, kind)
        kw = {"resolution": tsres(res)}
        if legacy:
            kw["legacy"] = True
        path = os.path.join(d, "one")
        if r.random() < 0.5:
            write(path, b"x" * 5000)               # longer leftovers must vanish
        getattr(m, "write_" + fmt[:2])(path, times(ev), pats(ev), **kw)
        self.compare(ctx, fmt, read(path), want, where + " at once")
        for b in range(2):
            batches = split_batches(r, ev)
            path2 = os.path.join(d, "s%d" % b)
            stream = ((times(x), pats(x)) for x in batches)
            getattr(m, "swrite_" + fmt[:2])(path2, stream, len(batches), display=False, **kw)
            self.compare(ctx, fmt, read(path2), want, where + " batches=%s" % [len(x) for x in batches][:20])
            ctx.count("batches", len(batches))
        fn, _ = reader(fmt)
        t, p = fn(path, legacy=legacy, resolution=tsres("PS4"), fractional=False)
        check_read(ctx, t, p, ev, "PS4", False, where + " read back")
        if ev:
            ctx.distinct(fmt, res, kind, str(ptype), case["s"])
        ctx.sample({"format": fmt, "resolution": res, "kind": kind, "n": len(ev), "batches": [len(x) for x in batches][:10]})

    def compare(self, ctx, fmt, got, want, where):
        ctx.count("bytes_compared", len(want))
        if got != want:
            try:
                a, b = dec(fmt, got), dec(fmt, want)
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                detail = "event %d: written %r instead of %r (%d of %d events)" % (i, a[i:i + 1], b[i:i + 1], len(a), len(b))
            except Exception as e:
                detail = "not canonical: %s %r" % (e, got[:80])
            ctx.fail("encoding", detail + "; " + where)
        ctx.count("oracle_evaluations")


class C12(TsCheck):
    quick, thorough = 1400, 20000
    rule = ("a case streams one generated file with several buffer sizes (1, 2, sizes dividing and not dividing the count, larger than the file, default) and compares the concatenated batches with the whole-file reader and the stored events; one of four also measures how far a large file is read for its first batches, one of nine reads files of 65000-210000 events; distinct by (format, size, buffer sizes)")

    def run(self, case, ctx):
        import numpy as np
        r = random.Random(case["s"])
        fmt = FORMATS[case["i"] % 4]
        ev = gen_events(r, self.size(r))
        n = len(ev)
        d = ctx.fresh()
        junk = [r.randrange(64) for _ in ev] if r.random() < 0.3 else None
        data = enc(fmt, ev, junk, final_newline=r.random() > 0.1)
        path = write(os.path.join(d, "f"), data)
        sizes = {1, 2, max(1, n - 1), max(1, n), n + 1, r.randrange(1, n + 3), r.randrange(1, n + 3), 10 ** 6}
        divs = [k for k in range(1, n + 1) if n % k == 0]
        if divs:
            sizes.add(r.choice(divs))
        if n > 60:
            sizes -= {1, 2}
        sizes = r.sample(sorted(sizes), min(4, len(sizes)))
        whole, legacy = reader(fmt)
        sread, _ = reader(fmt, True)
        for b in sizes + [None]:
            res, fr = r.choice(list(RES)), r.random() < 0.5
            kw = {"resolution": tsres(res), "fractional": fr}
            if legacy:
                kw["legacy"] = True
            t0, p0 = whole(path, **kw)
            if b is not None:
                kw["buffer_size"] = b
            stream, nb = sread(path, **kw)
            where = "%s n=%d buffer_size=%s %s fractional=%s" % (fmt, n, b, res, fr)
            ts, ps, cnt = [], [], 0
            for t, p in stream:
                cnt += 1
                ctx.check(len(t) == len(p) and (b is None or len(t) <= b), "batch-size", lambda: "batch of %d times, %d patterns; %s" % (len(t), len(p), where))
                ts.append(np.asarray(t))
                ps.append(np.asarray(p))
                ctx.check(cnt <= n + 2, "endless", where)
            ctx.check(cnt == nb, "batch-count", lambda: "announced %r, delivered %d; %s" % (nb, cnt, where))
            t = np.concatenate(ts) if ts else np.array([], dtype=np.uint64)
            p = np.concatenate(ps) if ps else np.array([], dtype=np.uint64)
            check_read(ctx, t, p, ev, res, fr, where)
            ctx.check(len(t0) == len(t) and bool(np.all(np.asarray(t0) == t)) and bool(np.all(np.asarray(p0) == p)), "whole-vs-stream", where)
            ctx.count("batches", cnt)
        if case["i"] % 16 < 4:
            self.lazy(ctx, r, d, fmt)
        if case["i"] % 36 >= 32:
            self.large(ctx, r, d, fmt)
        ctx.check(read(path) == data, "file-touched", fmt)
        if n:
            ctx.distinct(fmt, n, tuple(sizes), case["s"])
        ctx.sample({"format": fmt, "n": n, "buffer_sizes": sizes})

    def large(self, ctx, r, d, fmt):
        """Batches of files beyond the usual buffer sizes."""
        import numpy as np
        n = r.choice([65537, 100000, 100001, 131073, r.randrange(65000, 210000)])
        rng = np.random.default_rng(r.randrange(1 << 40))
        w = np.sort(rng.integers(0, 1 << 54, n, dtype=np.uint64)) << np.uint64(10) | rng.integers(0, 16, n, dtype=np.uint64)
        if fmt == "a1":
            data = w.astype("<u8").tobytes()
        elif fmt == "a1x":
            data = (w << np.uint64(32) | w >> np.uint64(32)).astype("<u8").tobytes()
        elif fmt == "a0":
            data = "".join("%08x\n%08x\n" % (x & 0xffffffff, x >> 32) for x in w.tolist()).encode()
        else:
            data = "".join("%016x\n" % x for x in w.tolist()).encode()
        path = write(os.path.join(d, "large"), data)
        sread, legacy = reader(fmt, True)
        for b in r.sample([None, 65536, 65537, 99999, 100001, 131072, n - 1, n, n + 1, n // 2, 10 ** 6], 3):
            kw = {"resolution": tsres("PS4"), "fractional": False}
            if legacy:
                kw["legacy"] = True
            if b is not None:
                kw["buffer_size"] = b
            stream, nb = sread(path, **kw)
            pos = cnt = 0
            where = "%s n=%d buffer_size=%s" % (fmt, n, b)
            for t, p in stream:
                cnt += 1
                k = len(t)
                ctx.check(len(p) == k and (b is None or k <= b), "batch-size", lambda: "batch of %d times, %d patterns; %s" % (k, len(p), where))
                part = w[pos:pos + k]
                ctx.check(len(part) == k and bool(np.all(np.asarray(t).astype(np.uint64) == part >> np.uint64(10))) and bool(np.all(np.asarray(p).astype(np.uint64) == part & np.uint64(15))),
                          "large-batch", lambda: "batch %d differs; %s" % (cnt, where))
                pos += k
            ctx.check(pos == n, "large-missing", lambda: "%d events; %s" % (pos, where))
            ctx.check(cnt == nb, "batch-count", lambda: "announced %r, delivered %d; %s" % (nb, cnt, where))
            ctx.count("large_batches", cnt)

    def lazy(self, ctx, r, d, fmt):
        """Batches are delivered without reading (much) further into the file."""
        n, b = 50000, r.choice([100, 1000, 5000])
        ev = [(k << 20 | r.randrange(1 << 20), k & 15) for k in range(n)]
        path = write(os.path.join(d, "big"), enc(fmt, ev))
        per = os.path.getsize(path) / n
        sread, legacy = reader(fmt, True)
        start = rchar()
        stream, nb = sread(path, buffer_size=b, **({"legacy": True} if legacy else {}))
        for k in range(1, 4):
            next(stream)
            used = rchar() - start
            ctx.check(used <= k * b * per + 70000, "reads-ahead", lambda: "%d bytes read for %d batches of %d events of %s" % (used, k, b, fmt))
            ctx.count("incremental_reads_observed")
        stream.close()


def rchar():
    """Bytes read by this process so far."""
    with open("/proc/self/io") as f:
        return int(f.readline().split()[1])


def fmt_args(src, dst):
    a = ["-A", src[1]] + (["-X"] if src == "a1x" else [])
    return a + ["-a", dst[1]] + (["-x"] if dst == "a1x" else [])


def big_n(r):
    return r.choice([100000, 100001, 199999, 200000, 200001, 130000])


def convert(ctx, r, d, src, dst, inpath, out, extra=(), sub=False):
    args = fmt_args(src, dst) + list(extra)
    if r.random() < 0.5:
        args.append("-q")
    args += [inpath, os.path.join(d, out)]
    res = run_sub(MOD, args) if sub else run_main(MOD, args)
    ctx.count("cli_runs")
    ctx.check(res.status == 0, "conversion-failed", lambda: "%s: %r" % (args, res))
    return read(os.path.join(d, out)), args


class C13(TsCheck):
    quick, thorough = 576, 8000
    rule = ("a case converts one generated file over a pair of formats on the command line in streaming and in-memory mode and back again; one case in 36 holds more than one streaming batch (100000 events), one in 24 runs as a separate process, one in 6 is a refusal; distinct by (formats, size)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        i = case["i"]
        if i % 6 == 5:
            return self.refuse(case, ctx, r)
        src, dst = FORMATS[i % 4], FORMATS[(i // 4) % 4]
        big = i % 36 == 0
        n = big_n(r) if big else self.size(r)
        ev = gen_events(r, n, maxt=M54)
        junk = [r.randrange(64) for _ in ev] if r.random() < 0.3 else None
        d = ctx.fresh()
        data = enc(src, ev, junk)
        inp = write(os.path.join(d, "in.dat"), data)
        want = enc(dst, ev)
        if r.random() < 0.3:
            write(os.path.join(d, "o1"), b"0" * (len(want) + 100))
        got, args = convert(ctx, r, d, src, dst, inp, "o1", sub=i % 24 == 1)
        self.same(ctx, dst, got, want, args)
        if not big or r.random() < 0.4:
            got, args = convert(ctx, r, d, src, dst, inp, "o2", ["--inmemory"])
            self.same(ctx, dst, got, want, args)
            back, args = convert(ctx, r, d, dst, src, os.path.join(d, "o1"), "o3", r.choice([[], ["--inmemory"]]))
            self.same(ctx, src, back, enc(src, ev), args)
        ctx.check(read(inp) == data, "input-modified", str(args))
        ctx.check(set(os.listdir(d)) <= {"in.dat", "o1", "o2", "o3"}, "stray-files", lambda: str(os.listdir(d)))
        ctx.count("big_cases", big)
        ctx.count("events_converted", n)
        if n:
            ctx.distinct(src, dst, n, case["s"])
        ctx.sample({"from": src, "to": dst, "n": n})

    def same(self, ctx, fmt, got, want, args):
        C11.compare(self, ctx, fmt, got, want, str(args))

    def refuse(self, case, ctx, r):
        d = ctx.fresh()
        src, dst = r.choice(FORMATS), r.choice(FORMATS)
        write(os.path.join(d, "in.dat"), enc(src, gen_events(r, 5)))
        before = snap(d)
        what = r.choice(["noinput", "nooutput", "neither", "dir", "noformat", "badformat"])
        args = fmt_args(src, dst) + r.choice([[], ["-q"], ["--inmemory"]])
        inp, out = os.path.join(d, "in.dat"), os.path.join(d, "out.dat")
        args = {"noinput": args + [inp + "x", out], "nooutput": args + [inp], "neither": args, "dir": args + [d, out],
                "noformat": [inp, out], "badformat": ["-A", "3", inp, out]}[what]
        res = run_main(MOD, args)
        ctx.check(res.status != 0, "accepted", lambda: "%s: %r" % (args, res))
        ctx.check(snap(d) == before, "files-created", lambda: "%s: %s" % (args, os.listdir(d)))
        ctx.count("refusals")
        ctx.distinct(what, src, dst)


def pfilter(ev, pattern, mask, invert):
    out = []
    for t, p in ev:
        if not mask:
            if (p == pattern) != invert:
                out.append((t, p))
        elif not invert:
            if p & pattern:
                out.append((t, p & pattern))
        else:
            if p == 0 or p & ~pattern:
                out.append((t, p & ~pattern))
    return out


def hole(r, ev, pattern, mask, invert):
    """No event of the second of three batches passes the filter (if any can fail it)."""
    out = [p for p in range(16) if not pfilter([(0, p)], pattern, mask, invert)]
    if out and len(ev) > 200000:
        ev = ev[:100000] + [(t, r.choice(out)) for t, _ in ev[100000:200000]] + ev[200000:]
    return ev


class C14(TsCheck):
    quick, thorough = 960, 16000
    rule = ("a case applies one (pattern, mask, invert) filter - all 64 combinations in turn - to generated pattern lists through the function and, for every third case, through the command line in streaming and in-memory mode; one case in 48 spans several batches, half of these with no selected event in the second of three; distinct by (filter, list)")

    def run(self, case, ctx):
        import numpy as np
        r = random.Random(case["s"])
        i = case["i"]
        pattern, mask, invert = i % 16, bool(i // 16 & 1), bool(i // 32 & 1)
        cli = i % 3 == 0 or i % 48 == 1
        big = i % 48 == 1
        holed = big and i % 96 == 1
        n = r.randrange(200300, 230000) if holed else big_n(r) if big else self.size(r)
        ev = gen_events(r, n)
        if r.random() < 0.7 or n <= 16:
            ev = [(t, r.choice([0, pattern, r.randrange(16), r.randrange(16)])) for t, _ in ev]
        if holed:
            ev = hole(r, ev, pattern, mask, invert)
            ctx.count("batches_without_selected_events")
        want = pfilter(ev, pattern, mask, invert)
        where = "pattern=%d mask=%s invert=%s n=%d" % (pattern, mask, invert, n)
        p = np.array([q for _, q in ev], dtype=r.choice([np.uint32, np.int64, np.uint64, np.uint8]))
        t = np.array([x for x, _ in ev], dtype=np.uint64)
        p_before = p.copy()
        m, left = lib().get_pattern_mask(p, pattern, mask, invert)
        got = list(zip(t[np.asarray(m)].tolist(), np.asarray(left).tolist()))
        ctx.check(len(m) == n and got == want, "filter", lambda: "%s patterns=%s: kept %s instead of %s" % (where, p.tolist()[:40], got[:20], want[:20]))
        ctx.check(bool(np.all(p == p_before)), "input-modified", where)
        ctx.count("events_filtered", n)
        if cli:
            src, dst = r.choice(["a0", "a1", "a1x", "a2"]) if not big else r.choice(["a1", "a1x"]), r.choice(["a1", "a2", "a0"]) if not big else "a1"
            d = ctx.fresh()
            inp = write(os.path.join(d, "in.dat"), enc(src, ev))
            extra = ["--pfilter-pattern", pattern] + (["--pfilter-mask"] if mask else []) + (["--pfilter-invert"] if invert else [])
            for mode in ([[], ["--inmemory"]] if not big else [[]]):
                got, args = convert(ctx, r, d, src, dst, inp, "out", extra + mode)
                C11.compare(self, ctx, dst, got, enc(dst, want), str(args))
            ctx.count("big_cases", big)
        if n:
            ctx.distinct(pattern, mask, invert, n, case["s"])
        ctx.sample({"filter": where, "patterns": [q for _, q in ev][:12], "kept": len(want)})


def gen_bound(r):
    """(seconds, exact): exact bounds are multiples of 2^-17 s, representable in all units."""
    k = r.choice([r.randrange(0, 100), r.randrange(0, 1 << 20), r.randrange(0, 1 << 32)])
    return k / 131072.0


UNIT17 = 1953125           # 2^-17 s in units of 4 ps (1/256 ns)
UNIT9 = 1953125 * 256      # 2^-9 s


def gen_time_case(r, n, res="PS4"):
    """Time-ordered events around a pair of bounds that are exact in binary."""
    unit, sec = (UNIT17, 2.0 ** -17) if res == "PS4" else (UNIT9, 2.0 ** -9)
    top = (1 << 53) // unit - 4
    k1 = r.choice([0, 1, r.randrange(1, 400), r.randrange(1, top)])
    k2 = r.choice([k1, k1 + 1, min(top, k1 + r.randrange(1, 500)), r.randrange(0, top)])
    ts = []
    for _ in range(n):
        c = r.random()
        k = r.choice([k1, k2])
        if c < 0.45:
            t = k * unit + r.choice([0, 0, 0, 1, -1, 2, -2, 255, 256, -256, -255, 32, -32])
        elif c < 0.8:
            t = r.randrange(max(0, min(k1, k2) - 3) * unit, (max(k1, k2) + 3) * unit)
        else:
            t = r.randrange(1 << 53)
        ts.append(min(max(t, 0), (1 << 53) - 1))
    ts.sort()
    start = r.choice([None, k1 * sec, k1 * sec, k1 * sec])
    end = r.choice([None, k2 * sec, k2 * sec, k2 * sec])
    if start is not None and r.random() < 0.05:
        start = -start
    return ts, start, end


def inside(t, start, end):
    """t in units of 1/256 ns, exactly."""
    s = Fraction(t, 256 * 10 ** 9)
    return (start is None or s >= Fraction(start)) and (end is None or s <= Fraction(end))


class C15(TsCheck):
    quick, thorough = 1200, 16000
    rule = ("a case selects by time with bounds exact in binary (events at, one unit before and after the bounds, repeated times, empty results, reversed or absent bounds, arbitrary decimal bounds with no event within rounding) through the function in all resolutions and, every third, the command line "
            "in both modes, alone and with a pattern filter; one case in 48 spans several batches; distinct by (bounds, list)")
    assumptions = ("bounds are double-precision seconds: times are kept below 2^53 units of 4 ps, and decimal bounds are probed only with events farther than the rounding of one double",)

    def run(self, case, ctx):
        import numpy as np
        r = random.Random(case["s"])
        i = case["i"]
        big = i % 48 == 1
        cli = i % 3 == 0 or big
        n = big_n(r) if big else self.size(r)
        res = r.choice(list(RES))
        if cli:
            ts, start, end = gen_time_case(r, n, "NS1")     # in-memory mode compares in ns
        else:
            ts, start, end = gen_time_case(r, n, "PS4" if res == "PS4" else "NS1")
        if r.random() < 0.25:
            # arbitrary bounds, no event within rounding of them
            top = (ts[-1] if ts else 1000) / 256e9 * 1.2
            start, end = (r.uniform(0, top), r.uniform(0, top)) if r.random() < 0.5 else (round(r.uniform(0, top), 3), round(r.uniform(0, top), 2))
            if r.random() < 0.8 and start > end:
                start, end = end, start
            margin = 4 + int(top * 256e9 * 1e-15)
            edges = [int(Fraction(b) * 256 * 10 ** 9) for b in (start, end)]
            step = 256 if not cli else 0
            ts = [t for t in ts if all(abs(t - e) > margin + step for e in edges)]
        ev = [(t, r.randrange(16)) for t in ts]
        where = "start=%r end=%r n=%d" % (start, end, len(ev))
        # function, on the times as given in this resolution
        k = 256 // RES[res]
        kind = r.choice(["int", "frac", "list"])
        if kind == "frac":
            arr = np.array(ts, dtype=np.uint64).astype(np.longdouble) / k
            vals = ts
        else:
            arr = np.array([t // k for t in ts], dtype=np.uint64)
            vals = [t // k * k for t in ts]
        if not big:
            m = lib().get_timing_mask(arr, start, end, tsres(res))
            got = [int(x) for x in np.asarray(m).tolist()]
            want = [int(inside(t, start, end)) for t in vals]
            if got != want:
                j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                ctx.fail("interval", "event %d at %r units of 4 ps (%s %s): selected %s; %s" % (j, vals[j:j + 1], res, kind, got[j:j + 1], where))
            ctx.count("events_filtered", len(ev))
            ctx.count("oracle_evaluations")
        if cli:
            pf = None
            extra = []
            if r.random() < 0.5:
                pf = (r.randrange(16), r.random() < 0.5, r.random() < 0.5)
                extra += ["--pfilter-pattern", pf[0]] + (["--pfilter-mask"] if pf[1] else []) + (["--pfilter-invert"] if pf[2] else [])
            if start is not None:
                extra += ["--tfilter-start=%r" % start]
            if end is not None:
                extra += ["--tfilter-end=%r" % end]
            sel = self.select(ev, start, end)
            if pf:
                sel = pfilter(sel, *pf)
            src, dst = r.choice(["a1", "a1x"]) if big else r.choice(FORMATS), "a1" if big else r.choice(FORMATS)
            d = ctx.fresh()
            inp = write(os.path.join(d, "in.dat"), enc(src, ev))
            for mode in ([[], ["--inmemory"]] if not big else [[]]):
                out, args = convert(ctx, r, d, src, dst, inp, "out", extra + mode)
                C11.compare(self, ctx, dst, out, enc(dst, sel), "%s %s" % (args, where))
            ctx.count("big_cases", big)
        if ev:
            ctx.distinct(start, end, len(ev), case["s"])
        ctx.sample({"start": start, "end": end, "first_units": ts[:4], "n": len(ev)})

    def select(self, ev, start, end):
        lo = -1 if start is None else math.ceil(Fraction(start) * 256 * 10 ** 9)
        hi = M54 if end is None else math.floor(Fraction(end) * 256 * 10 ** 9)
        return [e for e in ev if lo <= e[0] <= hi]


LABELS = {"Total events": "total", "Channel 1": 0, "Channel 2": 1, "Channel 3": 2, "Channel 4": 3, "Multi-channel": "multi", "No channel": "none"}


def parse_report(text):
    out = {}
    for line in text.splitlines():
        if ":" not in line:
            continue
        label, val = line.rsplit(":", 1) if "Name" not in line[:4] else line.split(":", 1)
        out[label.strip(" ~")] = val.strip()
    return out


class C16(TsCheck):
    quick, thorough = 384, 12000
    rule = ("a case prints the statistics of one generated file, with or without pattern/time filter, in streaming and in-memory mode, and compares every printed figure with exact counts; includes files with no or one (selected) event and, one in 48, several batches (half of these with no selected event in the second of three), and patterns that occur only once; distinct by (format, filter, size)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        i = case["i"]
        src = FORMATS[i % 4]
        big = i % 48 == 1
        if big:
            src = r.choice(["a1", "a1x"])
        holed = big and i % 96 == 1
        n = r.randrange(200300, 230000) if holed else big_n(r) if big else self.size(r)
        filt = "p" if holed else r.choice(["none", "none", "p", "t", "pt"])
        extra, pf, start, end = [], None, None, None
        if "t" in filt:
            ts, start, end = gen_time_case(r, n, "NS1")
            ev = [(t, r.randrange(16)) for t in ts]
        else:
            ev = gen_events(r, n, sort=True)
        if "p" in filt:
            pf = (r.randrange(1 if holed else 0, 16), r.random() < 0.5, r.random() < 0.5)
            if holed:
                ev = hole(r, ev, *pf)
                ctx.count("batches_without_selected_events")
            extra += ["--pfilter-pattern", pf[0]] + (["--pfilter-mask"] if pf[1] else []) + (["--pfilter-invert"] if pf[2] else [])
        if start is not None:
            extra += ["--tfilter-start=%r" % start]
        if end is not None:
            extra += ["--tfilter-end=%r" % end]
        if ev and not holed and (big or r.random() < 0.5):    # few patterns, and one that occurs once, anywhere
            common = r.sample(range(16), r.choice([1, 2, 3]))
            ev = [(t, r.choice(common)) for t, _ in ev]
            for _ in range(4 if big else 1):
                k = r.randrange(len(ev))
                ev[k] = (ev[k][0], r.randrange(16))
            ctx.count("rare_patterns")
        if ev and not big and r.random() < 0.2:      # stream that starts at time zero
            k = r.randrange(1, 3)
            ev = [(0, p) for _, p in ev[:k]] + ev[k:]
        sel = C15.select(self, ev, start, end)
        if pf:
            sel = pfilter(sel, *pf)
        d = ctx.fresh()
        data = enc(src, ev, [r.randrange(64) for _ in ev] if r.random() < 0.3 else None)
        inp = write(os.path.join(d, "in.dat"), data)
        if ev and not big:           # library call over small batches
            sfn, legacy = reader(src, True)
            res = r.choice(list(RES))
            frac = res == "PS4" and r.random() < 0.5
            stream, nb = sfn(inp, legacy, tsres(res), frac or res != "PS4", r.choice([1, 2, 3, 10, len(ev)]))
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                lib().print_statistics_stream(inp, stream, nb, tsres(res), display=False)
            self.report(ctx, buf.getvalue(), ev, ["library", src, res, frac], len(data))
            ctx.count("reports_over_small_batches")
        for mode in [[], ["--inmemory"]]:
            args = ["-A", src[1]] + (["-X"] if src == "a1x" else []) + ["-p"] + extra + mode + r.choice([[], ["-q"]]) + [inp]
            res = run_main(MOD, args) if i % 24 != 2 else run_sub(MOD, args)
            ctx.check(res.status == 0, "failed", lambda: "%s n=%d selected=%d: %r" % (args, n, len(sel), res))
            self.report(ctx, res.out, sel, args, len(data))
            ctx.count("reports")
        ctx.check(read(inp) == data and os.listdir(d) == ["in.dat"], "modified", lambda: str(os.listdir(d)))
        ctx.count("big_cases", big)
        ctx.count("reports_of_0_or_1_event", len(sel) < 2)
        ctx.distinct(src, filt, len(ev), case["s"])
        ctx.sample({"format": src, "filter": filt, "n": len(ev), "selected": len(sel)})

    def report(self, ctx, text, sel, args, size):
        rep = parse_report(text)
        where = "%s; %d events selected; report %r" % (args, len(sel), text[-700:])
        got = rep.get("Filesize (MB)")
        ctx.check(got is not None and re.fullmatch(r"\d+\.\d{3}", got) and abs(Fraction(got) - Fraction(size, 1 << 20)) <= Fraction(6, 10 ** 4), "file-size", lambda: "printed %r for %d bytes; %s" % (got, size, where))
        want = {"total": len(sel), "multi": sum(1 for _, p in sel if p not in (0, 1, 2, 4, 8)), "none": sum(1 for _, p in sel if p == 0)}
        for b in range(4):
            want[b] = sum(1 for _, p in sel if p >> b & 1)
        for label, key in LABELS.items():
            if not sel and key != "total":
                continue
            got = rep.get(label)
            ctx.check(got is not None and re.fullmatch(r"\d+", got) and int(got) == want[key], "count",
                      lambda: "%s: printed %r instead of %d; %s" % (label, got, want[key], where))
        if not sel:
            return
        t0, t1 = sel[0][0], sel[-1][0]
        for label, u in (("Duration (s)", t1 - t0), ("start", t0), ("end", t1)):
            got = rep.get(label)
            ctx.check(got is not None and re.fullmatch(r"-?\d+\.\d{9}", got) and abs(Fraction(got) - Fraction(u, 256 * 10 ** 9)) <= Fraction(6, 10 ** 10),
                      "time", lambda: "%s: printed %r, exact %.12f; %s" % (label, got, u / 256e9, where))
        dur = Fraction(t1 - t0, 256 * 10 ** 9)
        tol = Fraction(2, 10 ** 11)
        if dur > 5 * tol:
            got = rep.get("Event rate (/s)")
            lo, hi = math.floor(len(sel) / (dur + tol)) - 1, math.ceil(len(sel) / (dur - tol)) + 1
            ctx.check(got is not None and re.fullmatch(r"\d+", got) and lo <= int(got) <= hi, "rate", lambda: "printed %r, expected %d..%d; %s" % (got, lo, hi, where))
        pats = [int(x) for x in re.findall(r"\d+", rep.get("Detection patterns", ""))]
        ctx.check(pats == sorted(set(p for _, p in sel)), "patterns", lambda: "printed %s; %s" % (pats, where))
