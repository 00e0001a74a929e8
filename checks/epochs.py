"""C17-C24: epoch files (fpfind.lib.parse_epochs) and epoch selection (fpfind.lib.utils)."""
import contextlib
import datetime
import os
import random
import signal
import struct
import time
from fractions import Fraction

from vlib import core
from vlib.core import Check
from vlib.pylib import read, snap, write

RES = {"NS1": 1, "PS125": 8, "PS4": 256}


def lib():
    import fpfind.lib.parse_epochs as m
    return m


def tsres(name):
    from fpfind import TSRES
    return getattr(TSRES, name)


class Hang(BaseException):
    pass


@contextlib.contextmanager
def cpu_limit(ctx, seconds, where):
    """Raises a violation when the code under test uses more CPU time than that."""
    def stop(*a):
        raise Hang()
    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    except Hang:
        ctx.fail("endless", "more than %s s CPU; %s" % (seconds, where))
    except MemoryError:
        ctx.fail("memory", "memory exhausted; %s" % where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ------------------------------------------------------------------ encoders
def enc_t1(epoch, events, count=None, terminator=b"\0" * 8):
    """events: (time within the epoch in 4 ps, detector bits)."""
    out = [struct.pack("<IIIII", 0x101, epoch, len(events) if count is None else count, 49, 4)]
    for t, d in events:
        w = (((epoch & 0x1FFFF) << 37) + t) << 10 | d
        out.append(struct.pack("<II", w >> 32, w & 0xFFFFFFFF))
    return b"".join(out) + terminator


def pack_words(bits):
    """MSB-first bits [(value, width)] into little-endian 32-bit words, zero padded."""
    acc, n = 0, 0
    for v, w in bits:
        acc = acc << w | v
        n += w
    pad = -n % 32
    acc <<= pad
    n += pad
    out = acc.to_bytes(n // 8, "big") if n else b""
    return b"".join(out[k:k + 4][::-1] for k in range(0, len(out), 4))


def enc_t2(epoch, deltas, width, bases, count=None, tbase=0, long=()):
    """deltas: [(delta, detector)] in 125 ps; indices in 'long' take the extended form."""
    bits = []
    for k, (d, b) in enumerate(deltas):
        if k in long or not 2 <= d < 1 << width:
            bits += [(0, width), (d, 32)]
        else:
            bits.append((d, width))
        bits.append((b, bases))
    bits += [(1, width), (tbase, bases)]
    return struct.pack("<IIIIII", 0x102, epoch, len(deltas) if count is None else count, width, bases, 1) + pack_words(bits)


def enc_t3(epoch, entries, count=None, width=8):
    data = bytes(entries) + b"\0" * (-len(entries) % 4)
    return struct.pack("<IIII", 0x103, epoch, len(entries) if count is None else count, width) + b"".join(data[k:k + 4][::-1] for k in range(0, len(data), 4))


def enc_t4(epoch, diffs, width, bases, count=None, tbase=0, long=()):
    """diffs: [(index difference, detector)]; stored incremented by 2."""
    bits = []
    for k, (d, b) in enumerate(diffs):
        if k in long or not d + 2 < 1 << width:
            bits += [(0, width), (d + 2, 32)]
        else:
            bits.append((d + 2, width))
        bits.append((b, bases))
    bits += [(1, width), (tbase, bases)]
    return struct.pack("<IIIII", 0x104, epoch, len(diffs) if count is None else count, width, bases) + pack_words(bits)


# ------------------------------------------------------------------ generators
def gen_epoch(r):
    return r.choice([0, 1, r.randrange(1 << 32), 0xBA1F36C0 + r.randrange(100), (r.randrange(1, 1 << 15) << 17) + r.choice([-1, 0, 1, 5]),
                     (1 << 32) - 1, (1 << 17) - 1, 1 << 17, (1 << 31) + r.randrange(100)])


def gen_n(r, big=300):
    return r.choice([0, 1, 2, 3, 4, 5, r.randrange(6, 40), r.randrange(40, big)])


def gen_t1_events(r, epoch, n):
    style = r.choice(["sorted", "sorted", "dense", "edges"])
    top = (1 << 37) - 1
    if style == "sorted":
        ts = sorted(r.randrange(top + 1) for _ in range(n))
    elif style == "dense":
        t = r.randrange(top - 400 * n)
        ts = []
        for _ in range(n):
            ts.append(t)
            t += r.randrange(3)
    else:
        ts = sorted(r.choice([0, 1, 31, 32, 33, 255, 256, 257, top, top - 1, top - 32, (1 << 36), (1 << 22), (1 << 22) - 1]) for _ in range(n))
    out = []
    for t in ts:
        d = r.choice([1, 2, 4, 8, r.randrange(16)])
        if t == 0 and d == 0 and not epoch & 0x1FFFF:
            d = 1          # an all-zero event is the terminator
        out.append((t, d))
    return out


def gen_t2(r, n, width, bases):
    """(deltas with detectors, indices in long form)"""
    out, long, total = [], set(), 0
    room = (1 << 32) - 1
    for k in range(n):
        c = r.random()
        hi = max(3, 1 << width)
        if c < 0.5:
            d = r.randrange(2, hi)
        elif c < 0.6:
            d = r.choice([2, 3, hi - 1, hi, hi + 1])
        elif c < 0.7:
            d = r.choice([0, 1, 2])
        elif c < 0.9:
            d = r.randrange(1 << r.randrange(1, 33))
        else:
            d = r.randrange(2, 1 << r.randrange(2, 16))
        if total + d > room:
            d = r.randrange(min(3, room - total) + 1)
        total += d
        if r.random() < 0.15:
            long.add(k)
        out.append((d, r.randrange(1 << bases)))
    return out, long


def gen_widths(r):
    if r.random() < 0.5:
        return r.choice([(15, 4), (20, 4), (17, 4), (23, 2), (18, 1)])
    width = r.randrange(2, 31)
    return width, r.randrange(1, min(32 - width, 9))


def frac(x):
    """Exact value of an extended float."""
    hi = float(x)
    return Fraction(hi) + Fraction(float(x - type(x)(hi)))


def check_times(ctx, got, want, res, isfrac, base, where, slack):
    """want: integers in units of 1/base ns."""
    import numpy as np
    ctx.check(len(got) == len(want), "event-count", lambda: "%d events instead of %d; %s" % (len(got), len(want), where))
    if isfrac:
        for k, (a, w) in enumerate(zip(got, want)):
            a, b = frac(a), Fraction(w * RES[res], base)
            if a != b and not (slack and abs(a - b) <= b / (1 << 63)):
                ctx.fail("time", "event %d of %d: %s instead of %s; %s" % (k, len(want), float(a), float(b), where))
    else:
        vals = [int(x) for x in np.asarray(got).tolist()]
        exp = [w * RES[res] // base for w in want]
        if vals != exp:
            k = [x == y for x, y in zip(vals, exp)].index(False)
            ctx.fail("time", "event %d of %d: %d instead of %d; %s" % (k, len(want), vals[k], exp[k], where))
        if len(want):
            ctx.check(np.asarray(got).dtype.kind in "uiO", "not-integer", lambda: "dtype %s; %s" % (np.asarray(got).dtype, where))
    ctx.count("events_compared", len(want))
    ctx.count("oracle_evaluations")


def check_bases(ctx, got, want, where):
    vals = [int(x) for x in list(got)]
    if vals != list(want):
        k = next((k for k, (a, b) in enumerate(zip(vals, want)) if a != b), min(len(vals), len(want)))
        ctx.fail("detector", "event %d: %s instead of %s; %s" % (k, vals[k:k + 1], list(want)[k:k + 1], where))
    ctx.count("oracle_evaluations")


class EpCheck(Check):
    interp = core.PYPY

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}


class C17(EpCheck):
    quick, thorough = 1600, 16000
    rule = ("a case writes generated events (times at epoch edges, dense, repeated; scalar or listed detectors; Python or numpy integers) of a generated epoch (edges of 17 and 32 bits) as T1, checks the file byte by byte against an independent decoder and reads it back with all options; distinct by (epoch, events)")

    def run(self, case, ctx):
        import numpy as np
        r = random.Random(case["s"])
        m = lib()
        epoch = gen_epoch(r)
        ev = gen_t1_events(r, epoch, gen_n(r))
        scalar = r.random() < 0.2 and ev
        if scalar:
            d0 = r.choice([1, 2, 4, 8, 5, 15])
            ev = [(t, d0) for t, _ in ev]
        d = ctx.fresh()
        ts, ds = [t for t, _ in ev], (d0 if scalar else [q for _, q in ev])
        dt = r.choice([None, None, np.uint64, np.int64])
        if dt:
            ts = np.array(ts, dtype=dt)
            ds = ds if scalar else np.array(ds, dtype=r.choice([np.uint32, np.int64, np.uint8]))
        given = epoch + (r.randrange(1, 5) << 32 if r.random() < 0.1 else 0)
        where = "epoch=%#x n=%d %s" % (epoch, len(ev), dt and dt.__name__)
        if r.random() < 0.3:
            write(os.path.join(d, "%x" % epoch), b"\xff" * 9999)
        path = m.write_T1(d, given, ts, ds)
        ctx.check(os.listdir(d) == ["%x" % epoch], "name", lambda: "%s; %s" % (os.listdir(d), where))
        ctx.check(os.path.realpath(str(path)) == os.path.realpath(os.path.join(d, "%x" % epoch)), "returned-path", lambda: "%s; %s" % (path, where))
        path = os.path.join(d, "%x" % epoch)
        data = read(path)
        want = enc_t1(epoch, ev)
        ctx.check(data[:20] == want[:20], "header", lambda: "%s; %s" % (data[:20].hex(), where))
        ctx.check(data[20:] == want[20:], "encoding", lambda: "body %s instead of %s; %s" % (data[20:100].hex(), want[20:100].hex(), where))
        for res in RES:
            for full in (False, True):
                for isfrac in (True, False):
                    t, b = m.read_T1(r.choice([str, __import__("pathlib").Path])(path), full, tsres(res), isfrac) if r.random() < 0.5 else \
                        m.read_T1(path, full_epoch=full, resolution=tsres(res), fractional=isfrac)
                    e = epoch if full else epoch & 0x1FFFF
                    check_times(ctx, t, [(e << 37) + x for x, _ in ev], res, isfrac, 256, "%s full=%s %s fractional=%s" % (where, full, res, isfrac), full)
                    check_bases(ctx, b, [q for _, q in ev], where)
        t, b = m.read_T1(path)
        check_times(ctx, t, [((epoch & 0x1FFFF) << 37) + x for x, _ in ev], "NS1", True, 256, where + " defaults", False)
        if r.random() < 0.2:
            # lists of different lengths cannot be events
            other = [1] * r.choice([k for k in (0, 1, len(ev) - 1, len(ev) + 1, 2 * len(ev) + 2) if k >= 0 and k != len(ev)])
            try:
                m.write_T1(d, given, ts, other if r.random() < 0.5 else np.array(other, dtype=int))
            except Exception:
                ctx.count("refused_lists")
            else:
                ctx.fail("unequal-lists", "%d detectors accepted; %s" % (len(other), where))
        ctx.check(read(path) == data and os.listdir(d) == ["%x" % epoch], "file-touched", where)
        if ev:
            ctx.distinct(epoch, case["s"])
        ctx.sample({"epoch": "%x" % epoch, "n": len(ev), "events": ev[:2]})


class C18(EpCheck):
    quick, thorough = 1600, 16000
    rule = ("a case decodes a T2 file packed by an independent encoder with generated epoch, widths (2..30 + 1..8 bits, < 32), short and extended deltas in any mixture, with all options; half of the cases add altered counts and nonzero terminators, which must be refused; distinct by (epoch, widths, deltas)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        m = lib()
        epoch = gen_epoch(r)
        width, bases = gen_widths(r)
        ev, long = gen_t2(r, gen_n(r), width, bases)
        d = ctx.fresh()
        path = os.path.join(d, "%x" % epoch)
        data = enc_t2(epoch, ev, width, bases, long=long, count=0 if r.random() < 0.1 else None)
        write(path, data)
        where = "epoch=%#x width=%d bases=%d n=%d long=%d deltas=%s" % (epoch, width, bases, len(ev), len(long), ev[:4])
        times, acc = [], 0
        for x, _ in ev:
            acc += x
            times.append(acc)
        with cpu_limit(ctx, 60, where):
            for res in RES:
                for full in (False, True):
                    for isfrac in (True, False):
                        t, b = m.read_T2(path, full_epoch=full, resolution=tsres(res), fractional=isfrac)
                        e = epoch if full else epoch & 0x1FFFF
                        check_times(ctx, t, [(e << 32) + x for x in times], res, isfrac, 8, "%s full=%s %s fractional=%s" % (where, full, res, isfrac), full)
                        check_bases(ctx, b, [q for _, q in ev], where)
            t, b = m.read_T2(path)
            check_times(ctx, t, [((epoch & 0x1FFFF) << 32) + x for x in times], "NS1", True, 8, where + " defaults", False)
        ctx.check(read(path) == data, "file-touched", where)
        if r.random() < 0.5:
            self.refusals(ctx, r, m.read_T2, path, lambda **k: enc_t2(epoch, ev, width, bases, long=long, **k), len(ev), bases, where)
        ctx.count("extended_deltas", sum(1 for k, (x, _) in enumerate(ev) if k in long or not 2 <= x < 1 << width))
        if ev:
            ctx.distinct(epoch, width, bases, case["s"])
        ctx.sample({"epoch": "%x" % epoch, "width": width, "bases": bases, "deltas": ev[:4]})

    def refusals(self, ctx, r, reader, path, make, n, bases, where):
        bad = [dict(count=c) for c in (n + 1, max(1, n - 1), 2 * n + 7) if c != n and c > 0] + [dict(tbase=r.randrange(1, 1 << bases))]
        for k in bad:
            write(path, make(**k))
            with cpu_limit(ctx, 20, where):
                try:
                    reader(path)
                except Exception as e:
                    ctx.count("refused")
                    ctx.check(isinstance(e, ValueError), "wrong-error", lambda: "%s: %r; %s" % (k, e, where))
                else:
                    ctx.fail("not-refused", "%s accepted; %s" % (k, where))


class C19(EpCheck):
    quick, thorough = 2400, 24000
    rule = ("a case tallies a T3 file with generated outcome pairs (mostly valid, all combinations, invalid and multi-bit ones, skewed for error rates of 0, 1 and in between; some files declare another width) and compares the matrix, garbage, count and error rate with a direct count; distinct by (size, pairs)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        m = lib()
        epoch = gen_epoch(r)
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, r.randrange(9, 100), r.randrange(100, 3000)])
        style = r.choice(["valid", "valid", "any", "equal", "opposite", "cross", "garbage"])
        single = [1, 2, 4, 8]

        def one():
            if style == "valid" or (style == "any" and r.random() < 0.3):
                return r.choice(single) << 4 | r.choice(single)
            if style == "any":
                return r.randrange(1, 256)
            k = r.randrange(4)
            if style == "equal":
                return single[k] << 4 | single[k]
            if style == "opposite":
                return single[k] << 4 | single[(k + 2) % 4] if r.random() < 0.9 else single[k] * 17
            if style == "cross":
                return single[k] << 4 | single[(k + r.choice([1, 3])) % 4]
            return r.choice([0x30, 0x03, 0xF1, 0x1F, 0xFF, 0x10, 0x01, 0x66, 0x81])
        entries = [one() for _ in range(n)]
        d = ctx.fresh()
        path = os.path.join(d, "%x" % epoch)
        width = 8 if r.random() < 0.85 else r.choice([0, 1, 4, 7, 9, 16, 32, 264])
        data = enc_t3(epoch, entries, width=width)
        write(path, data)
        where = "n=%d style=%s bits=%d entries=%s" % (n, style, width, bytes(entries[:12]).hex())
        log = os.path.join(ctx.fresh(), "log")
        with stderr_to(log):
            try:
                s = m.read_T3(path)
            except Exception:
                if width == 8:
                    raise
                ctx.count("other_widths_refused")
                return
        ctx.check((os.path.getsize(log) > 0) == (width != 8), "message", lambda: "%s; log %r" % (where, read(log)[:300]))
        ctx.count("other_widths_reported", width != 8)
        idx = {1: 0, 2: 1, 4: 2, 8: 3}
        mat, ga, gb = [0] * 16, 0, 0
        for e in entries:
            a, b = idx.get(e >> 4), idx.get(e & 15)
            if a is not None and b is not None:
                mat[4 * a + b] += 1
            ga += a is None
            gb += b is None
        ctx.check([int(x) for x in s.coinc_matrix] == mat, "matrix", lambda: "%s instead of %s; %s" % (list(s.coinc_matrix), mat, where))
        ctx.check([int(x) for x in s.garbage] == [ga, gb], "garbage", lambda: "%s instead of %s; %s" % (list(s.garbage), [ga, gb], where))
        ctx.check(int(s.okcount) == sum(mat), "okcount", lambda: "%s instead of %s; %s" % (s.okcount, sum(mat), where))
        er, gd = mat[0] + mat[5] + mat[10] + mat[15], mat[2] + mat[7] + mat[8] + mat[13]
        q = Fraction(er, er + gd) if er + gd else Fraction(1, 2)
        ctx.check(abs(Fraction(s.qber) - q) <= Fraction(5000001, 10 ** 10) and abs(s.qber * 1000 - round(s.qber * 1000)) < 1e-9, "error-rate",
                  lambda: "%r instead of %.6f (%d/%d); %s" % (s.qber, float(q), er, er + gd, where))
        ctx.check(read(path) == data, "file-touched", where)
        ctx.count("pairs_tallied", n)
        if n:
            ctx.distinct(n, style, case["s"])
        ctx.sample({"n": n, "style": style, "error_rate": s.qber})


class C20(C18):
    quick, thorough = 2000, 20000
    rule = "a case decodes a T4 file packed by an independent encoder with generated widths, short and extended index differences; half of the cases add altered counts and nonzero terminators, which must be refused; distinct by (widths, differences)"

    def run(self, case, ctx):
        r = random.Random(case["s"])
        m = lib()
        epoch = gen_epoch(r)
        width, bases = gen_widths(r)
        n = gen_n(r)
        ev, long = [], set()
        for k in range(n):
            c = r.random()
            if c < 0.5:
                d = r.randrange(0, max(1, (1 << width) - 2))
            elif c < 0.7:
                d = max(0, r.choice([0, 1, 2, (1 << width) - 3, (1 << width) - 2, (1 << width) - 1, 1 << width]))
            else:
                d = r.choice([r.randrange(1 << r.randrange(1, 33)), (1 << 32) - 1 - r.randrange(100), (1 << 31) + r.randrange(-50, 50)])
                d = min(d, (1 << 32) - 3)
            if r.random() < 0.15:
                long.add(k)
            ev.append((d, r.randrange(1 << bases)))
        d = ctx.fresh()
        path = os.path.join(d, "%x" % epoch)
        data = enc_t4(epoch, ev, width, bases, long=long, count=0 if r.random() < 0.1 else None)
        write(path, data)
        where = "width=%d bases=%d n=%d diffs=%s" % (width, bases, n, ev[:4])
        with cpu_limit(ctx, 60, where):
            t, b = m.read_T4(path)
        want, acc = [], 0
        for x, _ in ev:
            acc += x
            want.append(acc)
        got = [int(x) for x in list(t)]
        ctx.check(got == want, "index", lambda: "%s instead of %s (%d, %d); %s" % (got[:20], want[:20], len(got), len(want), where))
        check_bases(ctx, b, [q for _, q in ev], where)
        ctx.check(read(path) == data, "file-touched", where)
        if r.random() < 0.5:
            self.refusals(ctx, r, m.read_T4, path, lambda **k: enc_t4(epoch, ev, width, bases, long=long, **k), n, bases, where)
        ctx.count("events_compared", n)
        if ev:
            ctx.distinct(width, bases, case["s"])
        ctx.sample({"width": width, "bases": bases, "diffs": ev[:4]})


@contextlib.contextmanager
def stderr_to(path):
    """Process-level capture of standard error (log messages included)."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    old = os.dup(2)
    os.dup2(fd, 2)
    os.close(fd)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(old)


class C21(EpCheck):
    level = "fault_enumeration"
    quick, thorough = 480, 4800
    soft_limit = 200
    rule = ("a case takes one valid T1/T2/T3/T4 file with a declared count and reads it cut at every byte (up to 160 positions), with altered counts, with the final words removed and with the terminator overwritten; each read must fail or return the complete content within the CPU limit; distinct by (type, file, damage)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        m = lib()
        kind = ["T1", "T2", "T3", "T4"][case["i"] % 4]
        epoch = gen_epoch(r)
        n = r.choice([1, 2, 3, 4, 5, 6, 9, 17, 40])
        width, bases = gen_widths(r)
        if kind == "T1":
            ev = gen_t1_events(r, epoch, n)
            make = lambda **k: enc_t1(epoch, ev, **k)
            head, reader = 20, m.read_T1
        elif kind == "T2":
            ev, long = gen_t2(r, n, width, bases)
            make = lambda **k: enc_t2(epoch, ev, width, bases, long=long, **k)
            head, reader = 24, m.read_T2
        elif kind == "T3":
            ev = [r.choice([0x11, 0x12, 0x44, 0x48, 0x81, 0x33, r.randrange(1, 256)]) for _ in range(n)]
            make = lambda **k: enc_t3(epoch, ev, **k)
            head, reader = 16, m.read_T3
        else:
            ev = [(r.randrange(0, 1 << r.randrange(1, 31)), r.randrange(1 << bases)) for _ in range(n)]
            long = {k for k in range(n) if r.random() < 0.1}
            make = lambda **k: enc_t4(epoch, ev, width, bases, long=long, **k)
            head, reader = 20, m.read_T4
        d = ctx.fresh()
        path = os.path.join(d, "%x" % epoch)
        whole = make()

        def content(x):
            if kind == "T3":
                return ([int(v) for v in x.coinc_matrix], [int(v) for v in x.garbage], int(x.okcount), float(x.qber))
            return ([frac(v) if kind != "T4" else int(v) for v in x[0]], [int(v) for v in x[1]])
        write(path, whole)
        full = content(reader(path))
        ctx.check(kind == "T3" or len(full[0]) == n, "complete", "intact %s file of %d events: %r" % (kind, n, full))
        damaged = []
        cuts = list(range(len(whole)))
        for c in cuts if len(cuts) <= 160 else sorted(set(r.sample(cuts, 120) + list(range(head + 10)) + cuts[-30:])):
            damaged.append(("cut at byte %d of %d" % (c, len(whole)), whole[:c]))
        for c in sorted({1, 2, n - 1, n + 1, n + 2, n + 3, n + 4, 2 * n, n + 1000, (1 << 31) - 1} - {n, 0}):
            damaged.append(("count %d instead of %d" % (c, n), make(count=c)))
        if kind == "T1":
            damaged.append(("terminator overwritten", make(terminator=struct.pack("<II", r.randrange(1, 1 << 32), r.randrange(1 << 32)))))
            damaged.append(("terminator overwritten", make(terminator=struct.pack("<II", 0, 1 << r.randrange(32)))))
            damaged.append(("trailing event", make(terminator=make()[20:28] + b"\0" * 8)))
        if kind in ("T2", "T4"):
            damaged.append(("terminator detector bits", make(tbase=(1 << bases) - 1)))
            # terminator code overwritten by an extended or a short one
            w = bytearray(whole)
            for k in range(1, 5):
                w[-k] = 0
            damaged.append(("last word cleared", bytes(w)))
            for k in range(1, 5):
                w[-k] = 0xFF
            damaged.append(("last word set", bytes(w)))
        for what, data in damaged:
            write(path, data)
            where = "%s epoch=%#x n=%d width=%d bases=%d: %s" % (kind, epoch, n, width, bases, what)
            log = os.path.join(d, "log")
            with stderr_to(log), cpu_limit(ctx, 10, where):
                try:
                    got = content(reader(path))
                except Exception:
                    got = None
            ctx.count("damaged_files")
            if got is None:
                ctx.count("refused")
                ctx.distinct(kind, case["s"], what)
                continue
            if what.startswith("cut"):
                ctx.check(got == full, "half-read", lambda: "%s: returned %r instead of %r" % (where, got, full))
            elif what.startswith("last word"):
                # may still be a well-formed file: the declared number of events must be met
                ctx.check(kind == "T3" or len(got[0]) == n, "half-read", lambda: "%s: returned %d events" % (where, len(got[0])))
            elif kind == "T3":
                # the tally follows the declared count, the inconsistency is reported
                ctx.check(os.path.getsize(log) > 0, "silent", "%s: accepted without a message" % where)
            else:
                ctx.fail("half-read", "%s: returned %r" % (where, got))
            ctx.count("complete_reads")
            ctx.distinct(kind, case["s"], what)
        ctx.sample({"type": kind, "n": n, "bytes": len(whole), "damages": len(damaged)})


class C22(EpCheck):
    quick, thorough = 2400, 24000
    rule = "a case builds two directories of epoch files (runs with gaps, disjoint, identical, empty, around multiples of 2^4, 2^17, 2^32-1, some of more than 100 epochs) and compares the selection with a set computation, with and without a requested first epoch; distinct by (sets, first epoch)"

    def run(self, case, ctx):
        r = random.Random(case["s"])
        from fpfind.lib.utils import get_first_overlapping_epoch as sel
        base = r.choice([0, 9, 14, 0xFFFA, (1 << 17) - 3, r.randrange(1 << 32), 0xFFFFFFF0, 0xBA1F36C0, 0x99, 0xF])
        hi = (1 << 32) - 1
        span = r.choice([1, 3, 8, 20, 40])
        if case["i"] % 300 == 7:
            span = r.choice([150, 300, 700, 1100])
            ctx.count("long_runs")
        p1, p2 = r.choice([0, 0.5, 0.7, 0.9, 0.95, 1, 1]), r.choice([0.3, 0.7, 0.9, 1])
        if span > 100:
            p1, p2 = r.choice([1, 1, 0.999]), 1
        off = r.choice([0, 0, 0, 1, -2, 5, 30])
        s1 = {e for e in range(base, base + span) if r.random() < p1 and e <= hi}
        s2 = {e for e in range(max(0, base + off), base + off + span) if r.random() < p2 and e <= hi}
        d = ctx.fresh()
        for k, s in (("a", s1), ("b", s2)):
            os.mkdir(os.path.join(d, k))
            for e in s:
                write(os.path.join(d, k, "%x" % e), b"")
        first = r.choice([None, None, None, base, base + r.randrange(span + 2), max(0, base - 3), r.randrange(1 << 32)])
        if first is not None:
            first = min(first, hi)
        common = {e for e in s1 & s2 if first is None or e >= first}
        want = min(common) if common else None
        length = 0
        while want is not None and want + length in common:
            length += 1
        args = [os.path.join(d, "a"), os.path.join(d, "b")]
        if r.random() < 0.5:
            import pathlib
            args = [pathlib.Path(x) for x in args]
        fe = None if first is None else "%x" % first
        got = sel(*args, first_epoch=fe, return_length=True)
        single = sel(*args, first_epoch=fe)
        where = "common=%s first=%s" % (["%x" % e for e in sorted(common)][:30], fe)
        num = lambda e: None if e is None else int(e, 16)
        ctx.check(num(got[0]) == want, "first-epoch", lambda: "%r instead of %s; %s" % (got, want and "%x" % want, where))
        ctx.check(int(got[1]) == length, "length", lambda: "%r instead of %d; %s" % (got, length, where))
        ctx.check(num(single) == want, "first-epoch", lambda: "%r instead of %s; %s" % (single, want and "%x" % want, where))
        ctx.check(got[0] is None or os.path.exists(os.path.join(d, "a", got[0])), "name", lambda: "%r names no file; %s" % (got[0], where))
        if common:
            ctx.distinct(tuple(sorted(s1)), tuple(sorted(s2)), first)
        ctx.count("with_common_epoch", bool(common))
        ctx.sample({"common": ["%x" % e for e in sorted(common)][:8], "first": fe, "result": [str(got[0]), int(got[1])]})


class C23(EpCheck):
    quick, thorough = 1200, 12000
    rule = ("a case writes a run of consecutive epochs (crossing a multiple of 2^17 in half of the cases, with empty epochs) as T1 on one side and T2 on the other and reads both with generated start and skip; times must be the true ones up to one common constant; a quarter of the cases lacks an epoch and must fail; distinct by (start, skip, length)")

    def run(self, case, ctx):
        r = random.Random(case["s"])
        from fpfind.lib.utils import get_timestamp
        n = r.choice([1, 2, 3, 4, 6])
        if r.random() < 0.5:
            start = (r.randrange(1, 1 << 15) << 17) - r.randrange(0, n + 2)
        else:
            start = r.choice([0, 1, r.randrange((1 << 32) - 20), 0xBA1F36C0, (1 << 17) - 1, (1 << 32) - n - 4])
        skip = r.choice([0, 0, 1, 2, 3])
        total = skip + n + r.choice([0, 1])
        missing = r.randrange(skip, skip + n) if case["i"] % 4 == 3 else None
        width, bases = r.choice([(15, 4), (20, 4), (12, 2)])
        d = ctx.fresh()
        want = {"T1": [], "T2": []}
        for k in ("T1", "T2"):
            os.mkdir(os.path.join(d, k))
        for j in range(total):
            e = start + j
            if e > 0xFFFFFFFF:
                break
            e1 = gen_t1_events(r, e, r.choice([0, 1, 3, 20]))
            d2, long = gen_t2(r, r.choice([0, 1, 3, 20]), width, bases)
            use = skip <= j < skip + n
            if j != missing:
                write(os.path.join(d, "T1", "%x" % e), enc_t1(e, e1))
                write(os.path.join(d, "T2", "%x" % e), enc_t2(e, d2, width, bases, long=long))
            if use:
                want["T1"] += [Fraction((e << 37) + t, 256) for t, _ in e1]
                acc = e << 32
                for x, _ in d2:
                    acc += x
                    want["T2"].append(Fraction(acc, 8))
        offsets = set()
        for k in ("T1", "T2"):
            where = "%s start=%#x skip=%d n=%d" % (k, start, skip, n)
            try:
                got = get_timestamp(os.path.join(d, k), k, "%x" % start, skip, n)
            except Exception as e:
                ctx.check(missing is not None, "failed", lambda: "%r; %s" % (e, where))
                ctx.count("refused_missing_epoch")
                continue
            ctx.check(missing is None, "missing-accepted", lambda: "epoch %x missing; returned %d events; %s" % (start + missing, len(got), where))
            ctx.check(len(got) == len(want[k]), "event-count", lambda: "%d instead of %d events; %s" % (len(got), len(want[k]), where))
            for x, (a, w) in enumerate(zip(got, want[k])):
                offsets.add(frac(a) - w)
                if len(offsets) > 1:
                    ctx.fail("timeline", "event %d of %d: offset changes, %s; %s" % (x, len(got), [float(o) for o in offsets], where))
            ctx.count("events_compared", len(got))
        ctx.distinct(start, skip, n, missing, case["s"])
        ctx.count("crossing_2^17", (start + skip) >> 17 != (start + skip + n - 1) >> 17)
        ctx.sample({"start": "%x" % start, "skip": skip, "epochs": n, "events": [len(want["T1"]), len(want["T2"])]})


ZONES = ["UTC", "XXX-5:30", "PST8PDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "SGT-8", "ABC11", "NZST-12NZDT,M9.5.0,M4.1.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]


class C24(EpCheck):
    quick, thorough = 2400, 24000
    rule = "a case converts a batch of generated epochs and dates (epoch edges, second edges, daylight-saving changes) in one of 8 time zones and compares with exact integer arithmetic; distinct by (zone, epoch or date)"

    def run(self, case, ctx):
        r = random.Random(case["s"])
        m = lib()
        zone = ZONES[case["i"] % len(ZONES)]
        os.environ["TZ"] = zone
        time.tzset()
        try:
            for _ in range(20):
                self.one(ctx, r, m, zone)
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()

    def one(self, ctx, r, m, zone):
        e = r.choice([0, 1, r.randrange(1 << 32), r.randrange(1 << 32), (1 << 32) - 1, r.randrange(1 << 12), r.randrange(1 << 16) << 16])
        name = "%x" % e
        if e:
            ctx.check(m.epoch2int(name) == e and m.int2epoch(e) == name, "hex", lambda: "%r %r for %#x" % (m.epoch2int(name), m.int2epoch(e), e))
        ctx.check(m.epoch2int(m.int2epoch(e)) == e and m.epoch2int("%08x" % e) == e, "hex", lambda: "%#x" % e)
        sec = Fraction(e << 29, 10 ** 9)
        date = m.epoch2date(name if r.random() < 0.5 else "%08x" % e)
        off = Fraction(date.timestamp()) - sec
        # local wall-clock fields, independently of timestamp()
        lt = time.localtime(int(sec + Fraction(1, 10 ** 5)))
        ctx.check(abs(off) < Fraction(1, 10 ** 5), "date", lambda: "epoch %x is %s s, got %s = %s s in %s" % (e, float(sec), date, date.timestamp(), zone))
        near = abs(sec - round(sec)) < Fraction(1, 10 ** 4)
        ctx.check(near or (date.year, date.month, date.day, date.hour, date.minute, date.second) == tuple(lt[:6]), "local-date",
                  lambda: "epoch %x: %s instead of %s in %s" % (e, date, tuple(lt[:6]), zone))
        back = m.date2epoch(date)
        ctx.check(len(back) == 8 and int(back, 16) <= e and int(back, 16) >= e - 2, "round-trip", lambda: "epoch %x -> %s -> %s in %s" % (e, date, back, zone))
        # dates
        s = r.choice([r.randrange(0, 2305843008), r.randrange(1 << 11) << 20, r.randrange(1, 1 << 11) * 1048576 + r.choice([-1, 1])])
        us = r.choice([0, 0, 1, 999999, r.randrange(10 ** 6)])
        if r.random() < 0.3:
            dt = datetime.datetime.fromtimestamp(s, datetime.timezone(datetime.timedelta(minutes=r.choice([0, 330, -480])))).replace(microsecond=us)
        else:
            dt = datetime.datetime.fromtimestamp(s).replace(microsecond=us)
        if int(dt.timestamp()) != s:
            return              # fold lost by replace()
        got = m.date2epoch(dt)
        exact = s * 1953125 >> 20
        ok = [exact, exact - 1] if s * 1953125 % (1 << 20) == 0 else [exact]
        ctx.check(len(got) == 8 and got == got.lower() and int(got, 16) in ok, "epoch-of-date", lambda: "%s = %d s: %r instead of %08x in %s" % (dt, s, got, exact, zone))
        ctx.distinct(zone, e, s)
        if r.random() < 0.1:
            t0 = int(time.time())
            got = int(m.date2epoch(), 16)
            t1 = int(time.time())
            ctx.check((t0 * 1953125 >> 20) - 1 <= got <= (t1 * 1953125 >> 20), "current-epoch", lambda: "%x at %d..%d" % (got, t0, t1))
            ctx.count("current_epoch_queries")
        ctx.sample({"zone": zone, "epoch": name, "date": str(date), "epoch_of": [s, got]})
