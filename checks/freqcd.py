"""C01-C09: freqcd driven as a black box."""
import json
import fcntl
import os
import random
import shutil
import signal
import struct
import subprocess
import time

from vlib import core, fq
from vlib.core import Check, HarnessError
from vlib.fq import M54

UMASK = os.umask(0)
os.umask(UMASK)


class Base(Check):
    data_limit = 0            # sanitizer runtimes reserve terabytes of shadow

    def prepare(self, shared):
        shared["exe"] = fq.build(os.path.join(shared["tmp"], "freqcd"))

    def setup(self, ctx):
        self.exe = ctx.shared["exe"]


def corr_args(r, f, legacy, decimal=None):
    """A random spelling of the options for a correction ('decimal': value for -d)."""
    opts = []
    if decimal is not None:
        opts = r.choice([["-d", "-f", str(decimal)], ["-f", str(decimal), "-d"], ["-df", str(decimal)], ["-d", "-f%d" % decimal]])
    elif f != 0 or r.random() < 0.5:
        opts = r.choice([["-f", str(f)], ["-f%d" % f]])
    if legacy:
        k = r.random()
        if opts and k < 0.25:
            opts = ["-x" + opts[0][1:]] + opts[1:]        # joined, e.g. -xdf 568
        else:
            opts = ["-x"] + opts if k < 0.6 else opts + ["-x"]
    if opts and r.random() < 0.04:
        return opts + [r.choice([o for o in opts if o in ("-x", "-d")] or ["--"])]       # flags given twice
    if opts and r.random() < 0.04:
        opts = r.choice([["-f", str(r.randrange(-1000, 1000))] + opts if (decimal is not None or f) else opts, opts + ["--"]])   # the last value counts
    return opts


def pick_n(r, big=3000):
    return r.choice([0, 1, 2, 3, 10, 50, 200, 1023, 1024, 1025, r.randrange(1, 100), r.randrange(1, 400), r.randrange(1, big)])


class C01(Base):
    quick, thorough = 6000, 60000
    rule = ("a case is one freqcd run on a generated time-ordered stream (gap profiles from 0 to just below 2^54 units, starts near 0, random and near rollover) "
            "with one correction spelling; non-trivial = at least two events, counted distinct by (gap profile, correction, option form, length class, span class)")
    assumptions = ("events are 8-byte words as documented; 'time-ordered' is understood modulo 2^54",)

    def make(self, i, r, tier):
        c = {"s": r.randrange(1 << 40), "n": pick_n(r), "legacy": r.random() < 0.4}
        if r.random() < 0.35:
            d = r.choice([0, 1, -1, 568, -568, 1220703, -1220703, 1220702, r.randrange(-1220703, 1220704), r.randrange(-20, 21)])
            c["d"] = d
            c["f"] = fq.decimal_units(d)
        else:
            c["f"] = fq.gen_corr(r)
        return c

    def run(self, case, ctx):
        r = random.Random(case["s"])
        words, profile = fq.gen_words(r, case["n"])
        args = corr_args(r, case["f"], case["legacy"], case.get("d"))
        data = fq.encode(words, case["legacy"])
        rc, out, err = fq.simple(ctx, self.exe, args, data)
        ctx.count("runs")
        where = "args=%s profile=%s" % (args, profile)
        ctx.check(rc == 0, "status", "exit status %s, stderr %r, %s" % (rc, err, where))
        ctx.check(len(out) == len(data), "size", "%d bytes in, %d bytes out, %s" % (len(data), len(out), where))
        if case["f"] == 0:
            ctx.check(out == data, "identity", "zero correction changed the stream, " + where)
        wout = fq.decode(out, case["legacy"])
        worst = fq.check_law(ctx, words, wout, [(0, case["f"])], where=where)
        span = sum(((words[i + 1] >> 10) - (words[i] >> 10)) & M54 for i in range(len(words) - 1)).bit_length()
        rolled = any((words[i + 1] >> 10) < (words[i] >> 10) for i in range(len(words) - 1))
        ctx.count("rollovers_seen", rolled)
        if len(words) > 1:
            ctx.distinct(profile, case["f"], "d" in case, case["legacy"], len(words).bit_length(), span)
        ctx.sample({"args": args, "events": len(words), "span_bits": span, "largest_error_units": worst})


class C02(Base):
    quick, thorough = 800, 8000
    rule = ("a case is one stream run once from a regular file and again under 3 other delivery schedules (byte-wise, torn events, buffer-boundary sizes, random pauses; pipe/FIFO/socket/file, "
            "stdout/-o); some with a consumer that leaves its 4 KB pipe full; outputs must be byte-identical; distinct by (handle kinds, split style, exact read sizes)")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "n": r.choice([1, 2, 5, 20, 60, 150, 400, 1024, 1030, 2100, r.randrange(1, 600)]), "legacy": r.random() < 0.3,
                "f": fq.gen_corr(r), "tail": r.choice([0, 0, 0, r.randrange(1, 8)]), "pause": i % 37 == 5}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        profile = r.choice(["typical", "slow", "second", "tiny", "mixed", "typical", "edge", "hour", "huge"])
        words, profile = fq.gen_words(r, case["n"], profile)
        data = fq.encode(words, case["legacy"]) + bytes(r.randrange(256) for _ in range(case["tail"]))
        args = corr_args(r, case["f"], case["legacy"])
        rc, ref, err = fq.simple(ctx, self.exe, args, data)
        ctx.check(rc == 0, "status", "status %s %r" % (rc, err))
        for v in range(3):
            inmode = r.choice(["pipe", "pipe", "fifo", "socket", "file", "pipe"])
            outmode = r.choice(["redirect", "file", "pipe", "fifo"])
            p = fq.Proc(ctx, self.exe, args, inmode=inmode, data=data, outmode=outmode,
                        freq=r.choice([None, None, None, "fifo"]))
            style, sizes = "whole", []
            # a consumer that reads nothing until its small pipe is full
            slow = p.slow_consumer = outmode in ("pipe", "fifo") and r.random() < 0.4
            if slow:
                try:
                    fcntl.fcntl(p.ofd, 1031, 4096)      # F_SETPIPE_SZ
                    ctx.count("slow_consumers")
                except OSError:
                    pass                                # it holds more already
            try:
                if slow and inmode == "file" and len(data) > 4096:
                    time.sleep(0.02)
                if inmode not in ("file", "redirect"):
                    style = None
                    if len(data) > 4000:
                        style = r.choice(["mixed", "big", "buffer", "torn" if len(data) < 9000 else "big"])
                    sizes, style = fq.chunks(r, len(data), style)
                    pos, pauses = 0, ({r.randrange(len(sizes))} if case["pause"] and v == 0 else set())
                    wait = r.random() < 0.85 or slow
                    for j, c in enumerate(sizes):
                        if not p.feed(data[pos:pos + c], wait):
                            break
                        if outmode in ("pipe", "fifo") and not slow:
                            p.read_out()
                        pos += c
                        if j in pauses:
                            time.sleep(0.55)
                        elif r.random() < 0.02:
                            time.sleep(0.002)
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            where = "in=%s out=%s split=%s sizes=%s args=%s" % (inmode, outmode, style, sizes[:40], args)
            ctx.check(rc == 0, "status", "exit status %s %r %s" % (rc, err, where))
            if out != ref:
                k = next((j for j in range(min(len(out), len(ref))) if out[j] != ref[j]), min(len(out), len(ref)))
                ctx.fail("delivery-dependent", "output differs from the one-piece run at byte %d (lengths %d, %d): event %s vs %s; %s"
                         % (k, len(out), len(ref), out[k // 8 * 8:k // 8 * 8 + 8].hex(), ref[k // 8 * 8:k // 8 * 8 + 8].hex(), where))
            ctx.count("schedules")
            ctx.count("reads_scheduled", len(sizes))
            ctx.count("oracle_evaluations")
            ctx.distinct(inmode, outmode, style, tuple(sizes))
        ctx.sample({"events": len(words), "profile": profile, "last_sizes": sizes[:20], "bytes": len(ref)})


def freq_line(r):
    """(bytes of one line without newline, value or None)."""
    k = r.random()
    if k < 0.55:
        v = fq.gen_corr(r)
        s = str(v)
        if r.random() < 0.1:
            s = ("-" if v < 0 else "") + "0" * r.randrange(1, 40) + str(abs(v))
        return s.encode(), v
    if k < 0.9:
        s = r.choice(["", "", "abc", "12x", "x12", "1.5", "1e3", "0x10", "--5", "5-", "-", "+", "- 5", "12 34", "12\r", "NaN", "inf",
                      "2097152", "-2097152", "2097153", "-3000000", "4294967296", "4294967297", "-4294967295", "2147483647", "2147483648", "-2147483648",
                      "-2147483647", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "18446744073709551621", "8589934597", "5;", "#7"])
        return s.encode(), None
    if k < 0.94:
        n = 99 * r.choice([1, 1, 1, 2, 2, 3, 5]) + r.choice([0, 0, 0, 0, -2, -1, 1, 2])    # whole reads of the correction buffer
        return (r.choice(["x", "9", "-", " 1", "0"]) * n)[:n - 1].encode() + b"y", None
    if k < 0.97:
        n = r.randrange(60, 110)
        return (r.choice(["x", "9", "-", " 1"]) * n)[:n].encode() + b"y", None
    n = r.choice([150, 99 * 2, 99 * 3 + 1, 200, 297, 500])
    return (b"z" * n + str(fq.gen_corr(r)).encode()), None


class History:
    """A random interleaving of event pieces and correction-stream pieces, executed with
    hand-over synchronisation, with the resulting correction segments."""
    def __init__(self, r, n, legacy, f0, nlines, profile=None, close=None):
        self.words, self.profile = fq.gen_words(r, n, profile)
        self.data = fq.encode(self.words, legacy)
        lines = [freq_line(r) for _ in range(nlines)]
        self.lines = lines
        stream = b"".join(s + b"\n" for s, _ in lines)
        if r.random() < 0.3:
            stream += r.choice([b"12", b"-", b"77777", b"q"])     # unterminated rest
        # correction stream pieces
        fs, pos = [], 0
        while pos < len(stream):
            c = r.choice([1, 1, 2, 3, 5, 8, 20, 60, 98, 99, 100, 150, r.randrange(1, 40)])
            if r.random() < 0.4:
                e = stream.find(b"\n", pos)
                c = (e + 1 - pos) if e >= 0 else len(stream) - pos
            fs.append(stream[pos:pos + c])
            pos += c
        sizes, self.style = fq.chunks(r, len(self.data), None if n < 120 else r.choice(["mixed", "big", "torn" if n < 700 else "buffer"]))
        ops = ["e"] * len(sizes) + ["f"] * len(fs)
        how = r.random()
        if how < 0.7:
            r.shuffle(ops)
        elif how < 0.85:
            ops.sort()
        else:
            ops.sort(reverse=True)
        self.sizes, self.fs, self.ops = sizes, fs, ops
        self.close_at = r.randrange(len(ops) + 1) if (close if close is not None else r.random() < 0.3) else None
        self.f0 = f0

    def execute(self, p, closed_ok=True):
        sizes, fs = iter(self.sizes), iter(self.fs)
        pos, pending, discarding = 0, b"", False
        f = self.f0
        segs = [(0, f)]
        self.applied = []
        for k, op in enumerate(self.ops):
            if self.close_at == k:
                p.close_freq()
                pending = None
            if op == "e":
                c = next(sizes)
                if not p.feed(self.data[pos:pos + c]):
                    break
                pos += c
            else:
                piece = next(fs)
                if pending is None:
                    continue
                if not p.feed_freq(piece):
                    break
                pending += piece
                *done, pending = pending.split(b"\n")
                for line in done:
                    v = self.value(line)
                    if v is not None:
                        self.applied.append((pos // 8, v))
                        if v != f:
                            f = v
                            first = pos // 8        # events not complete yet use the new value
                            if segs[-1][0] == first:
                                segs[-1] = (first, f)
                            else:
                                segs.append((first, f))
        # a correction between the reference event and the first event has no effect
        return segs

    def value(self, line):
        for s, v in self.lines:
            if s == line:
                return v
        raise HarnessError("line lost in model: %r" % line)


class C03(Base):
    quick, thorough = 2400, 24000
    rule = ("a case is one run on arbitrary events (ordered or not, any payload bits, optional incomplete last event) with a static or run-time-updated correction under a random delivery schedule; the event log checker matches "
            "output events one to one with input events; distinct by (stream kind, length, tail, delivery sizes)")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "n": pick_n(r, 2500), "legacy": r.random() < 0.4, "tail": r.choice([0, r.randrange(1, 8)]),
                "ordered": r.random() < 0.7, "dyn": r.random() < 0.35, "f": fq.gen_corr(r)}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        n = case["n"]
        args = corr_args(r, case["f"], case["legacy"])
        if case["dyn"]:
            n = min(n, 300)
            h = History(r, n, case["legacy"], case["f"], r.randrange(1, 8))
            words = h.words
            p = fq.Proc(ctx, self.exe, args, inmode=r.choice(["pipe", "fifo"]), outmode=r.choice(["redirect", "file"]), freq="fifo")
            try:
                h.execute(p)
                tail = bytes(r.randrange(256) for _ in range(case["tail"]))
                p.feed(tail)
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            kind, sizes = "dyn-" + h.style, h.sizes
            ordered = True
        else:
            ordered = case["ordered"]
            if ordered:
                words, kind = fq.gen_words(r, n)
            else:
                words, kind = [r.randrange(1 << 64) for _ in range(n)], "unordered"
            data = fq.encode(words, case["legacy"]) + bytes(r.randrange(256) for _ in range(case["tail"]))
            inmode = r.choice(["redirect", "file", "pipe", "socket"])
            p = fq.Proc(ctx, self.exe, args, inmode=inmode, data=data, outmode=r.choice(["redirect", "pipe", "file"]))
            sizes = []
            try:
                if inmode in ("pipe", "socket"):
                    sizes, _ = fq.chunks(r, len(data), None if len(data) < 3000 else r.choice(["big", "buffer", "mixed"]))
                    pos = 0
                    for c in sizes:
                        if not p.feed(data[pos:pos + c]):
                            break
                        p.read_out()
                        pos += c
                rc, out, err = p.finish()
            finally:
                p.cleanup()
        ctx.count("runs")
        where = "args=%s kind=%s sizes=%s tail=%d" % (args, kind, sizes[:30], case["tail"])
        ctx.check(len(out) % 8 == 0, "torn-event", "output of %d bytes ends inside an event; %s" % (len(out), where))
        wout = fq.decode(out, case["legacy"])
        ctx.check(len(wout) == len(words), "event-count", "%d complete events in, %d out; %s" % (len(words), len(wout), where))
        for i, (a, b) in enumerate(zip(words, wout)):
            if (a ^ b) & 1023:
                ctx.fail("payload", "event %d: %016x -> %016x; %s" % (i, a, b, where))
        ctx.count("events_matched", len(words))
        if ordered:
            fq.check_order(ctx, words, wout)
            ctx.count("order_checked", len(words))
        if words:
            ctx.distinct(kind, len(words), case["tail"], tuple(sizes), case["f"])
        ctx.sample({"kind": kind, "events": len(words), "tail": case["tail"], "sizes": sizes[:20]})


class C04(Base):
    quick, thorough = 2400, 24000
    rule = ("a case is one history of event pieces and correction-stream pieces (valid, ill-formed, out-of-range, overlong, partial lines; stream closing; correction file) delivered with hand-over synchronisation; the output must follow the "
            "reference model segment by segment; distinct by (operation order, pieces)")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "n": r.choice([1, 2, 5, 20, 60, 100, 200, 1030, r.randrange(1, 150)]), "legacy": r.random() < 0.25,
                "f": fq.gen_corr(r), "lines": r.choice([0, 1, 2, 3, 5, 8, 15]), "file": r.random() < 0.15, "dec": r.random() < 0.15}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        f, d = case["f"], None
        if case["dec"]:
            d = r.randrange(-1220703, 1220704)
            f = fq.decimal_units(d)
        args = corr_args(r, f, case["legacy"], d)
        if case["file"]:
            words, profile = fq.gen_words(r, case["n"])
            lines = [freq_line(r) for _ in range(case["lines"])]
            content = b"".join(s + b"\n" for s, _ in lines) + r.choice([b"", b"123", b"-5"])
            p = fq.Proc(ctx, self.exe, args, inmode="pipe", freq=content)
            try:
                self.wait_consumed(ctx, p, len(content))
                data = fq.encode(words, case["legacy"])
                for c in fq.chunks(r, len(data), None if len(data) < 2000 else "big")[0]:
                    p.feed(data[:c])
                    data = data[c:]
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            vals = [v for _, v in lines if v is not None]
            segs = [(0, vals[-1] if vals else f)]
            desc = "correction file %r" % content[:300]
            applied = vals
            key = (content, profile)
        else:
            h = History(r, case["n"], case["legacy"], f, case["lines"])
            words = h.words
            p = fq.Proc(ctx, self.exe, args, inmode=r.choice(["pipe", "pipe", "fifo", "socket"]), freq=r.choice(["fifo", "fifo", "late"]),
                        outmode=r.choice(["redirect", "file"]))
            try:
                segs = h.execute(p)
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            applied = h.applied
            desc = "ops=%s lines=%s pieces=%s sizes=%s close_at=%s" % ("".join(h.ops)[:200], [s[:30] for s, _ in h.lines], [s[:20] for s in h.fs][:40], h.sizes[:60], h.close_at)
            key = ("".join(h.ops), tuple(h.fs), tuple(h.sizes), h.close_at)
        ctx.count("runs")
        where = "args=%s segments=%s %s" % (args, segs[:20], desc)
        ctx.check(rc == 0, "status", "exit status %s %r %s" % (rc, err, where))
        wout = fq.decode(out, case["legacy"])
        segs = [(a, b) for a, b in segs if a < max(len(words), 1)] or [(0, f)]
        fq.check_law(ctx, words, wout, segs, where=where)
        ctx.count("updates_applied", len(applied))
        ctx.count("segments", len(segs))
        if len(words) > 1:
            ctx.distinct(key)
        ctx.sample({"segments": segs[:10], "applied": applied[:10], "events": len(words)})

    @staticmethod
    def wait_consumed(ctx, p, size):
        """Waits until the process has read the correction file completely (file offset)."""
        path = os.path.join(p.dir, "freq")
        t0 = time.time()
        while time.time() - t0 < fq.LIMIT:
            try:
                for fd in os.listdir("/proc/%d/fd" % p.p.pid):
                    if os.readlink("/proc/%d/fd/%s" % (p.p.pid, fd)) == path:
                        for line in open("/proc/%d/fdinfo/%s" % (p.p.pid, fd)):
                            if line.startswith("pos:") and int(line.split()[1]) >= size:
                                return
            except OSError:
                pass
            if p.p.poll() is not None:
                return
            time.sleep(0.0005)
        ctx.fail("stalled", "correction file not read")


GOOD = ["0", "1", "-1", "2097151", "-2097151", "2097150", "1048576", "-1048576", "007", "-0", "100000"]
BAD = ["2097152", "-2097152", "2097153", "-2097153", "3000000", "-4000000", "2147483647", "2147483648", "-2147483648", "-2147483647", "-2147483649", "4294967295", "4294967296", "4294967297",
       "-4294967296", "-4294967295", "8589934592", "8589934597", "6442450949", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
       "18446744073709551621", "99999999999999999999999", "-99999999999999999999999", "", "abc", "x1", "12x", "1e6", "1e3", "1.5", "0.0", "0x10", "12abc", "1,000", "5-", "--5", "+-5", "5+5", "-", "+", "nan", "inf", "1_000", "12\n34", "1;2", "5 ", "5\n", "5\r\n", "7\t", " ", "\n", "5 6", "- 5"]
GOODD = ["0", "1", "-1", "568", "1220703", "-1220703", "1220702", "-1220702", "1000000"]
BADD = ["1220704", "-1220704", "1220705", "-1300000", "2097151", "-2097151", "2097152", "1500000000", "2000000000", "-2000000000", "2147483646", "1249999999", "-1249999999", "1250000000", "2500000000", "-2500000000",
        "2499999999", "-2499999999"] + [b for b in BAD if b not in GOODD]


class C05(Base):
    quick, thorough = 3000, 30000
    rule = ("a case is one command line with a correction argument (listed edge cases first, then random strings: integers of all magnitudes around 2^21, 2^31, 2^32, 2^63, 2^64 and decorated numbers), with or without -d, options in random order, "
            "existing output file; distinct by (argument, -d, order)")

    def make(self, i, r, tier):
        lst = [(g, 0, 1) for g in GOOD] + [(b, 0, 0) for b in BAD] + [(g, 1, 1) for g in GOODD] + [(b, 1, 0) for b in BADD]
        if i < 2 * len(lst):
            s, d, ok = lst[i % len(lst)]
            return {"a": s, "d": d, "ok": ok, "s": r.randrange(1 << 40)}
        d = int(r.random() < 0.5)
        k = r.random()
        if k < 0.75:
            base = r.choice([0, 1 << 21, -(1 << 21), 1220703, -1220703, 1 << 31, -(1 << 31), 1 << 32, -(1 << 32), 1 << 33, 1 << 63, -(1 << 63), 1 << 64, int(1.25e9), int(2.5e9), 10 ** 9])
            v = base + r.choice([r.randrange(-3, 4), r.randrange(-10 ** 6, 10 ** 6), r.randrange(-2097151, 2097152)])
            if r.random() < 0.1:
                v *= r.randrange(1, 1000)
            lim = 1220703 if d else 2097151
            return {"a": str(v), "d": d, "ok": int(abs(v) <= lim), "s": r.randrange(1 << 40)}
        s = str(r.randrange(-2000000, 2000001)) + r.choice(["x", ".", ".0", "e2", ",", "-", "+1", "ppm", "_", "f", "L", "u", "\n1", "%", "/2", " ", "\n", "\r", " 0"])
        if r.random() < 0.3:
            s = r.choice(["x", "=", "$", "_", ".", "e", "0x", "#"]) + str(r.randrange(1, 2000000))
        return {"a": s, "d": d, "ok": 0, "s": r.randrange(1 << 40)}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        a = case["a"]
        d = ctx.fresh("r")
        words, _ = fq.gen_words(r, r.randrange(1, 20), "second")
        data = fq.encode(words)
        with open(os.path.join(d, "in"), "wb") as f:
            f.write(data)
        old = bytes(r.randrange(256) for _ in range(r.randrange(0, 500)))
        useout = r.random() < 0.6
        groups = [["-f", a] if not a or r.random() < 0.7 else ["-f" + a]]
        if case["d"]:
            groups.append(["-d"])
        if r.random() < 0.3:
            groups.append(["-x"])
        usein = r.random() < 0.5
        if usein:
            groups.append(["-i", "in"])
        if useout:
            with open(os.path.join(d, "out"), "wb") as f:
                f.write(old)
            groups.append(["-o", "out"])
        if r.random() < 0.2:
            with open(os.path.join(d, "fr"), "wb") as f:
                f.write(b"5\n")
            if not case["ok"]:
                groups.append(["-F", "fr"])
        r.shuffle(groups)
        args = [x for g in groups for x in g]
        with open(os.path.join(d, "in"), "rb") as fin, open(os.path.join(d, "stdout"), "wb") as so, open(os.path.join(d, "stderr"), "wb") as se:
            try:
                p = subprocess.run([self.exe] + args, stdin=fin, stdout=so, stderr=se, cwd=d, timeout=fq.LIMIT)
            except subprocess.TimeoutExpired:
                ctx.fail("hang", "args=%r" % args)
        so = open(os.path.join(d, "stdout"), "rb").read()
        se = open(os.path.join(d, "stderr"), "rb").read()
        fo = open(os.path.join(d, "out"), "rb").read() if useout else None
        where = "args=%r status=%s stderr=%r" % (args, p.returncode, se[:200])
        ctx.count("accepted_expected" if case["ok"] else "refused_expected")
        if case["ok"]:
            ctx.check(p.returncode == 0, "valid-refused", where)
            got = fo if useout else so
            leg = any(g == ["-x"] for g in groups)
            f = fq.decimal_units(int(a)) if case["d"] else int(a)
            if not leg:
                fq.check_law(ctx, words, fq.decode(got), [(0, f)], where=where)
            ctx.check(len(got) == len(data), "size", where)
        else:
            ctx.check(p.returncode != 0, "invalid-accepted", where + " first output %s" % ((fo if useout else so)[:32].hex()))
            ctx.check(p.returncode > 0, "crash", where)
            ctx.check(se.strip() != b"", "no-message", where)
            ctx.check(so == b"", "output-despite-refusal", where)
            if useout:
                ctx.check(fo == old, "output-file-touched", where)
        ctx.distinct(a, case["d"], tuple(g[0] for g in groups))
        ctx.sample({"args": args, "status": p.returncode, "stderr": se.decode("latin1")[:80]})


SAN = {
    "asan": ("/usr/bin/gcc", "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fsanitize=float-cast-overflow,float-divide-by-zero -fno-sanitize-recover=all", "-lm"),
    "msan": ("clang", "-g -O1 -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins -fno-sanitize-recover=all", "-lm"),
    "ubsan": ("clang", "-g -O1 -fsanitize=undefined,float-cast-overflow -fno-sanitize-recover=all -D_FORTIFY_SOURCE=0", "-lm"),
    "plain": ("/usr/bin/gcc", "-g -O0", "-lm"),
}
SANENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:color=never:handle_segv=1",
          "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=0:color=never", "MSAN_OPTIONS": "exitcode=99:color=never"}
REPORT = (b"AddressSanitizer", b"MemorySanitizer", b"runtime error:", b"UndefinedBehaviorSanitizer", b"ERROR SUMMARY: 1", b"Invalid read", b"Invalid write",
          b"uninitialised", b"stack smashing", b"buffer overflow detected")


class C06(Base):
    quick, thorough = 1000, 12000
    soft_limit = 240
    rule = ("a case is one run of an instrumented build (gcc ASan+UBSan, clang MSan, clang UBSan, valgrind memcheck on the plain build) on hostile command lines, streams, corrections, file names and schedules; any report fails; "
            "distinct by (build, scenario, parameters)")

    def prepare(self, shared):
        for k, (cc, flags, link) in SAN.items():
            shared[k] = fq.build(os.path.join(shared["tmp"], "freqcd-" + k), flags, cc, link)

    def setup(self, ctx):
        self.exes = {k: ctx.shared[k] for k in SAN}

    def make(self, i, r, tier):
        build = ["asan", "msan", "asan", "ubsan", "msan", "asan", "ubsan", "msan"][i % 8]
        if i % 64 == 63:
            build = "valgrind"
        if i % 125 == 6:
            return {"s": r.randrange(1 << 40), "build": r.choice(["asan", "ubsan", "ubsan"]), "scenario": "ages"}
        return {"s": r.randrange(1 << 40), "build": build,
                "scenario": r.choice(["stream", "stream", "dynamic", "dynamic", "dynamic", "names", "args", "args", "firstpartial", "freqfirst", "longline"])}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        b = case["build"]
        env = dict(os.environ, **SANENV)
        pre = []
        exe = self.exes.get(b)
        if b == "valgrind":
            exe = self.exes["plain"]
            pre = ["valgrind", "--error-exitcode=99", "-q", "--track-origins=no"]
        sc = case["scenario"]
        f = fq.gen_corr(r)
        legacy = r.random() < 0.3
        desc = ""
        if sc == "ages":
            # the accumulated correction passes through the whole range of 64-bit numbers
            import array
            f = r.choice([1, -1]) * r.choice([2097151, 2097151, 2097150, 2000000])
            step, t = r.choice([1, 3, 1000]), r.randrange(1 << 54)
            words = array.array("Q", [((t - step * i) & fq.M54) << 10 for i in range(9 << 19)])
            args = corr_args(r, f, legacy)
            p = fq.Proc(ctx, exe, args, inmode="redirect", data=words.tobytes(), env=env)
            rc, out, err = p.finish()
        elif sc == "stream":
            n = pick_n(r, 2500)
            words = fq.gen_words(r, n)[0] if r.random() < 0.7 else [r.randrange(1 << 64) for _ in range(n)]
            data = fq.encode(words) + bytes(r.randrange(8))
            args = corr_args(r, f, legacy)
            p = fq.Proc(ctx, exe, args, inmode=r.choice(["pipe", "file", "redirect"]), data=data, env=env, pre=pre, outmode=r.choice(["redirect", "file"]))
            if p.inmode == "pipe":
                for c in fq.chunks(r, len(data), None if len(data) < 800 else "big")[0]:
                    if not p.feed(data[:c]):
                        break
                    data = data[c:]
            rc, out, err = p.finish()
        elif sc in ("dynamic", "freqfirst", "longline", "firstpartial"):
            h = History(r, r.choice([0, 1, 3, 30, 100]), legacy, f, r.randrange(0, 12))
            p = fq.Proc(ctx, exe, corr_args(r, f, legacy), inmode=r.choice(["pipe", "fifo"]), freq="fifo", env=env, pre=pre)
            try:
                if sc == "freqfirst":
                    p.feed_freq(r.choice([b"\n", b"5\n", b"-", b"\n\n\n", b"9999999999\n"]))
                if sc == "firstpartial":
                    p.feed(h.data[:r.randrange(1, 8)])
                    p.feed_freq(b"1000\n-5\n")
                if sc == "longline":
                    n = r.choice([98, 99, 100, 101, 150, 198, 297, 1000])
                    p.feed_freq(b"1" * n + r.choice([b"", b"\n", b"\n5\n"]))
                h.execute(p)
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            desc = "ops=%s lines=%s" % ("".join(h.ops)[:100], [s[:20] for s, _ in h.lines])
        else:
            if sc == "names":
                # names relative to the scratch directory; long components do not exist anywhere
                n = r.choice([1, 50, 198, 199, 200, 201, 202, 250, 255, 400, 5000])
                name = "".join(r.choice("abcXYZ 09._%sd-") for _ in range(n - 1)) + "q"
                opt = r.choice(["-i", "-o", "-F"])
                argsets = [[opt, name], [opt + name], [opt, name, "-f", "5"]]
                args = r.choice(argsets)
            else:
                args = []
                for _ in range(r.randrange(0, 6)):
                    args.append(r.choice(["-f", "-d", "-x", "-df", "-xf", "-f1", "--", "-", "-q", "-Z9", "-:", "", "5", "-f-1", "-dx", "-h"] + BAD + GOOD + BADD))
            d = ctx.fresh("n")
            data = fq.encode(fq.gen_words(r, 5)[0])
            with open(os.path.join(d, "stdin"), "wb") as fo:
                fo.write(data)
            with open(os.path.join(d, "stdin"), "rb") as fin:
                try:
                    q = subprocess.run(pre + [exe] + args, stdin=fin, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d, env=env, timeout=120)
                except subprocess.TimeoutExpired:
                    ctx.fail("hang", "args=%r" % args)
            rc, err = q.returncode, q.stderr
            desc = "args=%r" % [a[:60] for a in args]
        ctx.count("runs_" + b)
        where = "build=%s scenario=%s status=%s %s\n%s" % (b, sc, rc, desc, err[-2500:].decode("latin1"))
        if b == "msan" and b"MemorySanitizer: CHECK failed" in err:
            raise HarnessError("MSan runtime failure: " + where)
        ctx.check(rc != 99 and not any(t in err for t in REPORT), "sanitizer-report", where)
        ctx.check(rc is not None and rc >= 0, "killed", where)
        ctx.distinct(b, sc, case["s"])
        ctx.sample({"build": b, "scenario": sc, "status": rc, "what": desc[:200]})


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(os.fsencode(d)):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), os.fsencode(d))] = "dir"
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, os.fsencode(d))] = f.read()
    return out


class C07(Base):
    quick, thorough = 2400, 24000
    rule = ("a case is one run with generated names (spaces, control and non-ASCII bytes, option-like, lengths around the 199-byte limit, sub-directories) for -i/-o/-F among decoy files named like truncated, split or trimmed variants; directory snapshots before "
            "and after are compared; distinct by (roles, name classes, lengths)")

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "kind": r.choice(["ok", "ok", "ok", "long", "long", "missing", "empty"])}

    def name(self, r, n=None):
        style = r.choice(["plain", "space", "weird", "bytes", "dash", "sub"])
        if n is None:
            n = r.choice([1, 2, 5, 12, 30, 100, 190, 197, 198, 199, 199, r.randrange(1, 200)])
        alpha = {"plain": b"abcdefgh", "space": b"ab c\td", "weird": b"a%s'\"$`\\*?;&|<>()[]{}!#~=,:@^", "bytes": bytes(x for x in range(1, 256) if x != 47),
                 "dash": b"-ab", "sub": b"abc"}[style]
        s = bytes(r.choice(alpha) for _ in range(n))
        if style == "space" and n > 1 and r.random() < 0.5:
            s = r.choice([b" ", b"a "]) + s[1:] if n > 2 else b" a"
        if style == "sub" and n >= 4:
            k = r.randrange(1, n - 2)
            s = s[:k] + b"/" + s[k + 1:]
        if s in (b".", b".."):
            s = b"z" * n
        s = s[:n]
        return s, style

    def run(self, case, ctx):
        r = random.Random(case["s"])
        d = ctx.fresh("nm")
        bd = os.fsencode(d)
        words, _ = fq.gen_words(r, r.randrange(1, 60), "second")
        other, _ = fq.gen_words(r, r.randrange(1, 60), "second")
        data, decoy = fq.encode(words), fq.encode(other)
        f, ff = fq.gen_corr(r), fq.gen_corr(r)
        roles = [x for x in "ioF" if r.random() < 0.6] or [r.choice("ioF")]
        victim = r.choice(roles)
        names, styles = {}, {}

        def put(path, content):
            p = os.path.join(bd, path)
            if path in (b"", b".", b"..") or path.startswith(b"/") or b"/../" in path or len(os.path.basename(path)) > 250:
                return False
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.exists(p):
                    return False
                with open(p, "wb") as fo:
                    fo.write(content)
            except OSError:
                return False
            return True
        for x in roles:
            for _ in range(50):
                n = None
                if case["kind"] == "long" and x == victim:
                    n = r.choice([200, 201, 202, 210, 240, 250])
                s, st = self.name(r, n)
                if s in names.values() or any(s.startswith(o + b"/") or o.startswith(s + b"/") for o in names.values()):
                    continue
                parts = s.split(b"/")
                if any(q in (b"", b".", b"..") for q in parts):
                    continue
                names[x], styles[x] = s, st
                break
            else:
                return
        if case["kind"] == "empty":
            names[victim] = b""
        old = bytes(r.randrange(256) for _ in range(r.choice([0, 10, len(data) + 100, 5000])))
        created_old = False
        for x in roles:
            if case["kind"] == "missing" and x == victim:
                if x == "o":
                    names[x] = (b"nodir/" + names[x])[:150]
                continue
            if names[x] == b"":
                continue
            if x == "i":
                if not put(names[x], data):
                    return
            elif x == "F":
                if not put(names[x], b"%d\n" % ff):
                    return
            else:
                os.makedirs(os.path.dirname(os.path.join(bd, names[x])), exist_ok=True)
                if r.random() < 0.6:
                    created_old = put(names[x], old)
        # decoys: truncated, split or trimmed variants of the names
        for x in roles:
            s = names[x]
            for v in (s[:199], s[:198], s[:200], s.strip(), s.split(b" ")[0], s.split(b"\t")[0], s.lstrip(), s + b" ", os.path.basename(s)):
                if v and v != s and v not in names.values() and b"/" not in v:
                    put(v, decoy if x != "F" else b"77777\n")
        groups = [[b"-f", str(f).encode()]]
        for x in roles:
            groups.append([b"-" + x.encode(), names[x]])
        r.shuffle(groups)
        args = [a for g in groups for a in g]
        before = snapshot(d)
        tmp = ctx.fresh("io")
        with open(os.path.join(tmp, "in"), "wb") as fo:
            fo.write(data)
        viapipe = "i" not in roles and "F" in roles
        with open(os.path.join(tmp, "in"), "rb") as fin, open(os.path.join(tmp, "out"), "wb") as so, open(os.path.join(tmp, "err"), "wb") as se:
            try:
                p = subprocess.run([os.fsencode(self.exe)] + args, stdin=fin, stdout=so, stderr=se, cwd=d, timeout=fq.LIMIT)
            except subprocess.TimeoutExpired:
                ctx.fail("hang", "args=%r" % args)
        so = open(os.path.join(tmp, "out"), "rb").read()
        se = open(os.path.join(tmp, "err"), "rb").read()
        after = snapshot(d)
        where = "args=%r kind=%s victim=%s status=%s stderr=%r" % (args, case["kind"], victim, p.returncode, se[:100])
        ctx.count("kind_" + case["kind"])
        if case["kind"] == "ok":
            ctx.check(p.returncode == 0, "refused", where)
            got = after.get(names["o"]) if "o" in roles else so
            ctx.check(got is not None, "output-missing", where)
            wout = fq.decode(got)
            ctx.check(len(got) == len(data), "output-size", "%d instead of %d bytes; %s" % (len(got), len(data), where))
            if "F" in roles:
                # the correction file is read concurrently with the first events: only
                # the stream's identity is judged here, plus the final correction if static
                for a, b in zip(words, wout):
                    ctx.check((a ^ b) & 1023 == 0, "wrong-stream", where)
                ctx.check(wout[0] >> 10 == words[0] >> 10, "wrong-stream", where)
                e = 0
                for i in range(1, len(words)):
                    e += ((words[i] >> 10) - (words[i - 1] >> 10)) & M54
                    dev = ((wout[i] >> 10) - (words[0] >> 10) - e) & M54
                    dev = dev - (1 << 54) if dev >> 53 else dev
                    lo, hi = sorted((f * e, ff * e))
                    ctx.check(lo - 4 * (1 << 34) <= dev << 34 <= hi + 4 * (1 << 34), "wrong-correction", "event %d deviates by %d; %s" % (i, dev, where))
            else:
                fq.check_law(ctx, words, wout, [(0, f)], where=where)
            if "o" in roles:
                ctx.check(so == b"", "stdout-used", where)
                if not created_old:
                    mode = os.stat(os.path.join(bd, names["o"])).st_mode & 0o777
                    ctx.check(mode & 0o600 == 0o600 and mode & 0o177 == 0o044 & ~UMASK, "permissions", "mode %o of the new output file; %s" % (mode, where))
                after.pop(names["o"])
                before.pop(names["o"], None)
            ctx.check(after == before, "files-changed", "changed: %r; %s" % ([k for k in set(after) | set(before) if after.get(k) != before.get(k)], where))
        else:
            ctx.check(p.returncode != 0, "not-refused", where)
            ctx.check(p.returncode > 0, "crash", where)
            ctx.check(se.strip() != b"", "no-message", where)
            ctx.check(so == b"", "output-despite-refusal", where)
            if "o" in roles and victim != "o" and case["kind"] != "missing":
                pass    # whether the valid output was opened before is not specified
            if "o" in roles and victim != "o":
                after.pop(names["o"], None)
                before.pop(names["o"], None)
            ctx.check(after == before, "files-changed", "changed: %r; %s" % ([k for k in set(after) | set(before) if after.get(k) != before.get(k)], where))
        ctx.distinct(case["kind"], victim, tuple(sorted((x, styles.get(x), len(names[x])) for x in roles)))
        ctx.sample({"args": [repr(a[:40]) for a in args], "status": p.returncode})


class C08(Base):
    level = "fault_enumeration"
    quick, thorough = 120, 1500
    soft_limit = 240
    rule = ("a case is one workload; its fault-free run is recorded by an LD_PRELOAD interposer, then every (read/write/wait call index, errno or short count) of that trace is injected in its own run (sampled above a cap), plus sampled double faults, kills before/after "
            "calls, allocation failures and a vanished reader; distinct by (call kind, index, fault, workload)")
    cap = 70

    def prepare(self, shared):
        Base.prepare(self, shared)
        so = os.path.join(shared["tmp"], "inject.so")
        src = os.path.join(core.VERIF, "vlib", "inject.c")
        q = subprocess.run(["/usr/bin/gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            raise HarnessError("inject.so: " + q.stdout.decode("latin1"))
        shared["so"] = so

    def setup(self, ctx):
        Base.setup(self, ctx)
        self.so = ctx.shared["so"]

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "n": r.choice([1, 3, 20, 100, 1024, 1030, 2500]), "mode": r.choice(["pipe", "pipe", "file", "redirect", "fifo"]),
                "freq": r.random() < 0.35, "f": fq.gen_corr(r), "cap": self.cap if tier == "quick" else 400}

    def once(self, ctx, case, data, sizes, args, plan, trace, outmode="redirect", close_out_after=None):
        env = dict(os.environ, LD_PRELOAD=self.so, FI_PLAN=plan, FI_TRACE=trace)
        same = ("%d\n" % case["f"]).encode()
        p = fq.Proc(ctx, self.exe, args, inmode=case["mode"], data=data, env=env, freq="fifo" if case["freq"] else None, outmode=outmode)
        try:
            if case["mode"] in ("pipe", "fifo"):
                pos = 0
                for j, c in enumerate(sizes):
                    if case["freq"] and j % 2 == 1:
                        if not p.feed_freq(same):     # an update to the value already in force
                            break
                    if close_out_after is not None and j == close_out_after:
                        os.close(p.ofd)
                        p.ofd, p.outmode = None, "gone"
                    if not p.feed(data[pos:pos + c]):
                        break
                    if outmode == "pipe" and p.outmode == "pipe":
                        p.read_out()
                    pos += c
            if p.outmode == "gone":
                p.read_out = lambda: b""
            return p.finish()
        finally:
            p.cleanup()

    def run(self, case, ctx):
        r = random.Random(case["s"])
        words, _ = fq.gen_words(r, case["n"])
        data = fq.encode(words) + bytes(r.randrange(256) for _ in range(r.choice([0, 0, 3])))
        sizes, _ = fq.chunks(r, len(data), r.choice(["mixed", "torn", "event"]) if len(data) < 1000 else r.choice(["big", "buffer"]))
        args = corr_args(r, case["f"], False)
        d = ctx.fresh("tr")
        trace = os.path.join(d, "trace")
        rc, ref, err0 = self.once(ctx, case, data, sizes, args, "", trace)
        ctx.check(rc == 0 and len(ref) == len(words) * 8, "fault-free", "status %s, %d bytes, %r" % (rc, len(ref), err0))
        calls = [l.split() for l in open(trace)]            # kind index size
        if not any(c[0] == "read" for c in calls) or not any(c[0] == "write" for c in calls):
            raise HarnessError("interposer saw no I/O calls: %r" % calls[:5])
        ctx.count("calls_traced", len(calls))
        plans = []
        for kind, idx, size in calls:
            size = int(size)
            if kind == "read":
                errs = ["EINTR", "EAGAIN", "EIO", "EBADF"]
                shorts = [k for k in (1, 5, 7, 8, 9, size - 1) if 0 < k < size]
            elif kind == "write":
                errs = ["EINTR", "EAGAIN", "EIO", "ENOSPC", "EPIPE"]
                shorts = [k for k in (0, 1, 7, 8, 9, size // 2, size - 1) if 0 <= k < size] if size > 0 else []
            elif kind == "wait":
                errs, shorts = ["EINTR", "ENOMEM", "EBADF"], []
            elif kind == "malloc":
                errs, shorts = ["ENOMEM"], []
            else:
                continue
            plans += ["%s:%s:%s" % (kind, idx, e) for e in errs]
            plans += ["%s:%s:short%d" % (kind, idx, k) for k in sorted(set(shorts))]
            plans += ["%s:%s:killbefore" % (kind, idx), "%s:%s:killafter" % (kind, idx)]
        total = len(plans)
        # failures that stay: no hang
        last = [("read", "EIO"), ("read", "EBADF"), ("write", "EIO"), ("write", "ENOSPC"), ("write", "EPIPE"), ("wait", "EBADF"), ("wait", "ENOMEM")]
        lasting = ["%s:%d+:%s" % (k, r.choice([int(c[1]) for c in calls if c[0] == k]), e) for k, e in last if any(c[0] == k for c in calls)]
        ctx.count("lasting_faults", 2)
        r.shuffle(plans)
        extra = [";".join(r.sample(plans, 2)) for _ in range(6)] if len(plans) > 2 else []
        extra += r.sample(lasting, min(2, len(lasting)))
        chosen = plans[:case["cap"]]
        ctx.count("single_faults_in_space", total)
        for plan in chosen + extra:
            rc, out, err = self.once(ctx, case, data, sizes, args, plan, os.path.join(d, "t2"))
            fired = [l for l in open(os.path.join(d, "t2")) if l.startswith("fault")] if os.path.exists(os.path.join(d, "t2")) else []
            ctx.count("faults_fired", len(fired))
            ctx.count("runs")
            where = "plan=%s mode=%s sizes=%s args=%s status=%s stderr=%r" % (plan, case["mode"], sizes[:20], args, rc, err[:200])
            ctx.check(ref.startswith(out), "not-a-prefix", "output of %d bytes deviates at byte %d; %s" % (
                len(out), next((j for j in range(min(len(out), len(ref))) if out[j] != ref[j]), min(len(out), len(ref))), where))
            if len(out) < len(ref) and rc is not None and rc >= 0 and fired:
                ctx.check(err.strip() and err.replace(b"Input stream closed.", b"").strip() != b"", "silent-loss",
                          "%d of %d bytes written without any message; %s" % (len(out), len(ref), where))
            if rc is not None and rc < 0:
                ctx.check("kill" in plan and rc == -9, "crash", where)
            if fired:
                ctx.distinct(case["s"], plan)
            if os.path.exists(os.path.join(d, "t2")):
                os.unlink(os.path.join(d, "t2"))
        # the consumer disappears: no hang, and nothing but termination
        if case["mode"] in ("pipe", "fifo") and len(sizes) > 2:
            rc, out, err = self.once(ctx, case, data, sizes, args, "", os.path.join(d, "t3"), outmode="pipe", close_out_after=r.randrange(1, len(sizes)))
            ctx.count("consumer_gone_runs")
        # killed from outside at random moments
        for _ in range(3):
            if case["mode"] not in ("pipe", "fifo"):
                break
            p = fq.Proc(ctx, self.exe, args, inmode=case["mode"])
            try:
                stop = r.randrange(len(sizes))
                pos = 0
                for j, c in enumerate(sizes):
                    if j == stop:
                        p.kill(r.choice([signal.SIGKILL, signal.SIGTERM]))
                    if not p.feed(data[pos:pos + c], r.random() < 0.5):
                        break
                    pos += c
                rc, out, err = p.finish()
            finally:
                p.cleanup()
            ctx.check(ref.startswith(out), "not-a-prefix", "killed from outside: %d bytes" % len(out))
            ctx.count("kill_runs")
        ctx.sample({"plans": chosen[:5], "calls": len(calls), "fault_space": total, "events": len(words)})


class C09(Base):
    quick, thorough = 70, 1000
    workers = 14
    rule = ("a case is one interactive session: pieces of events with the input kept open, with a correction stream absent, silent, active, closed, without a writer (yet), holding a partial or an overlong line, or a file; after each piece the monitor waits for the complete events' output, then measures CPU time "
            "of the idle process, then ends the input and awaits termination; distinct by (state, handles, sizes)")
    STATES = ["none", "silent", "active", "closed", "partialline", "overlong", "file", "emptyfile", "nowriter", "late"]

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "state": self.STATES[i % len(self.STATES)], "inmode": r.choice(["pipe", "fifo", "socket"]),
                "outmode": r.choice(["redirect", "file", "pipe", "fifo"]), "legacy": r.random() < 0.2}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        st = case["state"]
        words, _ = fq.gen_words(r, 9500, "typical")
        data = fq.encode(words, case["legacy"])
        freq = {"none": None, "file": b"100\n-3\n", "emptyfile": b"", "nowriter": "late", "late": "late"}.get(st, "fifo")
        p = fq.Proc(ctx, self.exe, corr_args(r, fq.gen_corr(r), case["legacy"]), inmode=case["inmode"], outmode=case["outmode"], freq=freq)
        lat = []
        try:
            if st == "closed":
                if r.random() < 0.5:
                    p.feed_freq(b"5\n")
                p.close_freq()
            elif st == "partialline":
                p.feed_freq(b"-12")
            elif st == "overlong":
                p.feed_freq(b"x" * r.choice([98, 99, 100, 250]))
            pos, sizes = 0, []
            for _ in range(r.randrange(3, 9)):
                c = r.choice([8, 8, 16, 80, 3, 13, 8 * 1023, 8 * 1024, 8 * 1024 + 8, 5000, 1])
                sizes.append(c)
                if st in ("active", "late") and r.random() < 0.6:
                    p.feed_freq(r.choice([b"5\n", b"7", b"\n", b"abc\n", b"1\n2\n3\n"]))
                p.feed(data[pos:pos + c])
                pos += c
                want = pos // 8 * 8
                t0 = time.time()
                lat.append(self.await_output(ctx, p, want, "state=%s in=%s out=%s sizes=%s" % (st, case["inmode"], case["outmode"], sizes)))
                ctx.count("pieces_forwarded")
            # idle CPU
            c0, t0 = p.cputime(), time.time()
            time.sleep(1.2)
            c1, t1 = p.cputime(), time.time()
            ctx.count("idle_periods")
            ctx.check(c1 - c0 <= 0.25 * (t1 - t0) or c1 - c0 < 0.3, "busy-idle", "used %.2f s CPU in %.2f s without input; state=%s" % (c1 - c0, t1 - t0, st))
            # still alive and forwarding after the idle period
            p.feed(data[pos:pos + 16])
            pos += 16
            self.await_output(ctx, p, pos // 8 * 8, "after idling, state=%s" % st)
            rc, out, err = p.finish()
        finally:
            p.cleanup()
        ctx.check(len(out) == pos // 8 * 8, "lost", "%d instead of %d bytes" % (len(out), pos // 8 * 8))
        ctx.distinct(st, case["inmode"], case["outmode"], tuple(sizes))
        ctx.sample({"state": st, "sizes": sizes, "latency_ms": [round(1000 * x, 2) for x in lat]})

    def await_output(self, ctx, p, want, where):
        t0 = time.time()
        pause = 0.0001
        while True:
            have = len(p.read_out())
            if have >= want:
                return time.time() - t0
            if p.p.poll() is not None:
                ctx.fail("died", "ended with %s while input was open; %s" % (p.p.returncode, where))
            if time.time() - t0 > 15:
                # the input was drained long ago and the process has been idle since
                state = open("/proc/%d/stat" % p.p.pid).read().rsplit(")", 1)[1].split()[0]
                if state == "S" or time.time() - t0 > 60:
                    ctx.fail("not-forwarded", "only %d of %d bytes forwarded after %.0f s with the input open; %s" % (have, want, time.time() - t0, where))
            time.sleep(pause)
            pause = min(pause * 1.5, 0.02)


class C43(Base):
    quick, thorough = 120, 1000
    rule = ("a case is one long session (about 10^5 to 10^6 events in thousands of reads, thousands of correction lines: repeated, invalid, split, overlong; or programs that open and close the correction FIFO hundreds of times) with an idle, slow or prompt consumer; data segment size, open files and threads are sampled after a warm-up and at the end, "
            "the law is checked for every event; distinct by (handles, sizes, correction traffic)")
    assumptions = ("a growth of the data segment by less than 300 kB after the warm-up is not counted as growth",)

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "n": int(10 ** r.uniform(4.6, 5.4 if tier == "quick" else 6.3)), "freq": i % 4 != 0, "inmode": r.choice(["pipe", "fifo", "socket"]),
                "outmode": r.choice(["redirect", "file", "pipe", "fifo"]), "legacy": r.random() < 0.25, "small": r.random() < 0.5, "visits": i % 8 == 0}

    def visit(self, r, p, same, junk):
        """Another program opens the correction FIFO, writes a line or two, and closes it."""
        try:
            fd = os.open(os.path.join(p.dir, "freq"), os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            return
        try:
            os.write(fd, b"".join(same if r.random() < 0.6 else r.choice(junk) for _ in range(r.choice([0, 1, 2]))))
        except BlockingIOError:
            pass
        finally:
            os.close(fd)

    @staticmethod
    def usage(p):
        pid = p.p.pid
        with open("/proc/%d/status" % pid) as f:
            st = dict(l.split(":", 1) for l in f)
        return {"data": int(st["VmData"].split()[0]), "fds": len(os.listdir("/proc/%d/fd" % pid)), "threads": int(st["Threads"])}

    def run(self, case, ctx):
        r = random.Random(case["s"])
        f = fq.gen_corr(r)
        words, profile = fq.gen_words(r, case["n"], r.choice(["typical", "slow", "typical", "second", "tiny", "hour"]))
        data = fq.encode(words, case["legacy"])
        same = b"%d\n" % f
        junk = [b"\n", b"abc\n", b"2097152\n", b"-99999999\n", b"7x\n", b" \n", b"9" * 300 + b"\n", b"y" * 99 + b"\n", b"1 2\n"]
        p = fq.Proc(ctx, self.exe, corr_args(r, f, case["legacy"]), inmode=case["inmode"], outmode=case["outmode"],
                    freq="fifo" if case["freq"] else "late" if case["visits"] else None)
        p.slow_consumer = case["outmode"] in ("pipe", "fifo")
        warm, pos, lines, pieces, visits = None, 0, 0, 0, 0
        try:
            small = 0
            while pos < len(data):
                # a burst of small deliveries, then large ones
                if (case["small"] or case["visits"]) and small < 6000:
                    c = r.choice([8, 24, 13, 100])
                    small += 1
                else:
                    c = r.choice([8192, 32768, 20000, 8191])
                if not p.feed(data[pos:pos + c], c > 5000 or pieces % 50 == 0):
                    break
                pos += c
                pieces += 1
                if case["freq"] and lines < 4000:
                    k = r.choice([1, 1, 3, 40])
                    x = b"".join(same if r.random() < 0.6 else r.choice(junk) for _ in range(k))
                    if not p.feed_freq(x[:3000].rsplit(b"\n", 1)[0] + b"\n", r.random() < 0.8):
                        break
                    lines += k
                if case["outmode"] in ("pipe", "fifo") and pieces % r.choice([1, 7, 40]) == 0 or pieces % 64 == 0:
                    p.read_out()
                if case["visits"] and pieces % 20 == 0:
                    self.visit(r, p, same, junk)
                    visits += 1
                if warm is None and (pos > len(data) // 8 or visits > 60) and lines >= 30 * case["freq"] and visits >= 30 * case["visits"]:
                    warm = self.usage(p)
            while case["freq"] and lines < 4000:
                if not p.feed_freq(same * 50, r.random() < 0.5):
                    break
                lines += 50
            p.feed(b"", True)
            if case["freq"]:
                p.feed_freq(same)
            end = self.usage(p) if p.p.poll() is None else None
            rc, out, err = p.finish()
        finally:
            p.cleanup()
        where = "n=%d pieces=%d lines=%d in=%s out=%s args=%s" % (case["n"], pieces, lines, case["inmode"], case["outmode"], p.argv[1:])
        ctx.check(rc == 0, "status", "exit status %s %r %s" % (rc, err[:200], where))
        if warm is None or end is None:
            ctx.fail("died", where)
        ctx.check(end["data"] <= warm["data"] + 300, "memory-growth", "data segment %d kB after warm-up, %d kB at the end; %s" % (warm["data"], end["data"], where))
        ctx.check(end["fds"] <= warm["fds"], "descriptor-growth", "%s -> %s; %s" % (warm, end, where))
        ctx.check(end["threads"] <= warm["threads"], "thread-growth", "%s -> %s; %s" % (warm, end, where))
        fq.check_law(ctx, words, fq.decode(out, case["legacy"]), [(0, f)], where=where)
        ctx.count("correction_lines", lines)
        ctx.count("correction_visits", visits)
        ctx.count("pieces", pieces)
        ctx.distinct(case["inmode"], case["outmode"], case["n"], lines, f)
        ctx.sample({"events": case["n"], "pieces": pieces, "correction_lines": lines, "warm": warm, "end": end})
