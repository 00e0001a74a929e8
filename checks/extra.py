"""C40-C42: damaged timestamp files, unusable input of the search, epoch headers."""
import contextlib
import io
import os
import random
import re
import struct

from vlib import core, pylib
from vlib.core import Check
from vlib.pylib import FORMATS, enc, gen_events, read, run_main, run_sub, snap, write
from checks.epochs import cpu_limit, stderr_to

PT = "fpfind.lib.parse_timestamps"
HEX = set(b"0123456789abcdefABCDEF")


def stored(fmt, data):
    """Events stored completely in the (possibly damaged) file before the first damage, and whether all of it is well-formed."""
    events = []
    if fmt in ("a1", "a1x"):
        for k in range(0, len(data) - 7, 8):
            lo, hi = struct.unpack("<II", data[k:k + 8])
            if fmt == "a1x":
                lo, hi = hi, lo
            w = hi << 32 | lo
            events.append((w >> 10, w & 15))
        return events, len(data) % 8 == 0
    width = 16 if fmt == "a2" else 8
    vals, good = [], True
    for line in data.split():           # any white space may separate lines
        if len(line) != width or not set(line) <= HEX:
            good = False
            break
        vals.append(int(line, 16))
    if fmt == "a2":
        words = vals
    else:
        words = [vals[k + 1] << 32 | vals[k] for k in range(0, len(vals) - 1, 2)]
        good = good and len(vals) % 2 == 0
    return [(w >> 10, w & 15) for w in words], good


class C40(Check):
    interp = core.PYPY
    workers = 8
    level = "fault_enumeration"
    quick, thorough = 288, 3000
    rule = ("a case takes one valid a0/a1/legacy a1/a2 file and reads it cut at every byte, and (text formats) with characters replaced, inserted or deleted and line ends lost, with the whole-file and the streaming reader, "
            "statistics and conversion for a sample; each must fail or deliver exactly the events stored completely before the damage; distinct by (format, file, damage)")
    assumptions = ("a whole-file read of a damaged file that does not fail must deliver every complete event of an otherwise well-formed file",)

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def run(self, case, ctx):
        import importlib
        m = importlib.import_module(PT)
        from fpfind import TSRES
        r = random.Random(case["s"])
        fmt = FORMATS[case["i"] % 4]
        n = r.choice([1, 2, 3, 4, 6, 9])
        events = [(t, p) for t, p in gen_events(r, n)]
        whole = enc(fmt, events)
        d = ctx.fresh()
        path = os.path.join(d, "events.dat")
        damaged = [("cut at byte %d of %d" % (c, len(whole)), whole[:c]) for c in range(1, len(whole))]
        if fmt in ("a0", "a2"):
            for _ in range(40):
                k = r.randrange(len(whole))
                what = r.choice(["replace", "insert", "delete", "newline", "junkline"])
                ch = bytes([r.choice(b" \tgGxX_+-#.,;\0\r:/@`") if r.random() < 0.85 else r.choice(b"0123456789abcdef")])
                if what == "replace":
                    x = whole[:k] + ch + whole[k + 1:]
                elif what == "insert":
                    x = whole[:k] + ch + whole[k:]
                elif what == "delete":
                    x = whole[:k] + whole[k + 1:]
                elif what == "newline":
                    nl = [j for j in range(len(whole)) if whole[j] == 10]
                    j = r.choice(nl)
                    x = whole[:j] + whole[j + 1:]
                    k = j
                else:
                    ls = whole.split(b"\n")[:-1]
                    ls.insert(r.randrange(len(ls) + 1), r.choice([b"nan", b"0", b"# comment", b"#", b"0x12", b"-1", b"zz" * 8, b"1" * 33]))
                    x = b"\n".join(ls) + b"\n"
                damaged.append(("%s at %d (%r)" % (what, k, ch), x))
        legacy = fmt == "a1x"
        name = fmt[:2]
        sample = set(r.sample(range(len(damaged)), min(len(damaged), 4)))
        for k, (what, data) in enumerate(damaged):
            write(path, data)
            events, good = stored(fmt, data)
            where = "%s, %d events, %s" % (fmt, n, what)
            with cpu_limit(ctx, 20, where), stderr_to(os.path.join(d, "log")):
                try:
                    t, p = getattr(m, "read_" + name)(path, legacy=legacy, resolution=TSRES.PS4, fractional=False)
                    got = [(int(a), int(b)) for a, b in zip(t, p)]
                except Exception:
                    got = None
                self.judge(ctx, got, events, good, fmt, data, "read: " + where)
                size = r.choice([1, 2, 3, 100])
                out, failed = [], False
                try:
                    stream, _ = getattr(m, "sread_" + name)(path, legacy=legacy, resolution=TSRES.PS4, fractional=False, buffer_size=size)
                    for t, p in stream:
                        out += [(int(a), int(b)) for a, b in zip(t, p)]
                        if len(out) > 4 * n + 10:
                            ctx.fail("endless", "stream delivers more events than the file holds: " + where)
                except Exception:
                    failed = True
                if failed:
                    ctx.check(out == events[:len(out)], "invented", lambda: "stream of %d: %r before failing, stored %r; %s %r" % (size, out, events, where, data))
                    ctx.count("refused")
                else:
                    self.judge(ctx, out, events, good, fmt, data, "stream of %d: %s" % (size, where))
            ctx.count("damaged_files")
            ctx.distinct(fmt, case["s"], what)
            if k in sample:
                self.command(ctx, d, path, fmt, data, events, good, where, r)
        ctx.sample({"format": fmt, "n": n, "damages": len(damaged)})

    def judge(self, ctx, got, events, good, fmt, data, where):
        if got is None:
            ctx.count("refused")
            ctx.count("oracle_evaluations")
            return
        # without an error, the result must be the complete content, up to a last incomplete event of a binary file
        ok = got == events and (good or (fmt in ("a1", "a1x")))
        ctx.check(ok, "invented" if got != events else "damage-ignored", lambda: "returned %r without an error, stored %r; %s; file %r" % (got, events, where, data))
        ctx.count("complete_reads")

    def command(self, ctx, d, path, fmt, data, events, good, where, r):
        out = os.path.join(d, "out.dat")
        to = r.choice(FORMATS)
        args = ["-A", fmt[1], "-a", to[1]] + (["-X"] if fmt == "a1x" else []) + (["-x"] if to == "a1x" else []) + (["--inmemory"] if r.random() < 0.5 else [])
        if os.path.exists(out):
            os.unlink(out)
        res = run_main(PT, args + [path, out])
        got = read(out) if os.path.exists(out) else b""
        ctx.check(read(path) == data, "input-modified", where)
        if res.status == 0:
            ctx.check(got == enc(to, events) and (good or fmt in ("a1", "a1x")), "conversion", lambda: "%s -> %s: succeeded with %r, stored %r; file %r; %s" % (fmt, to, got, events, data, where))
        else:
            ctx.check(enc(to, events).startswith(got), "conversion", lambda: "%s -> %s: failed after writing %r, stored %r; %s" % (fmt, to, got, events, where))
            ctx.check(res.err != "", "silent", lambda: "%s: %r" % (where, res))
        ctx.count("conversions")
        res = run_main(PT, args[:2] + (["-X"] if fmt == "a1x" else []) + (["--inmemory"] if r.random() < 0.5 else []) + [path])
        if res.status == 0:
            mm = re.search(r"[Tt]otal events\s*:?\s*(\d+)", res.out)
            ctx.check(mm is not None and int(mm.group(1)) == len(events), "statistics", lambda: "%s: %d stored; %r" % (where, len(events), res))
        ctx.count("reports")


def search_tools():
    from checks import search
    return search


class C41(Check):
    interp = core.PYPY
    workers = 8
    quick, thorough = 460, 8000
    rule = ("a case runs the search on unusable input: no or half of the inputs, missing, empty, one-event, incomplete or unreadable files, streams that do not overlap or end before the second correlation window (cut at a random point), missing, empty, "
            "too few or damaged epochs, invalid option values; must fail with a message, nothing on stdout, nothing created or modified; streams cut late in the second window may also give the true offsets; undamaged controls must give them; distinct by (kind, parameters)")
    KINDS = ["noargs", "half", "mixed", "missing", "empty", "one", "partial", "directory", "disjoint", "short", "short", "short", "late", "badoption", "badvalue", "epochdir", "epochempty", "epochfew", "epochcut", "epochgap", "epochfirst", "good", "epochgood"]

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def run(self, case, ctx):
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        r = random.Random(case["s"])
        kind = self.KINDS[case["i"] % len(self.KINDS)]
        d = ctx.fresh()
        where = kind
        if kind.startswith("epoch"):
            return self.epochs(case, ctx, kind, r, d)
        st = sr.Setting(r)
        df, dt = st.draw(r)
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        D = sy.make(rng, st.dur * 1.06 + abs(dt), dt, df, p * 0.3, p * 0.7, p * 1.3, jitter=0.1)
        ok = None
        a, b = D.a, D.b
        fa, fb = os.path.join(d, "ref.dat"), os.path.join(d, "tgt.dat")
        side = r.randrange(3)
        if kind in ("short", "late"):
            lo, hi = (0.02, st.s - 0.05) if kind == "short" else (st.s + 0.45, st.s + 1)
            end = D.ref + int(r.uniform(lo, hi) * st.Ta * 256)
            if side != 1:
                a = a[a < end]
            if side != 0:
                b = b[b < end]
            where += " cut at %.3f of %s windows, side %d" % ((end - D.ref) / st.Ta / 256, st.s + 1, side)
            ok = kind == "late"
        elif kind == "disjoint":
            b = b + np.uint64((1 << 48) if r.random() < 0.5 else int(st.dur * 1.3 * 256))
        sy.write_a1(fa, a)
        sy.write_a1(fb, b)
        args = ["-t", fa, "-T", fb] + st.args()
        bad = fa if side else fb
        if kind == "noargs":
            args = []
        elif kind == "half":
            args = args[:2] if side else args[2:4]
        elif kind == "mixed":
            args = r.choice([["-t", fa, "-D", d], ["-T", fb, "-d", d], ["-d", d], ["-D", d]]) + st.args()
        elif kind == "missing":
            os.unlink(bad)
        elif kind == "empty":
            write(bad, b"")
        elif kind == "one":
            write(bad, read(bad)[:8])
        elif kind == "partial":
            k = r.randrange(1, 8)
            write(bad, read(bad)[:-k])
            where += " %d bytes missing" % k
            ok = True
        elif kind == "directory":
            os.unlink(bad)
            os.mkdir(bad)
        elif kind == "good":                 # control: the input is usable without the damage
            ok = True
        elif kind == "badoption":
            args += r.choice([["-W"], ["--no-such-option"], ["stray"], ["-V"]])
        elif kind == "badvalue":
            args += r.choice([["-V", "16"], ["-V", "-1"], ["-V", "0x3"], ["-q", "ten"], ["-q", "16.5"], ["-R", "1.5"], ["-r", ""], ["-k", "one"], ["-s", "x"], ["-S", "high"], ["-Z", "1s"], ["--precomp-step", "1ppm"], ["--config", os.path.join(d, "none")]])
        before = snap(d)
        res = run_sub(sr.MOD, args) if case["i"] % 25 == 3 else self.main(ctx, sr, args)
        where = "%s: %r df=%.3e dt=%.1f" % (where, st, df, dt)
        ctx.check(snap(d) == before, "files-touched", where)
        if kind == "good" or ok and res.status == 0:
            ctx.check(res.status == 0, "refused-good", lambda: "%s: %r" % (where, res))
            f, t = sr.parse(res.out)
            # fewer pairs in the second window, same accuracy
            td, tf = st.tol(df, dt)
            ctx.check(abs(int(t) - dt) <= 2 * td and abs(float(f) - df) <= 2 * tf, "wrong-offset", lambda: "%s: printed %s" % (where, res.out.strip()))
            ctx.count("correct_results")
        else:
            self.refused(ctx, res, where)
        ctx.distinct(kind, case["s"])
        ctx.sample({"kind": kind, "status": res.status, "stderr_tail": res.err[-120:]})

    def main(self, ctx, sr, args):
        log = os.path.join(ctx.fresh(), "log")       # the logger writes to the original standard error
        with stderr_to(log):
            res = run_main(sr.MOD, args)
        res.err += read(log).decode("utf-8", "replace")
        return res

    def refused(self, ctx, res, where):
        ctx.check(res.status != 0, "accepted", lambda: "%s: %r" % (where, res))
        ctx.check(res.out == "", "output", lambda: "%s: %r" % (where, res))
        ctx.check(res.err.strip() != "", "silent", lambda: "%s: %r" % (where, res))
        ctx.count("refused")

    def epochs(self, case, ctx, kind, r, d):
        import numpy as np
        sr = search_tools()
        sy = sr.S()
        st = sr.Setting(r)
        st.q, st.R, st.r, st.k, st.s = r.choice([(15, 8000, 50, 1, 8), (16, 8000, 50, 1, 4), (15, 9000, 50, 2, 4)])
        st.n = 800
        st.finish()
        EP = 1 << 37
        total = int(-(-st.dur // (EP / 256))) + 1        # as many as the search reads
        rng = np.random.default_rng(r.randrange(1 << 40))
        p = st.n / st.Ta
        ref = int(0.02 * EP)
        df, dt = 1e-7, 1000.0
        D = sy.make(rng, (total * EP - ref) / 256 - 5000, dt, df, p * 0.3, p * 0.7, p, ref=ref, lead=0.0)
        e0 = r.randrange(1 << 28, 1 << 31)
        for side, x, t in (("T2", D.a, "T2"), ("T1", D.b, "T1")):
            sy.write_epochs(os.path.join(d, side), x, e0, t)
        A, B = os.path.join(d, "T2"), os.path.join(d, "T1")
        args = ["-d", A, "-D", B] + st.args()
        bad = r.choice([A, B])
        ok = False
        names = sorted(os.listdir(A))
        where = "%s %s" % (kind, os.path.basename(bad))
        if kind == "epochdir":
            args[1 if bad == A else 3] = os.path.join(d, "none")
        elif kind == "epochempty":
            for x in os.listdir(bad):
                os.unlink(os.path.join(bad, x))
        elif kind == "epochfew":
            most = int(((st.s - 0.05) * st.Ta * 256 + ref) // EP)     # nothing in the second window
            for x in names[r.randrange(1, most + 1):]:
                os.unlink(os.path.join(bad, x))
        elif kind == "epochgap":
            os.unlink(os.path.join(bad, names[r.randrange(1, len(names) - 1)]))
        elif kind == "epochcut":
            x = os.path.join(bad, r.choice(names[: len(names) - 1]))
            data = read(x)
            c = r.randrange(len(data))
            write(x, data[:c])
            where += " cut at %d of %d" % (c, len(data))
            ok = True                        # nothing but padding may be missing
        elif kind == "epochgood":
            ok = True
        else:
            args += ["-e", "%x" % (e0 + total + r.randrange(5))]
        before = snap(d)
        res = self.main(ctx, sr, args)
        where = "%s %r epoch %x" % (where, st, e0)
        ctx.check(snap(d) == before, "files-touched", where)
        if kind == "epochgood" or ok and res.status == 0:
            ctx.check(res.status == 0, "refused-good", lambda: "%s: %r" % (where, res))
            f, t = sr.parse(res.out)
            td, tf = st.tol(df, dt)
            ctx.check(abs(int(t) - dt) <= 2 * td and abs(float(f) - df) <= 2 * tf, "wrong-offset", lambda: "%s: printed %s" % (where, res.out.strip()))
            ctx.count("correct_results")
        else:
            self.refused(ctx, res, where)
        ctx.distinct(kind, case["s"])


class C42(Check):
    interp = core.PYPY
    workers = 8
    quick, thorough = 2400, 24000
    rule = ("a case is one T1-T4 header with random field values (any epoch, unsigned and signed edge values, both tags or a foreign one) in a file named after its epoch (padded to 8 digits or not), another epoch or something else; fields must be exact, "
            "a warning naming the file must appear exactly when tag or name disagree; headers cut at every byte must be refused; distinct by (type, tag kind, name kind, fields)")

    FIELDS = {1: ("tag", "epoch", "length_bits", "bits_per_entry", "base_bits"), 2: ("tag", "epoch", "length_bits", "timeorder", "base_bits", "protocol"),
              3: ("tag", "epoch", "length_entry", "bits_per_entry"), 4: ("tag", "epoch", "length", "timeorder", "base_bits")}

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def run(self, case, ctx):
        import pathlib
        m = __import__("fpfind.lib.parse_epochs", fromlist=["x"])
        r = random.Random(case["s"])
        k = case["i"] % 4 + 1
        reader = getattr(m, "read_T%d_header" % k)
        names = self.FIELDS[k]
        epoch = r.choice([0, 1, 0x11, 0xF, 1 << 28, (1 << 28) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(1 << 26)])
        tagkind = r.choice(["long", "long", "short", "foreign"])
        tag = {"long": 0x100 + k, "short": k, "foreign": r.choice([0, 5, 0x105, 0x201, (k % 4) + 1, 0x100 + (k % 4) + 1, 0x10000 + k, r.randrange(6, 1 << 31)])}[tagkind]
        namekind = r.choice(["plain", "plain", "padded", "other", "close", "foreign"])
        other = r.randrange(1 << 32)
        close = r.choice([epoch ^ 1 << r.randrange(32), (epoch + 1) & 0xFFFFFFFF, epoch >> 4, epoch << 4 & 0xFFFFFFFF])
        name = {"plain": "%x" % epoch, "padded": "%08x" % epoch, "other": "%x" % other, "close": "%x" % close, "foreign": r.choice(["epoch", "%x.dat" % epoch, "t%x" % epoch, "g" + "%x" % epoch])}[namekind]
        try:
            named = int(name, 16) == epoch
        except ValueError:
            named = False
        values = [tag, epoch] + [r.choice([0, 1, 4, 49, r.randrange(1 << 31), (1 << 31) - 1, r.randrange(64)]) for _ in names[2:]]
        if r.random() < 0.3:
            values[2] = r.choice([(1 << 32) - 1, 1 << 31, r.randrange(1 << 32)])      # length is unsigned
        header = struct.pack("<%dI" % len(values), *values)
        body = bytes(r.randrange(256) for _ in range(r.choice([0, 8, 40])))
        d = os.path.join(ctx.fresh(), r.choice(["T%d" % k, "sub", "%x" % epoch, "%x" % other]))
        os.mkdir(d)
        path = os.path.join(d, name)
        write(path, header + body)
        log = os.path.join(os.path.dirname(d), "log.txt")
        where = "T%d tag %x epoch %x name %r" % (k, tag, epoch, name)
        with stderr_to(log):
            got = reader(pathlib.Path(path) if r.random() < 0.5 else path)
        text = read(log).decode("utf-8", "replace")
        ctx.check(tuple(got._fields) == names and [int(v) for v in got] == values, "fields", lambda: "%s: stored %r, returned %r" % (where, values, got))
        bad = not named or tagkind == "foreign"
        ctx.check((text.strip() != "") == bad, "warning", lambda: "%s: disagreement %s, logged %r" % (where, bad, text))
        if bad:
            ctx.check(name in text, "warning", lambda: "%s: message does not name the file: %r" % (where, text))
        ctx.count("warnings" if bad else "silent_reads")
        for c in range(len(header)):
            write(path, header[:c])
            with stderr_to(log):
                try:
                    got = reader(path)
                except Exception:
                    got = None
            ctx.check(got is None, "cut-header", lambda: "%s: %d of %d bytes accepted as %r" % (where, c, len(header), got))
            ctx.count("cut_headers")
        ctx.distinct(k, tag, namekind, tuple(values))
        ctx.sample({"type": k, "tag": tag, "name": name, "warned": bad})


class C45(Check):
    interp = core.PYPY
    workers = 8
    quick, thorough = 900, 9000
    rule = ("a case gives freqcd (-i, standard input or -F), the converter (streaming or in memory, any formats) or the test-case generator an output name that reaches one of its input files (same name, other spelling, symbolic or hard link, other folder), or, as a control, an existing file that does not; "
            "the input must survive byte for byte (with a failure status and message), or the result must be complete and correct; distinct by (tool, input, alias, size)")

    def prepare(self, shared):
        from vlib import fq
        shared["exe"] = fq.build(os.path.join(shared["tmp"], "freqcd"))

    def make(self, i, r, tier):
        return {"s": r.randrange(1 << 40), "i": i}

    def run(self, case, ctx):
        import subprocess
        from vlib import fq
        r = random.Random(case["s"])
        tool = ["freqcd", "freqcd", "freqcd", "convert", "convert", "generate"][case["i"] % 6]
        d = os.path.realpath(ctx.fresh())
        os.mkdir(os.path.join(d, "sub"))
        name = os.path.join(d, "events.dat")
        alias = r.choice(["same", "dot", "up", "relative", "symlink", "hardlink", "chain", "control", "control"])
        other = os.path.join(d, "sub", "alias")
        if alias == "symlink":
            os.symlink(name, other)
        elif alias == "chain":
            os.symlink("../events.dat", os.path.join(d, "sub", "x"))
            os.symlink("x", other)
        elif alias == "control":
            write(other, b"previous content that has to go" * r.choice([1, 300]))
        out = {"same": name, "dot": os.path.join(d, ".", "events.dat"), "up": os.path.join(d, "sub", "..", "events.dat"), "relative": "events.dat"}.get(alias, other)
        control = alias == "control"
        n = r.choice([1, 2, 50, 1500, 3000])

        def place(content):
            write(name, content)
            if alias == "hardlink":
                os.link(name, other)

        def judge(status, err, want, where):
            now = read(name)
            if control:
                ctx.check(status == 0, "refused", "%s: status %s %r" % (where, status, err[-300:]))
                ctx.check(now == before, "input-modified", where)
                if want is not None:
                    ctx.check(read(other) == want, "output", lambda: "%s: %d bytes instead of %d" % (where, len(read(other)), len(want)))
                ctx.count("controls")
            elif now == before and not (status == 0 and want is not None and want != before):
                ctx.check(status != 0 or want == before or want is None, "silent", "%s: status 0, nothing done" % where)
                ctx.check(status == 0 or err.strip(), "no-message", where)
                ctx.count("inputs_kept")
            else:
                ctx.check(status == 0 and now == want, "input-lost", lambda: "%s: status %s, input of %d bytes now has %d, %r" % (where, status, len(before), len(now), err[-300:]))
                ctx.count("converted_in_place")
            ctx.check(sorted(os.listdir(d)) == ["events.dat", "sub"], "files", lambda: "%s: %r" % (where, os.listdir(d)))

        if tool == "freqcd":
            words, _ = fq.gen_words(r, n, "typical")
            via = r.choice(["-i", "-i", "stdin", "-F"])
            f = r.choice([0, 1000, -3, fq.gen_corr(r)])
            args = [ctx.shared["exe"], "-f", str(f)]
            stdin = None
            if via == "-F":
                before = b"%d\n" % f * r.choice([1, 100])
                place(before)
                args += ["-F", name]
                stdin = write(os.path.join(ctx.fresh(), "in"), fq.encode(words))
            else:
                before = fq.encode(words)
                place(before)
                if via == "-i":
                    args += ["-i", name]
                else:
                    stdin = name
            args[1:] = r.choice([args[1:] + ["-o", out], ["-o", out] + args[1:]])
            where = "freqcd, %s, alias %s, %d events: %s" % (via, alias, n, args[1:])
            with open(stdin or os.devnull, "rb") as fin:
                try:
                    q = subprocess.run(args, stdin=fin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
                except subprocess.TimeoutExpired:
                    ctx.fail("hang", where)
            ref = subprocess.run([ctx.shared["exe"], "-f", str(f)], input=fq.encode(words), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60).stdout
            ctx.check(control or via == "-F" or len(ref) == len(before), "reference", where)
            if via == "-F" and not control:
                ctx.check(q.returncode != 0 and read(name) == before and q.stderr.strip() != b"", "input-lost", lambda: "%s: status %s, correction file now has %d bytes; %r" % (where, q.returncode, len(read(name)), q.stderr))
                ctx.count("inputs_kept")
            else:
                judge(q.returncode, q.stderr, ref, where)
            ctx.distinct(tool, via, alias, n)
        elif tool == "convert":
            events = gen_events(r, n)
            src, dst = r.choice(FORMATS), r.choice(FORMATS)
            before = enc(src, events)
            place(before)
            mem = r.random() < 0.3
            args = ["-A", src[1], "-a", dst[1]] + (["-X"] if src == "a1x" else []) + (["-x"] if dst == "a1x" else []) + (["--inmemory"] if mem else []) + r.choice([[], ["-q"]])
            where = "convert %s -> %s, in memory %s, alias %s, %d events" % (src, dst, mem, alias, n)
            old = os.getcwd()
            os.chdir(d)
            try:
                with stderr_to(os.path.join(ctx.fresh(), "log")):
                    res = (run_sub if case["i"] % 20 == 3 else run_main)(PT, args + [r.choice([name, "events.dat"]), out])
            finally:
                os.chdir(old)
            judge(res.status, res.err, enc(dst, events), where)
            ctx.distinct(tool, src, dst, mem, alias, n)
        else:
            events = gen_events(r, min(n, 300))
            legacy = r.random() < 0.3
            before = enc("a1x" if legacy else "a1", events)
            place(before)
            where = "generate, reading, alias %s" % alias
            old = os.getcwd()
            os.chdir(d)
            try:
                res = run_main("fpfind.lib.generate_freqcd_testcase", (["-x"] if legacy else []) + ["-o", out, "events.dat"])
            finally:
                os.chdir(old)
            ctx.check(read(name) == before, "input-lost", lambda: "%s: %d bytes left; %r" % (where, len(read(name)), res))
            if res.status == 0:
                ctx.check([int(x) for x in res.out.split()] == [t for t, _ in events], "output", lambda: "%s: %r" % (where, res))
            else:
                ctx.check(not control, "refused", lambda: "%s: %r" % (where, res))
            ctx.distinct(tool, alias, legacy, n)
            ctx.count("generator_runs")
        ctx.sample({"tool": tool, "alias": alias, "events": n})
