"""Helpers for the checks that run the Python code in-process: command-line entry
points, timestamp files encoded independently of the code under test."""
import contextlib
import hashlib
import importlib
import io
import os
import random
import struct
import subprocess
import sys
import traceback

from vlib import core

M54 = (1 << 54) - 1


class Result:
    """Outcome of one command-line run: status 0 / nonzero, captured streams."""
    def __init__(self, status, out, err, exc=None):
        self.status, self.out, self.err, self.exc = status, out, err, exc

    def __repr__(self):
        return "status=%s out=%r err=%r" % (self.status, self.out[-1500:], self.err[-1500:])


class _Stream(io.TextIOWrapper):
    """Text stream with a .buffer, as sys.stdout has."""
    def __init__(self):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding="utf-8", errors="surrogateescape", write_through=True)

    def text(self):
        self.flush()
        return self.raw_bytes.getvalue().decode("utf-8", "surrogateescape")


def run_main(module, args, stdin=None):
    """Runs module.main() with the given arguments, capturing its streams."""
    mod = importlib.import_module(module)
    out, err = _Stream(), _Stream()
    argv, oldin = sys.argv, sys.stdin
    sys.argv = [getattr(mod, "__file__", module)] + [str(a) for a in args]
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin))
    status, exc = 0, None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.main()
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except core.Violation:
                raise
            except Exception as e:          # uncaught: the interpreter would exit with 1
                status, exc = 1, e
                err.write(traceback.format_exc())
    finally:
        sys.argv, sys.stdin = argv, oldin
    return Result(status, out.text(), err.text(), exc)


def run_sub(module, args, stdin=b"", env=None, cwd=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([core.PYPY, "-B", "-m", module] + [str(a) for a in args], input=stdin, env=e, cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    res = Result(p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "surrogateescape"))
    res.raw = p.stdout
    return res


# ------------------------------------------------------------------ snapshots
def snap(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = "dir"
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()
    return out


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


# ------------------------------------------------------------------ timestamp files
FORMATS = ["a0", "a1", "a1x", "a2"]


def enc(fmt, events, junk=None, upper=False, final_newline=True):
    """Independent encoder; events = [(t, p)], junk = values of unused bits 4-9."""
    words = []
    for k, (t, p) in enumerate(events):
        w = (t << 10) | p
        if junk is not None:
            w |= junk[k] << 4
        words.append(w)
    if fmt == "a1":
        return struct.pack("<%dQ" % len(words), *words)
    if fmt == "a1x":
        flat = []
        for w in words:
            flat += [w >> 32, w & 0xFFFFFFFF]
        return struct.pack("<%dI" % len(flat), *flat)
    if fmt == "a2":
        s = "".join("%016x\n" % w for w in words)
    else:
        s = "".join("%08x\n%08x\n" % (w & 0xFFFFFFFF, w >> 32) for w in words)
    if upper:
        s = s.upper()
    if not final_newline:
        s = s[:-1]
    return s.encode()


def dec(fmt, data):
    """Independent strict decoder of canonical files -> [(t, p, unused bits)]."""
    if fmt in ("a1", "a1x"):
        if len(data) % 8:
            raise ValueError("partial event")
        n = len(data) // 8
        if fmt == "a1":
            words = struct.unpack("<%dQ" % n, data)
        else:
            flat = struct.unpack("<%dI" % (2 * n), data)
            words = [(flat[2 * k] << 32) | flat[2 * k + 1] for k in range(n)]
    else:
        lines = data.decode("ascii").splitlines()
        width = 16 if fmt == "a2" else 8
        if any(len(x) != width or x != x.lower() for x in lines) or (data and not data.endswith(b"\n")):
            raise ValueError("not canonical text")
        v = [int(x, 16) for x in lines]
        words = v if fmt == "a2" else [(v[2 * k + 1] << 32) | v[2 * k] for k in range(len(v) // 2)]
    return [(w >> 10, w & 15, (w >> 4) & 63) for w in words]


def gen_events(r, n, sort=None, maxt=M54):
    """n events: 54-bit times of various scales, 4-bit patterns of various kinds."""
    style = r.choice(["uniform", "dense", "dense", "low", "edges", "repeat", "high"])
    if style == "uniform":
        ts = [r.randrange(maxt + 1) for _ in range(n)]
    elif style == "low":
        ts = [r.randrange(1 << r.choice([1, 8, 9, 12, 20])) for _ in range(n)]
    elif style == "edges":
        ts = [min(maxt, max(0, (1 << r.randrange(0, 55)) + r.randrange(-3, 4))) for _ in range(n)]
    elif style == "repeat":
        b = r.randrange(maxt + 1)
        ts = [b] * n
    else:
        t = r.randrange(maxt + 1) if style == "dense" else max(0, maxt - 3 * n - r.randrange(300))
        step = r.choice([2, 3, 300, 100000, 10 ** 7]) if style == "dense" else 3
        ts = []
        for _ in range(n):
            ts.append(min(t, maxt))
            t += r.randrange(step)
    if sort is None:
        sort = r.random() < 0.8
    if sort:
        ts.sort()
    pk = r.choice(["any", "any", "single", "zero", "one", "multi"])
    pat = {"any": lambda: r.randrange(16), "single": lambda: 1 << r.randrange(4), "zero": lambda: 0, "one": lambda q=r.randrange(16): q,
           "multi": lambda: r.choice([0, 3, 5, 15, 7, 1])}[pk]
    return [(t, pat()) for t in ts]
