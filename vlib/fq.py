"""Building, driving and modelling freqcd (standard library only)."""
import array
import errno
import fcntl
import os
import select
import shutil
import signal
import socket
import stat
import struct
import subprocess
import termios
import time

from vlib import core

M54 = (1 << 54) - 1
LIMIT = 60.0     # generous wall-clock limit for anything freqcd should do at once


# ---------------------------------------------------------------- building
def build(out, flags="", cc="/usr/bin/gcc", link=""):
    """Builds freqcd with the project's own Makefile in a scratch copy of the tree;
    a 'gcc' wrapper in PATH adds instrumentation flags."""
    work = out + ".build"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "bin"))
    shutil.copytree(os.path.join(core.REPO, "src"), os.path.join(work, "src"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(core.REPO, "Makefile"), os.path.join(work, "Makefile"))
    wrap = os.path.join(work, "bin", "gcc")
    with open(wrap, "w") as f:
        f.write('#!/bin/sh\nexec %s -w %s "$@" %s\n' % (cc, flags, link))
    os.chmod(wrap, 0o755)
    env = dict(os.environ, PATH=os.path.join(work, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
    for attempt in range(3):
        r = subprocess.run(["make", "all"], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            break
    else:
        raise core.HarnessError("freqcd does not build: " + r.stdout.decode("latin1")[-2000:])
    shutil.copy(os.path.join(work, "src", "fpfind", "freqcd"), out)
    os.chmod(out, 0o755)
    shutil.rmtree(work, ignore_errors=True)
    return out


# ---------------------------------------------------------------- events
def encode(words, legacy=False):
    """words: 64-bit event values (54-bit time << 10 | payload)."""
    if legacy:
        return b"".join(struct.pack("<II", w >> 32, w & 0xFFFFFFFF) for w in words)
    return b"".join(struct.pack("<Q", w) for w in words)


def decode(data, legacy=False):
    n = len(data) // 8
    if legacy:
        out = []
        for i in range(n):
            a, b = struct.unpack_from("<II", data, 8 * i)
            out.append((a << 32) | b)
        return out
    return list(struct.unpack_from("<%dQ" % n, data))


GAPS = {
    "zero": lambda r: 0,
    "tiny": lambda r: r.randrange(0, 5000),
    "typical": lambda r: int(r.expovariate(1 / 2.5e6)),
    "slow": lambda r: int(r.expovariate(1 / 2.5e9)),
    "second": lambda r: r.randrange(1 << 34, 1 << 40),
    "hour": lambda r: r.randrange(1 << 44, 1 << 50),
    "full": lambda r: M54 - r.choice([r.randrange(1, 50), r.randrange(1 << 34), r.randrange(1 << 36)]),
    "huge": lambda r: r.randrange(1 << 50, M54 - 1),
    "edge": lambda r: max(0, (1 << r.randrange(0, 54)) + r.randrange(-2, 3)),
}


def gen_times(r, n, profile=None, start=None):
    """Time-ordered (modulo 2^54) list of 54-bit times."""
    profile = profile or r.choice(["zero", "tiny", "typical", "typical", "slow", "second", "hour", "huge", "full", "edge", "mixed", "mixed"])
    if start is None:
        start = r.choice([0, 1, r.randrange(1 << 54), r.randrange(1 << 34), M54 - r.randrange(1 << 20),
                          M54 - r.randrange(1 << 45), (1 << 32) - 5, (1 << 53) - 3, r.randrange(1 << 54)])
    names = list(GAPS)
    t, out = start, []
    for _ in range(n):
        out.append(t & M54)
        g = GAPS[r.choice(names) if profile == "mixed" else profile](r)
        t += min(g, M54 - 1)
    return out, profile


def gen_words(r, n, profile=None, start=None):
    times, profile = gen_times(r, n, profile, start)
    mode = r.choice(["any", "any", "ones", "pattern"])
    pay = {"any": lambda: r.randrange(1024), "ones": lambda: 1023, "pattern": lambda: 1 << r.randrange(4)}[mode]
    return [(t << 10) | pay() for t in times], profile


def gen_corr(r):
    return r.choice([0, 1, -1, 2, -2, 1000, -1000, 2097151, -2097151, 2097150, 1 << 20, -(1 << 20), 34000, -171799,
                     r.randrange(-2097151, 2097152), r.randrange(-2097151, 2097152), r.randrange(-3000, 3001)])


def decimal_units(d):
    """0.1 ppb -> 2^-34 units, rounded toward zero (exact rational arithmetic)."""
    n = abs(d) * (1 << 34) // 10 ** 10
    return n if d >= 0 else -n


# ---------------------------------------------------------------- model
def check_law(ctx, win, wout, segs, tol=2, where=""):
    """Compares output events with the exact law. 'segs' is a list of
    (first event index, correction): the correction in force for the time that
    elapses between event first-1 and later events. Payload bits must be equal."""
    n = len(win)
    ctx.check(len(wout) == n, "event-count", "%d events in, %d out %s" % (n, len(wout), where))
    if n == 0:
        return 0
    tin = [w >> 10 for w in win]
    elapsed = [0] * n
    for i in range(1, n):
        elapsed[i] = elapsed[i - 1] + ((tin[i] - tin[i - 1]) & M54)
    if not segs or segs[0][0] != 0:
        raise core.HarnessError("bad model segments")
    ctx.check(wout[0] >> 10 == tin[0], "first-event", "first event %x -> %x %s" % (win[0], wout[0], where))
    one = 1 << 34
    worst = 0
    full = 1 << 88
    for si, (first, f) in enumerate(segs):
        last = segs[si + 1][0] if si + 1 < len(segs) else n
        base = max(first - 1, 0)
        ti0, to0, e0 = tin[base], wout[base] >> 10, elapsed[base]
        for i in range(max(first, 1), last):
            de = elapsed[i] - e0
            want = (to0 + de) * one + f * de              # exact, in 2^-34 units of 4 ps
            err = ((wout[i] >> 10) * one - want) % full
            if err > full >> 1:
                err -= full
            worst = max(worst, abs(err))
            if abs(err) > tol * one:
                ctx.fail("law", "event %d (time %d, elapsed %d since event %d, correction %d): output time %d, off by %.3f units %s"
                         % (i, tin[i], de, base, f, wout[i] >> 10, err / one, where))
    for i in range(n):
        if (wout[i] ^ win[i]) & 1023:
            ctx.fail("payload", "event %d: %016x -> %016x %s" % (i, win[i], wout[i], where))
    ctx.count("events_compared", n)
    return worst / one


def check_order(ctx, win, wout):
    """Time-ordered input must stay time-ordered modulo the wrap: every output step is
    the small non-negative continuation of the previous one."""
    for i in range(1, len(wout)):
        din = ((win[i] >> 10) - (win[i - 1] >> 10)) & M54
        dout = ((wout[i] >> 10) - (wout[i - 1] >> 10)) & M54
        # |dout - din| <= din*2^-13 + 2, hence a decrease shows as a value near 2^54
        slack = (din >> 13) + 3
        if din + slack < M54 and dout > din + slack:
            ctx.fail("order", "events %d,%d: input advances by %d, output goes from %d to %d"
                     % (i - 1, i, din, wout[i - 1] >> 10, wout[i] >> 10))


# ---------------------------------------------------------------- process driver
def fionread(fd):
    buf = array.array("i", [0])
    fcntl.ioctl(fd, termios.FIONREAD, buf)
    return buf[0]


class Proc:
    """One freqcd process with a controllable delivery schedule.

    inmode:  pipe | file | redirect | fifo | socket
    outmode: file | pipe | fifo
    freq:    None | 'fifo' | 'late' (FIFO without any writer until first used) | bytes (regular file content)
    """
    def __init__(self, ctx, exe, args=(), inmode="pipe", data=None, outmode="redirect", freq=None, env=None, pre=(), stderr_name="stderr",
                 preexec=None):
        self.ctx = ctx
        self.dir = ctx.fresh("fq")
        self.inmode, self.outmode = inmode, outmode
        self.slow_consumer = False
        argv = list(pre) + [exe]
        stdin, stdout = subprocess.DEVNULL, subprocess.DEVNULL
        close = []
        self.wfd = self.rfd = self.fwfd = self.frfd = None
        self.outpath = os.path.join(self.dir, "out")
        if inmode == "pipe":
            r, w = os.pipe()
            stdin, self.wfd, self.rfd = r, w, r
        elif inmode == "socket":
            a, b = socket.socketpair()
            r, w = a.detach(), b.detach()
            stdin, self.wfd, self.rfd = r, w, r
        elif inmode == "fifo":
            p = os.path.join(self.dir, "in")
            os.mkfifo(p)
            self.rfd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            self.wfd = os.open(p, os.O_WRONLY)
            argv += ["-i", p]
        elif inmode in ("file", "redirect"):
            p = os.path.join(self.dir, "in")
            with open(p, "wb") as f:
                f.write(data)
            if inmode == "file":
                argv += ["-i", p]
            else:
                stdin = os.open(p, os.O_RDONLY)
                close.append(stdin)
        else:
            raise core.HarnessError(inmode)
        if outmode == "redirect":
            stdout = os.open(self.outpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            close.append(stdout)
        elif outmode == "file":
            argv += ["-o", self.outpath]
        elif outmode == "pipe":
            self.ofd, stdout = os.pipe()
            close.append(stdout)
        elif outmode == "fifo":
            p = os.path.join(self.dir, "outfifo")
            os.mkfifo(p)
            self.ofd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            argv += ["-o", p]
        if freq in ("fifo", "late"):
            p = os.path.join(self.dir, "freq")
            os.mkfifo(p)
            self.frfd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
            if freq == "fifo":
                self.fwfd = os.open(p, os.O_WRONLY)
            argv += ["-F", p]
        elif freq is not None:
            p = os.path.join(self.dir, "freq")
            with open(p, "wb") as f:
                f.write(freq)
            argv += ["-F", p]
        argv += [str(a) for a in args]
        self.argv = argv
        self.errpath = os.path.join(self.dir, stderr_name)
        err = os.open(self.errpath, os.O_WRONLY | os.O_CREAT)
        close.append(err)
        self.p = subprocess.Popen(argv, stdin=stdin, stdout=stdout, stderr=err, cwd=self.dir, env=env, preexec_fn=preexec)
        for fd in close:
            os.close(fd)
        if self.frfd is not None:
            # freqcd must have opened the correction FIFO before its peers are closed
            self._wait_open(os.path.join(self.dir, "freq"))
        if inmode == "fifo":
            self._wait_open(os.path.join(self.dir, "in"))

    def _wait_open(self, path):
        t0 = time.time()
        while time.time() - t0 < LIMIT and self.p.poll() is None:
            try:
                for fd in os.listdir("/proc/%d/fd" % self.p.pid):
                    try:
                        if os.readlink("/proc/%d/fd/%s" % (self.p.pid, fd)) == path:
                            return
                    except OSError:
                        pass
            except OSError:
                return
            time.sleep(0.0005)

    # -- delivery
    def _drain(self, fd, what):
        t0 = time.time()
        pause = 0.00002
        while True:
            try:
                if fionread(fd) == 0:
                    return True
            except OSError:
                return False
            if self.p.poll() is not None:
                return False
            if self.slow_consumer and time.time() - t0 > 0.02:
                self.read_out()           # it may be waiting for us
            if time.time() - t0 > LIMIT:
                self.ctx.fail("stalled", "%s: freqcd did not read pending %s" % (self.argv, what))
            time.sleep(pause)
            pause = min(pause * 1.5, 0.002)

    def feed(self, data, wait=True):
        """Delivers one piece of the event stream; with wait, returns once it was read."""
        off = 0
        while off < len(data):
            piece = data[off:off + 32768]
            try:
                n = os.write(self.wfd, piece)
            except (BrokenPipeError, ConnectionError):
                return False
            off += n
            if (wait or len(data) > 32768) and not self._drain(self.rfd, "events"):
                return False
        return True

    def feed_freq(self, data, wait=True):
        try:
            if self.fwfd is None and self.frfd is not None:
                self.fwfd = os.open(os.path.join(self.dir, "freq"), os.O_WRONLY)
            os.write(self.fwfd, data)
        except BrokenPipeError:
            return False
        return self._drain(self.frfd, "corrections") if wait else True

    def close_freq(self):
        for name in ("fwfd", "frfd"):
            fd = getattr(self, name)
            if fd is not None:
                os.close(fd)
                setattr(self, name, None)

    def close_input(self):
        if self.wfd is not None:
            if self.inmode == "socket":
                s = socket.socket(fileno=self.wfd)
                s.shutdown(socket.SHUT_WR)
                self._sock = s
            else:
                os.close(self.wfd)
            self.wfd = None
        if self.rfd is not None:
            os.close(self.rfd)
            self.rfd = None

    def read_out(self):
        """Non-blocking snapshot of what has been written so far."""
        if self.outmode in ("redirect", "file"):
            try:
                with open(self.outpath, "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return b""
        self._buf = getattr(self, "_buf", b"")
        while True:
            r, _, _ = select.select([self.ofd], [], [], 0)
            if not r:
                break
            try:
                d = os.read(self.ofd, 1 << 16)
            except BlockingIOError:
                break
            if not d:
                self._eof = True
                break
            self._buf += d
        return self._buf

    def finish(self, limit=LIMIT):
        """Ends the input, waits for the process, returns (status, output, stderr)."""
        self.close_input()
        t0 = time.time()
        pause = 0.0002
        while self.p.poll() is None:
            if self.outmode in ("pipe", "fifo"):
                self.read_out()
            if time.time() - t0 > limit:
                self.p.kill()
                self.p.wait()
                self.cleanup()
                self.ctx.fail("hang", "%s did not end within %d s after its input ended" % (self.argv, limit))
            time.sleep(pause)
            pause = min(pause * 1.5, 0.01)
        out = self.read_out()
        with open(self.errpath, "rb") as f:
            err = f.read()
        rc = self.p.returncode
        self.cleanup()
        return rc, out, err

    def kill(self, sig=signal.SIGKILL):
        try:
            self.p.send_signal(sig)
        except OSError:
            pass

    def cleanup(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.close_freq()
        for name in ("wfd", "rfd", "ofd"):
            fd = getattr(self, name, None)
            if fd is not None:
                try:
                    os.close(fd)
                except OSError:
                    pass
                setattr(self, name, None)
        s = getattr(self, "_sock", None)
        if s is not None:
            s.close()
            self._sock = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def cputime(self):
        with open("/proc/%d/stat" % self.p.pid) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")


def simple(ctx, exe, args, data, **kw):
    """One run with everything on stdin at once."""
    p = Proc(ctx, exe, args, inmode="redirect", data=data, **kw)
    return p.finish()


def chunks(r, n, style=None):
    """Random split of n bytes into piece sizes."""
    style = style or r.choice(["bytes", "tiny", "event", "torn", "mixed", "big", "buffer"])
    out = []
    left = n
    while left > 0:
        c = {"bytes": lambda: 1, "tiny": lambda: r.randrange(1, 8), "event": lambda: 8, "torn": lambda: r.choice([7, 9, 15, 17, 3, 5, 13]),
             "mixed": lambda: r.choice([1, 2, 7, 8, 9, 16, 24, 100, 1000, 4096, 8191, 8192, 8193]),
             "big": lambda: r.randrange(1, 20000), "buffer": lambda: r.choice([8192, 8191, 8193, 8184, 8200, 16384])}[style]()
        c = min(c, left)
        out.append(c)
        left -= c
    return out, style
