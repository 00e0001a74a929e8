"""Synthetic correlated event streams with exactly known offsets (needs numpy).

All times are integers in units of 4 ps (1/256 ns). Relative to the common time
reference 'ref', every true pair obeys  target - ref = (reference - ref)*(1+df) + dt.
"""
import os
import struct

import numpy as np

U = 256          # units per ns


class Data:
    pass


def make(rng, dur, dt, df, pairs, noise_a, noise_b, ref=None, skip=0.0, jitter=0.3, lead=None, who=None):
    """dur: ns after 'ref'; pairs, noise_*: events per ns; lead: ns by which the other
    stream starts before the common start; skip: seconds between common start and ref."""
    d = Data()
    start = int(rng.integers(1 << 45, 1 << 52)) if ref is None else int(ref) - int(round(skip * 1e9)) * U
    skip_u = int(round(skip * 1e9)) * U
    d.start, d.ref, d.dt, d.df, d.dur = start, start + skip_u, dt, df, dur
    total = dur + skip * 1e9
    lead = float(rng.uniform(0, 0.05 * dur)) if lead is None else lead
    who = int(rng.integers(2)) if who is None else who       # 0: reference starts early, 1: target does
    lo = -(lead + abs(dt) + 10) - skip * 1e9
    n = rng.poisson(pairs * (dur - lo + abs(dt)))
    ta = np.sort(rng.uniform(lo, dur + abs(dt), n))         # relative to ref, ns
    tb = ta + ta * df + dt
    ta = ta + rng.normal(0, jitter, n) if jitter else ta
    tb = tb + rng.normal(0, jitter, n) if jitter else tb
    na = rng.uniform(lo, dur + abs(dt), rng.poisson(noise_a * (dur - lo + abs(dt))))
    nb = rng.uniform(lo, dur + abs(dt), rng.poisson(noise_b * (dur - lo + abs(dt))))
    a = np.sort(np.round(np.concatenate([ta, na]) * U).astype(np.int64))
    b = np.sort(np.round(np.concatenate([tb, nb]) * U).astype(np.int64))
    end = int(dur * U)
    ea, eb = (-int(lead * U), 0) if who == 0 else (0, -int(lead * U))
    a = a[(a >= ea - skip_u) & (a <= end)]
    b = b[(b >= eb - skip_u) & (b <= end)]
    # the later stream starts exactly at the common start
    if who == 0:
        b = np.concatenate([[-skip_u], b[b > -skip_u]])
    else:
        a = np.concatenate([[-skip_u], a[a > -skip_u]])
    d.a, d.b = (a + d.ref).astype(np.uint64), (b + d.ref).astype(np.uint64)
    d.pairs_in = n
    return d


def write_a1(path, t, legacy=False, pat=None):
    w = (np.asarray(t, dtype=np.uint64) & np.uint64((1 << 54) - 1)) << np.uint64(10)
    w = w | (np.uint64(1) if pat is None else np.asarray(pat, dtype=np.uint64))
    if legacy:
        w = (w >> np.uint64(32)) | ((w & np.uint64(0xFFFFFFFF)) << np.uint64(32))
    w.tofile(str(path))
    return str(path)


def read_a1(path, legacy=False):
    w = np.fromfile(str(path), dtype="<u8")
    if legacy:
        w = (w >> np.uint64(32)) | ((w & np.uint64(0xFFFFFFFF)) << np.uint64(32))
    return w >> np.uint64(10)


def write_epochs(d, times, epoch0, kind):
    """times: 4 ps units since the start of epoch 'epoch0'. One file per epoch up to
    the last one (empty ones included)."""
    from checks.epochs import enc_t1, enc_t2
    os.makedirs(d, exist_ok=True)
    times = np.asarray(times, dtype=np.uint64)
    idx = times >> np.uint64(37)
    for e in range(int(idx[-1]) + 1):
        t = (times[idx == e] & np.uint64((1 << 37) - 1)).tolist()
        name = os.path.join(d, "%x" % (epoch0 + e))
        with open(name, "wb") as f:
            if kind == "T1":
                f.write(enc_t1(epoch0 + e, [(x, 1) for x in t]))
            else:
                deltas, last = [], 0
                for x in t:
                    x >>= 5
                    deltas.append((x - last, 1))
                    last = x
                f.write(enc_t2(epoch0 + e, deltas, 20, 4))
