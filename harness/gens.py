"""Input generators: all randomness comes from the seed."""
import os
from fractions import Fraction

import numpy as np

import lits

REPO = os.environ.get("PROADV_REPO", "/repo")
_ds = {}


def dataset():
    if not _ds:
        for f in ("first", "second"):
            p = os.path.join(REPO, "dataset", f + ".csv")
            try:
                _ds[f] = np.loadtxt(p, delimiter=",", skiprows=1)
            except Exception:
                _ds[f] = None
    return [d for d in _ds.values() if d is not None]


STYLES = ["int", "dec2", "gauss", "offset", "walk", "spiky", "step", "sine", "big", "tiny", "dups", "neg", "mixed",
          "lone", "slow", "dataset"]


WILD = [0.12]          # probability of an unusual size, parameter or sample


def size(rng, lo, hi, cap=None):
    """a size in [lo, hi): sometimes one near a literal of the code under test (up to cap)"""
    if rng.random() < WILD[0]:
        cap = cap or 2600
        for _ in range(6):
            v = int(min(abs(lits.pick(rng)), 1e6)) + int(rng.choice([-1, 0, 1, 2]))
            if rng.random() < .25:
                v *= 2
            if lo <= v <= cap:
                return v
        return int(rng.choice([lo, lo + 1, max(lo, min(cap, 2 * hi))]))
    return int(rng.integers(lo, hi))


def longs(rng, tier, m=None):
    """lengths of long records (the tests and the small-scope models stay far below)"""
    L = [int(rng.integers(500, 1100)), int(rng.choice([1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097])), int(rng.integers(2500, 7000))]
    if tier == "thorough":
        L += [int(rng.integers(300, 9000)) for _ in range(12)] + [10001]
    return [v for v in L if m is None or v <= m]


def huges(rng, tier):
    """lengths beyond 16-bit counters"""
    if WILD[0] > .3:            # not while looking for new paths
        return []
    return [int(rng.integers(65600, 70000))] + ([int(rng.integers(32800, 40000)), 131080] if tier == "thorough" else [])


def hflags(rng, n, k=8):
    """flagged positions all over a very long record, runs included"""
    S = {40, 32766, 32767, 32768, 65535, 65536, n - 45} | {int(v) for v in rng.integers(32, n - 40, k)}
    a = int(rng.integers(33000, n - 400))
    return sorted(i for i in S | set(range(a, a + int(rng.integers(2, 300)))) if 0 <= i < n - 32)


def par(rng, choices, lo=None, hi=None, integer=False):
    """a parameter: one of the choices, an end of the admissible range, or one near a literal"""
    if rng.random() < 2 * WILD[0]:
        for _ in range(8):
            r = rng.random()
            if r < .25 and lo is not None:
                v = lo
            elif r < .4 and hi is not None:
                v = hi
            else:
                v = lits.pick(rng) * float(rng.choice([1, 1, .5, 2, 1 - 1e-9, 1 + 1e-9, .1, -1]))
                if rng.random() < .2:
                    v += float(rng.choice([-1, 1]))
            if integer:
                v = int(v)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v if integer else float(v)
    v = choices[int(rng.integers(len(choices)))]
    return int(v) if integer else float(v)


def special(rng, x):
    """an unusual variant of the series"""
    x = np.array(x, dtype=float)
    n = x.size
    if n == 0:
        return x
    k = int(rng.integers(0, 20))
    i = int(rng.integers(n))
    if k == 0:
        x[0] = 0.0
    elif k == 1:
        x[-1] = 0.0
    elif k == 2:
        x[i] = x[i - 1]
    elif k == 3:
        x[i] = float(np.clip(lits.pick(rng), -1e6, 1e6))
    elif k == 4:
        x[i:i + 5] = x[i]
    elif k == 5:
        x = np.sort(x)
    elif k == 6:
        x = np.sort(x)[::-1].copy()
    elif k == 7:
        x = -x
    elif k == 8:
        x[:] = x[0]
        x[i] += 1.0
    elif k == 9:
        x[0] = x.max()
    elif k == 10:
        x[-1] = x.min()
    elif k == 11:
        x = np.round(x)
    elif k == 12:
        x[i] = float(np.mean(x))
    elif k == 13:
        x = x - np.mean(x)
    elif k == 14:
        x[n // 2:] = x[:n - n // 2]
    elif k == 15:
        x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * np.abs(x)
    elif k == 16:
        x[rng.random(n) < .5] = 0.0
    elif k >= 18:
        x = x * 10.0 ** float(rng.choice([-8, -6, -5, -4, 4]))
    else:
        x = np.clip(x, np.percentile(x, 20), np.percentile(x, 80))
    return x


def series(rng, n, style=None):
    x = _series(rng, n, style)
    return special(rng, x) if rng.random() < WILD[0] else x


def _series(rng, n, style=None):
    s = style or STYLES[rng.integers(len(STYLES))]
    g = rng.standard_normal(n)
    if s == "int":
        x = rng.integers(-9, 10, n).astype(float)
    elif s == "dec2":
        x = np.round(rng.uniform(-30, 30, n), 2)
    elif s == "gauss":
        x = g
    elif s == "offset":
        x = g + rng.choice([100.0, -1000.0, 1e4])
    elif s == "walk":
        x = np.cumsum(g)
    elif s == "spiky":
        x = np.round(g * 3 + 10, 2)
        k = max(1, n // 12)
        x[rng.integers(0, n, k)] += rng.choice([-1, 1], k) * rng.uniform(20, 90, k)
    elif s == "step":
        x = np.where(np.arange(n) < rng.integers(0, n + 1), 2.5, -7.25) + (0 if rng.random() < .3 else 1) * np.round(g, 3)
    elif s == "sine":
        x = 5 * np.sin(2 * np.pi * np.arange(n) / rng.uniform(3, 40)) + rng.uniform(-2, 2)
    elif s == "big":
        x = g * 1e6
    elif s == "tiny":
        x = g * 1e-3
    elif s == "dups":
        x = rng.choice([0.0, 1.5, -2.25, 4.0], n)
    elif s == "neg":
        x = -np.abs(g) * 10 - 1
    elif s == "lone":
        x = g * float(rng.choice([0, 1e-2, 1]))
        x[rng.integers(n)] += float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(0, 4))
    elif s == "slow":
        x = float(rng.choice([0, 50, 2000])) + float(rng.choice([.02, .3, 2])) * np.sin(2 * np.pi * np.arange(n) / rng.uniform(12, 90)) + g * float(rng.choice([0, 1e-3]))
    elif s == "mixed":
        x = g * 10.0 ** rng.integers(-3, 4, n)
    else:
        ds = dataset()
        if not ds:
            x = g
        else:
            d = ds[rng.integers(len(ds))]
            c = rng.integers(d.shape[1])
            o = rng.integers(0, max(1, d.shape[0] - n))
            x = d[o:o + n, c].copy()
            if x.size < n:
                x = g
    return np.asarray(x, dtype=float)


def flags(rng, n, kind=None):
    kinds = ["none", "one", "first", "last", "ends", "run", "runs", "rand", "dense", "alt", "near", "butone", "headrun", "tailrun"]
    k = kind or kinds[rng.integers(len(kinds))]
    S = set()
    if n == 0 or k == "none":
        return []
    if k == "one":
        S = {int(rng.integers(n))}
    elif k == "first":
        S = {0}
    elif k == "last":
        S = {n - 1}
    elif k == "ends":
        S = {0, n - 1} | {int(rng.integers(n))}
    elif k == "run":
        a = int(rng.integers(n))
        S = set(range(a, min(n, a + int(rng.integers(1, max(2, n // 2))))))
    elif k == "runs":
        for _ in range(int(rng.integers(2, 5))):
            a = int(rng.integers(n))
            S |= set(range(a, min(n, a + int(rng.integers(1, 5)))))
    elif k == "rand":
        p = rng.uniform(0.02, 0.4)
        S = {i for i in range(n) if rng.random() < p}
    elif k == "dense":
        S = {i for i in range(n) if rng.random() < 0.75}
    elif k == "alt":
        S = set(range(int(rng.integers(2)), n, 2))
    elif k == "near":
        a = int(rng.integers(n))
        S = {i for i in (a - 2, a, a + 1, a + 3) if 0 <= i < n}
    elif k == "butone":
        S = set(range(n)) - {int(rng.integers(n))}
    elif k == "headrun":
        S = set(range(int(rng.integers(1, max(2, n // 2)))))
    elif k == "tailrun":
        S = set(range(n - int(rng.integers(1, max(2, n // 2))), n))
    return sorted(S)


def dyadic(rng, lo, hi, bits=3):
    """a random exactly representable number with few bits"""
    q = 1 << bits
    return float(Fraction(int(rng.integers(int(lo * q), int(hi * q) + 1)), q))
