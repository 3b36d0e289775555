"""Per-property drivers: which inputs the real code is exercised with."""
import math
from fractions import Fraction

import numpy as np

import hunt
import ops as O
from gens import dataset, dyadic, flags, hflags, huges, longs, par, series, size, STYLES, WILD

DRIVERS = {}


def driver(*ps):
    def deco(f):
        for p in ps:
            DRIVERS[p] = f
        return f
    return deco


def N(tier, q, t):
    return t if tier == "thorough" else q


FORMS = ["arr", "arr", "list", "i32", "tuple"]


def dec(rng):
    return par(rng, [0, 1, 2, 3, 4, 4, 6], 0, 9, True)


# ---------------------------------------------------------------- replacement
def smooth_kw(rng, m, n):
    if m == "sma":
        return {} if n >= 20 and rng.random() < .3 else {"window_size": par(rng, [int(rng.integers(1, n + 1))], 1, n, True)}
    if m == "ema":
        return {} if rng.random() < .3 else {"alpha": par(rng, [0.05, 0.2, 0.5, 0.9, 1.0], 0, 1)}
    if m == "wma":
        return {} if n > 20 and rng.random() < .3 else {"period": par(rng, [int(rng.integers(1, max(2, n // 2)))], 1, n, True)}
    if m == "ssa":
        if rng.random() < .5:
            return {"fs": float(rng.choice([10, 20, 25])), "f": float(rng.choice([2, 2.5, 4]))}
        return dict(zip(("fs", "f"), rates(rng, int(rng.integers(3, 9)))))
    Q, R = par(rng, [1e-3, 0.1, 1], 0, 1e4), par(rng, [0.05, 1, 10], 0, 1e4)
    return {"initial_state": par(rng, [float(np.round(rng.normal(), 2))], -1e4, 1e4), "initial_covariance": par(rng, [0.5, 1, 4], 0, 1e4),
            "process_noise": Q if Q + R > 0 else 0.5, "measurement_noise": R}


def rates(rng, L):
    """frequencies of any magnitude with a window of L samples"""
    f = float(np.round(10.0 ** rng.uniform(-2, 3), int(rng.integers(2, 6)))) or 0.01
    return float(np.round(f * (L - float(rng.uniform(.05, .95))), 7)), f


def rep_case(rng, m, nmax=60):
    if m == "cubic":
        n = int(rng.choice([5, 14, 25, 40, 62, 70, 90, 110])) if rng.random() < .8 else size(rng, 5, 140, 2600)
    elif m == "poly":
        n = int(rng.choice([8, 13, 20, 40, 90, 130])) if rng.random() < .8 else size(rng, 8, 140, 600)
    else:
        n = size(rng, 1, nmax) if m in ("linear", "last", "mean", "median") else size(rng, 14, nmax, 1500)
    if m == "last" and n == 1:
        n = 2
    x = series(rng, n)
    if m == "poly":
        x = series(rng, n, str(rng.choice(["int", "dec2", "gauss", "walk", "spiky", "sine", "dups", "dataset", "neg"])))
    idx = flags(rng, n)
    kw = {}
    if m in ("linear", "cubic", "poly"):
        if rng.random() < .75:
            kw["decimals"] = dec(rng)
    if m == "poly":
        kw["window"] = par(rng, [6, 12, 20, 50, 100], 4, 200, True)
        kw["degree"] = int(rng.choice([1, 2, 2, 3]))
        if rng.random() < .2:
            kw.pop("window"), kw.pop("degree")
    if m in ("sma", "ema", "wma", "ssa", "kalman"):
        kw = smooth_kw(rng, m, n)
    if m == "wma" and rng.random() < .85:
        per = kw.get("period", 20)
        idx = [i for i in idx if i < n - per]
    if m in ("last", "cubic") and len(idx) == n:
        idx = idx[1:]
    f = str(rng.choice(FORMS))
    if f == "tuple" and m not in ("linear", "cubic", "last"):
        f = "list"
    if not idx and f in ("list", "tuple") and m not in ("linear", "cubic"):
        f = "arr"
    return O.rep(m, x, idx, f, **kw)


def emitted_rep(rec, emitted, methods):
    """replay of the exhaustive small-scope cases enumerated by MC_Replace"""
    for c in emitted:
        if c.get("op") != "rep" or c.get("kind", methods[0]) not in methods:
            continue
        x = [float(Fraction(v)) for v in c["x"]]
        ev = []
        for m in methods:
            if m in ("last", "cubic") and len(c["idx"]) == len(x):
                continue
            kw = {"decimals": c["dec"]} if m in ("linear", "cubic", "poly") else {}
            if m == "poly":
                kw["window"], kw["degree"] = c.get("window", 12), c.get("deg", 2)
            if m == "sma":
                kw = {"window_size": min(2, len(x))}
            if m == "wma":
                kw = {"period": 1}
                if any(i >= len(x) - 1 for i in c["idx"]):
                    continue
            if m == "kalman":
                kw = {"initial_state": 0.5, "initial_covariance": 1.0, "process_noise": 0.25, "measurement_noise": 0.5}
            if m == "ssa":
                continue
            ev.append(O.rep(m, x, c["idx"], "arr", **kw))
        if ev:
            rec.add(*ev)


@driver("C01")
def c01(rec, rng, tier, emitted):
    ms = ["linear", "last", "mean", "median", "cubic", "poly", "sma", "ema", "wma", "kalman", "ssa"]
    emitted_rep(rec, emitted[:: N(tier, 12, 2)], ms)
    for k in range(N(tier, 40, 400)):
        for m in ms:
            rec.add(rep_case(rng, m))
    # the listed finding: flagged indices beyond the weighted average
    rec.add(O.rep("wma", np.arange(30.0), [3, 29], "arr"))
    # long records
    for m in ms[:4] + ["sma", "ema", "kalman"]:
        x = series(rng, 400, "spiky")
        kw = smooth_kw(rng, m, 400) if m in ("sma", "ema", "kalman") else {}
        rec.add(O.rep(m, x, flags(rng, 400, "rand"), "arr", **kw))
    for n in longs(rng, tier):
        for m in ("linear", "last", "mean", "median", "cubic", "sma", "ema", "wma", "kalman"):
            kw = smooth_kw(rng, m, n) if m in ("sma", "ema", "wma", "kalman") else {}
            idx = [i for i in flags(rng, n, str(rng.choice(["runs", "one", "ends", "near"]))) if m != "wma" or i < n - kw.get("period", 20)]
            rec.add(O.rep(m, series(rng, n, "spiky"), idx, "arr", **kw))
    for n in huges(rng, tier):
        x = series(rng, n, "int")
        for m, kw in (("linear", {}), ("last", {}), ("mean", {}), ("median", {}), ("cubic", {}), ("sma", {"window_size": 8}), ("ema", {"alpha": .5}),
                      ("wma", {"period": 5}), ("poly", {"window": 12, "degree": 1})):
            rec.add(O.rep(m, x, hflags(rng, n), "arr", **kw))


def missing(rng, x, idx):
    """the record with some of the flagged samples missing"""
    x = np.array(x)
    for i in idx:
        if rng.random() < .6:
            x[i] = float("nan")
    return x


@driver("C03")
def c03(rec, rng, tier, emitted):
    emitted_rep(rec, emitted[:: N(tier, 2, 1)], ["linear"])
    for k in range(N(tier, 250, 3000)):
        rec.add(rep_case(rng, "linear"))
    for n in N(tier, (257, 600), (257, 600, 1500, 2500)):
        for kd in ("runs", "rand", "run", "tailrun", "dense"):
            rec.add(O.rep("linear", series(rng, n), flags(rng, n, kd), "arr", decimals=int(rng.choice([2, 4, 6]))))
    for fm in ("arr", "list", "tuple", "i32"):
        for d in (None, 0, 3, 5):
            for idx in ([], [0], [4], [0, 1, 2, 3, 4]):
                kw = {} if d is None else {"decimals": d}
                rec.add(O.rep("linear", [1.23456, -2.5, 3.00015, 7.77777, 0.1], idx, fm, **kw))
    for n in longs(rng, tier):
        for k in ("runs", "ends", "run", "rand"):
            rec.add(O.rep("linear", series(rng, n), flags(rng, n, k), "arr", decimals=dec(rng)))
    for n in huges(rng, tier):
        rec.add(O.rep("linear", series(rng, n, "int"), hflags(rng, n), "arr", decimals=3))
    for k in range(N(tier, 60, 600)):
        n = size(rng, 2, 40)
        x, idx = series(rng, n), flags(rng, n)
        if len(idx) == n:
            idx = idx[1:]
        rec.add(O.rep("linear", missing(rng, x, idx), idx, str(rng.choice(FORMS)), decimals=dec(rng)))


@driver("C04")
def c04(rec, rng, tier, emitted):
    emitted_rep(rec, emitted[:: N(tier, 4, 1)], ["last", "mean", "median"])
    for k in range(N(tier, 120, 1200)):
        for m in ("last", "mean", "median"):
            rec.add(rep_case(rng, m))
    for m in ("last", "mean", "median"):
        for n in N(tier, (300,), (300, 301, 1200)):
            for kd in ("headrun", "run", "dense", "rand"):
                rec.add(O.rep(m, series(rng, n), flags(rng, n, kd), "arr"))
    for n in longs(rng, tier):
        for m in ("last", "mean", "median"):
            for k in ("runs", "headrun", "tailrun"):
                rec.add(O.rep(m, series(rng, n), flags(rng, n, k), "arr"))
    for n in huges(rng, tier):
        for m in ("last", "mean", "median"):
            rec.add(O.rep(m, series(rng, n, "int"), hflags(rng, n) + [n - 1], "arr"))
    for k in range(N(tier, 20, 200)):
        n = size(rng, 3, 40)
        x, idx = series(rng, n), flags(rng, n)
        if len(idx) == n:
            idx = idx[1:]
        rec.add(O.rep("last", missing(rng, x, idx), idx, "arr"))


@driver("C05")
def c05(rec, rng, tier, emitted):
    emitted_rep(rec, [c for c in emitted if "kind" in c] + [c for c in emitted if "kind" not in c][:: N(tier, 12, 2)], ["cubic"])
    for k in range(N(tier, 90, 900)):
        rec.add(rep_case(rng, "cubic"))
    for n in (25, 61, 62, 63, 64, 75, 100):
        for i in sorted({0, 1, 11, 12, 29, 30, 31, 32, 33, n - 33, n - 32, n - 31, n - 30, n - 29, n - 13, n - 12, n - 1}):
            if 0 <= i < n:
                x = series(rng, n, "dec2")
                rec.add(O.rep("cubic", x, [i], "arr", decimals=6))
    # isolated spikes and bursts in the interior, at most / fewer than 12 clean samples after it
    for k in range(N(tier, 30, 300)):
        n = size(rng, 70, 130)
        a = int(rng.integers(31, n - 31))
        burst = sorted({min(n - 1, a + int(j)) for j in rng.integers(0, 20, int(rng.integers(1, 12)))})
        x = series(rng, n)
        rec.add(O.rep("cubic", x, burst, "arr", decimals=int(rng.choice([2, 4, 8]))))
        tail = sorted(set(range(a, n)) - set(rng.integers(a + 1, n, int(rng.integers(9, 15))).tolist()))
        rec.add(O.rep("cubic", x, tail, "arr"))
    # a cubic polynomial is restored
    t = np.arange(100.0)
    for co in ((0, 0, 0, 1), (1e-3, -0.05, 0.3, 2), (-2e-4, 0, 0, 5)):
        y = np.polyval(co, t)
        z = y.copy()
        for i in (31, 45, 60, 68):
            z[i] += 50
            rec.add(O.rep("cubic", z, [i], "arr", decimals=5))
    x = np.round(series(rng, 40, "gauss"), 3)
    for idx in ([-1], [40], [3, 41], [-5, 2]):
        rec.add(O.repbad("cubic", x, idx, "ValueError"))
    rec.add(O.repbad("cubic", x.reshape(4, 10), [1], "ValueError"))
    rec.add(O.repbad("cubic", x.reshape(1, 40), [1], "ValueError"))
    for n in longs(rng, tier):
        rec.add(O.rep("cubic", series(rng, n), flags(rng, n, "runs"), "arr"), O.rep("cubic", series(rng, n), [n // 2, n - 32, n - 31, n - 30], "arr", decimals=6))
        a = int(rng.integers(32, n - 200))
        rec.add(O.rep("cubic", np.round(series(rng, n), 3), list(range(a, a + int(rng.integers(50, 90)))), "arr", decimals=5))
    for n in huges(rng, tier):
        rec.add(O.rep("cubic", series(rng, n, "int"), hflags(rng, n), "arr"))
    for k in range(N(tier, 20, 200)):
        n = int(rng.choice([14, 40, 70, 90, 110]))
        x, idx = series(rng, n), flags(rng, n)
        if len(idx) == n:
            idx = idx[1:]
        rec.add(O.rep("cubic", missing(rng, x, idx), idx, "arr", decimals=6))


@driver("C06")
def c06(rec, rng, tier, emitted):
    emitted_rep(rec, emitted, ["poly"])
    for k in range(N(tier, 120, 1000)):
        rec.add(rep_case(rng, "poly"))
    for n, w in ((30, 12), (60, 20), (130, 100), (220, 100)):
        for i in sorted({0, 1, 5, 10, 11, 12, w - 2, w - 1, w, w + 1, n - 1}):
            if i < n:
                rec.add(O.rep("poly", series(rng, n, "dec2"), [i], str(rng.choice(["arr", "list"])), window=w, degree=2, decimals=4))
                rec.add(O.rep("poly", series(rng, n, "walk"), sorted({0, 3, 10, 11, i}), "arr", window=w, degree=1, decimals=3))
    for n in longs(rng, tier, 3000):
        x = series(rng, n, str(rng.choice(["dec2", "gauss", "spiky"])))
        rec.add(O.rep("poly", x, [n // 3, n // 2, n // 2 + 4, n - 1], "arr"), O.rep("poly", x, [12, n - 2], "arr", window=40, degree=1))
    for k in range(N(tier, 6, 40)):
        n, w = int(rng.integers(380, 700)), int(rng.choice([127, 128, 150, 200, 255, 256, 300, 370]))
        rec.add(O.rep("poly", series(rng, n, str(rng.choice(["dec2", "gauss", "walk", "slow"]))), sorted({w - 1, w, w + 1, n - 1} | {int(v) for v in rng.integers(11, n, 3)}), "arr",
                      window=w, degree=int(rng.choice([1, 2])), decimals=int(rng.choice([3, 6]))))


@driver("C07")
def c07(rec, rng, tier, emitted):
    ms = ["sma", "ema", "wma", "kalman", "ssa"]
    emitted_rep(rec, [c for c in emitted if c["op"] == "rep"][:: N(tier, 12, 2)], ms)
    for k in range(N(tier, 60, 600)):
        for m in ms:
            rec.add(rep_case(rng, m))
    for k in range(N(tier, 60, 300)):
        n, (fs, f) = int(rng.integers(14, 40)), rates(rng, int(rng.integers(2, 9)))
        rec.add(O.rep("ssa", series(rng, n, str(rng.choice(["walk", "gauss", "sine", "spiky"]))), flags(rng, n, "rand"), "arr", fs=fs, f=f))
    for n in (30, 45, 200):
        x = series(rng, n, "spiky")
        idx = flags(rng, n, "rand")
        rec.add(O.rep("sma", x, idx))
        rec.add(O.rep("ema", x, idx))
        rec.add(O.rep("wma", x, [i for i in idx if i < n - 20]))
    rec.add(O.rep("wma", np.arange(30.0), [3, 29], "arr"))
    x = series(rng, 12, "gauss")
    rec.add(O.rep("sma", x, [2], window_size=13))
    rec.add(O.rep("sma", x, [2]))
    rec.add(O.rep("sma", x, [2], window_size=0))
    rec.add(O.rep("ema", x, [2], alpha=0.0))
    rec.add(O.rep("ema", x, [2], alpha=1.5))
    rec.add(O.rep("wma", x, [2], period=13))
    rec.add(O.rep("wma", x, [2], period=0))
    for n in longs(rng, tier):
        for m in ("sma", "ema", "wma", "kalman", "ssa"):
            kw = smooth_kw(rng, m, n)
            if m == "ssa":
                kw = {"fs": 5.0, "f": 1.0}
            if m == "sma" and kw.get("window_size", 20) > 2500:     # the start of the average is quadratic in the window
                kw["window_size"] = 2500
            idx = [i for i in flags(rng, n, str(rng.choice(["runs", "ends", "near"]))) if m != "wma" or i < n - kw.get("period", 20)]
            rec.add(O.rep(m, series(rng, n, "spiky"), idx, "arr", **kw))


# ---------------------------------------------------------------- detectors
def flip_points(flagged, lo, hi, steps=60):
    """parameter values just below / above the point where flagged(t) changes, if it does"""
    a, b = flagged(lo), flagged(hi)
    if a == b:
        return None
    for _ in range(steps):
        m = 0.5 * (lo + hi)
        if m == lo or m == hi:
            break
        if flagged(m) == a:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def has(det, i):
    o = O.call(det)
    try:
        return bool(i in set(np.ravel(o).tolist()))
    except Exception:
        return False


def emitted_series(emitted, op):
    return [c for c in emitted if c.get("op") == op]


@driver("C08")
def c08(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "acc"):
        x = [float(Fraction(v)) for v in c["x"]]
        rec.add(*[O.acc(x, float(Fraction(c["fq"])), t, gravity=float(Fraction(c["g"])), k_gravity=float(Fraction(c["kg"])),
                        k_sigma=float(Fraction(c["ks"]))) for t in (1, 2)])
    for k in range(N(tier, 250, 3000)):
        n = size(rng, 2, 60)
        st = str(rng.choice(["int", "dec2", "spiky", "walk", "gauss", "dataset", "step", "dups", "big", "neg", "sine"]))
        x = series(rng, n, st)
        fq = par(rng, [1, 10, 25, 50, 100, 200], 0.01, 1e4)
        kw = {}
        if rng.random() < .8:
            sc = np.std(np.diff(x)) * fq if n > 2 else 1.0
            kw["gravity"] = par(rng, [980, 9.81, sc, sc * 0.5, 1.0], 0, 1e5)
        if rng.random() < .7:
            kw["k_gravity"] = par(rng, [0, 0.5, 1, 1.5, 2, 0.1], -2, 20)
        if rng.random() < .7:
            kw["k_sigma"] = par(rng, [0, 0.5, 1, 1.5, 2, -0.5], -4, 10)
        rec.add(*[O.acc(x, fq, t, ints=(st == "int" and k % 2 == 0), **kw) for t in (1, 2)])
    for x in ([5.0], [5.0, 5.0, 5.0], [0.1] * 10):
        rec.add(O.acc(x, 100, 1), O.acc(x, 100, 2))
    # samples exactly on a threshold: two-valued series of power-of-two length have an exact mean and deviation
    for k in range(N(tier, 80, 800)):
        n = int(rng.choice([2, 4, 8, 16, 32]))
        a, b = float(rng.integers(1, 40)), float(rng.choice([0, 0, 3, -17]))
        x = b + a * np.where(np.arange(n) % 2 == rng.integers(2), 1.0, -1.0)
        if rng.random() < .5:
            x = rng.permutation(x)
        fq, kg = float(rng.choice([.5, 1, 2, 64])), float(rng.choice([.5, 1, 2, 1.5, 0]))
        g = float(rng.choice([2 * a * fq / kg if kg else 1.0, 1.0, .125, a * fq]))
        if g * 1024 != int(g * 1024):
            g = 1.0
        ks = float(rng.choice([1, 1, -1, .5, 0]))
        rec.add(*[O.acc(x, fq, t, gravity=g, k_gravity=kg, k_sigma=ks) for t in (1, 2)])
    for tag in (0, 3, -1, 12):
        rec.add(O.acc([1.0, 5.0, 1.0, 9.0], 10, tag))
    # threshold bisection on the real code: value and acceleration thresholds
    for k in range(N(tier, 40, 400)):
        n = size(rng, 4, 40, 160)
        x = series(rng, n, str(rng.choice(["gauss", "spiky", "dec2"])))
        i = int(rng.integers(1, n))
        tag = int(rng.integers(1, 3))

        def at(t):
            y = x.copy()
            y[i] = t if tag == 1 else -t
            return y
        kw = {"gravity": 1.0, "k_gravity": float(rng.choice([0.5, 2.0, 5.0])), "k_sigma": float(rng.choice([0.5, 1.0, 1.25]))}
        f = flip_points(lambda t: has(lambda: O.ACC.acceleration_thresholding(at(t), 1.0, tag, **kw), i), -100.0, 400.0)
        if f is not None:
            for d in (-1e-3, -1e-6, 1e-6, 1e-3):
                rec.add(O.acc(at(f + d * max(1, abs(f))), 1.0, tag, **kw))
    for n in huges(rng, tier):
        x = series(rng, n, "int")
        rec.add(O.acc(x, 1.0, 1, gravity=8.0), O.acc(x, 1.0, 2, gravity=8.0))
    for n in longs(rng, tier):
        for st in ("spiky", "walk", "dataset"):
            x = series(rng, n, st)
            g = float(np.std(np.diff(x)))
            rec.add(*[O.acc(x, 1.0, t, gravity=g) for t in (1, 2)], O.acc(x, 100, int(rng.integers(1, 3))))


def edgy(rng):
    """records for hunt.find: a spike, weight at one end, or neither"""
    n = int(rng.integers(6, 45))
    x = series(rng, n, str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2"])))
    if rng.random() < .6:
        x = x - x.mean()
    k = int(rng.integers(4))
    if k == 0:
        x[int(rng.integers(n))] += rng.choice([-1, 1]) * rng.uniform(1, 6) * x.std()
    if k == 1:
        x = x * rng.choice([.05, .3, 1]) + rng.choice([-1, 1]) * rng.uniform(.3, .95) ** np.arange(n)[::-1] * rng.uniform(1, 8) * x.std()
        if rng.random() < .5:
            x = x[::-1]
    # multiples of 0.002: no derivative is on a rounding tie
    return (np.round(np.ascontiguousarray(x) * 500) / 500,)


def heavy(rng):
    """records whose ellipse leans the other way: the weight is at one end"""
    while True:
        n, q = int(rng.integers(8, 40)), rng.uniform(.2, .95)
        x = rng.choice([-1, 1]) * q ** np.arange(n)[::-1] * 10
        if rng.random() < .5:
            x = x + rng.choice([-1, 1]) * q ** rng.uniform(1, 3) * np.arange(n) * rng.uniform(0, .3)
        if rng.random() < .7:
            x = x - x.mean()
        if rng.random() < .3:
            x = x + rng.normal(size=n) * rng.uniform(0, 1)
        x[int(rng.integers(n))] += rng.normal() * rng.uniform(0, 4)
        x = np.round(x * 500) / 500
        if hunt.pst_lean(x) > 0:
            return (x,)


@driver("C09")
def c09(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        rec.add(O.pst([float(Fraction(v)) for v in c["x"]]))
    for k in range(N(tier, 160, 1600)):
        n = size(rng, 3, 48)
        st = str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2", "int", "neg", "dataset", "big", "offset", "step", "dups"]))
        x = series(rng, n, st)
        if rng.random() < .7:
            x = x - x.mean()
        if rng.random() < .3:
            x = np.round(x, 2)
        if rng.random() < .4:
            x[rng.integers(0, n)] += rng.choice([-1, 1]) * rng.uniform(3, 12) * (np.std(x) + .1)
        rec.add(O.pst(x))
    for k in range(N(tier, 60, 600)):
        n = size(rng, 6, 40, 160)
        x = np.round(series(rng, n, str(rng.choice(["gauss", "walk", "sine", "dec2"]))), 2)
        i = int(rng.integers(0, n))
        j = min(n - 1, max(0, i + int(rng.integers(-2, 3))))

        def at(t):
            y = x.copy()
            y[i] = round(x[i] + t, 9)
            return y
        s = float(rng.choice([-1, 1]))
        for tmax in (60.0,):
            f = flip_points(lambda t: has(lambda: O.PST.phasespace_thresholding(at(s * t)), j), 0.0, tmax, 36)
            if f is not None:
                for d in (-0.01, -0.002, -3e-4, 3e-4, 0.002, 0.01):
                    rec.add(O.pst(at(s * (f + d))))
    # slow records with a kink at a zero crossing: outside the ellipse of the two derivatives only
    for k in range(N(tier, 12, 120)):
        n = int(rng.integers(60, 220))
        t = np.arange(n)
        x = sum(rng.uniform(1, 4) * np.sin(2 * np.pi * t / rng.uniform(18, 70) + rng.uniform(0, 6)) for _ in range(2))
        x = np.round(x - x.mean(), 3)
        z = np.nonzero(x[6:-6] * x[7:-5] <= 0)[0] + 6
        if z.size == 0:
            continue
        i = int(rng.choice(z))
        kink = np.where(t >= i, np.exp(-(t - i) / rng.uniform(1, 8)), 0) if k % 2 else np.maximum(0, 1 - np.abs(t - i) / rng.uniform(3, 9))
        s = float(rng.choice([-1, 1]))
        for j in (i - 1, i, i + 1):
            f = flip_points(lambda a: has(lambda: O.PST.phasespace_thresholding(x + s * a * kink), j), 0.0, 8.0, 30)
            if f is not None:
                for d in (-0.02, -0.003, 0.003, 0.02):
                    rec.add(O.pst(np.round(x + s * (f + d) * kink, 9)))
    for x, in hunt.find(hunt.pst, hunt.PST, lambda: edgy(rng), N(tier, 800, 6000), N(tier, 2, 10))[0]:
        rec.add(O.pst(x))
    for x, in hunt.find(hunt.pst, ["negabs", "zero"], lambda: heavy(rng), N(tier, 1500, 8000), N(tier, 3, 12))[0]:
        rec.add(O.pst(x))
    for x in ([0.1] * 7, [3.0] * 12, [1.0, 2.0], [0.0] * 5, [5.0]):
        rec.add(O.pst(x))
    for n in longs(rng, tier):
        x = series(rng, n, str(rng.choice(["spiky", "dec2", "dataset"])))
        rec.add(O.pst(np.round(x - x.mean(), 3)))


def triple(rng, n):
    st = str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2", "int", "dataset", "big", "offset", "neg", "dups", "tiny"]))
    if st == "dataset" and dataset():
        d = dataset()[rng.integers(len(dataset()))]
        o = int(rng.integers(0, d.shape[0] - n))
        return [d[o:o + n, k].copy() for k in range(3)]
    u, v, w = (series(rng, n, st if rng.random() < .8 else None) for _ in range(3))
    r = rng.random()
    if r < .3:
        v = v + rng.uniform(-1.5, 1.5) * u
    elif r < .5:
        w = rng.uniform(-1, 1) * u + 0.3 * w
    elif r < .55:
        v = np.full(n, float(rng.choice([2.0, 0.1, -3.3])))
    elif r < .6:
        u = np.full(n, float(rng.choice([2.0, 0.1, -3.3])))
    elif r < .63:
        v = 2 * u
    if rng.random() < .5:
        i = int(rng.integers(n))
        for a in (u, v, w):
            if rng.random() < .6:
                a[i] += rng.choice([-1, 1]) * rng.uniform(3, 15) * (np.std(a) + .1)
    return [u, v, w]


@driver("C10")
def c10(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "tri"):
        rec.add(O.vc(*[[float(Fraction(v)) for v in c[k]] for k in "uvw"]))
    for k in range(N(tier, 200, 2000)):
        n = size(rng, 2, 50)
        u, v, w = triple(rng, n)
        rec.add(O.vc(u, v, w))
        if k % 4 == 0:
            p = rng.permutation(n)
            f = O.VC.velocity_correlation
            # exactly representable data: centring and permutation are exact enough to agree
            uu, vv, ww = (np.round(a, 2) for a in (u, v, w))
            o1 = O.call(f, uu, vv, ww)
            o2 = O.call(f, uu[p], vv[p], ww[p])
            a, b = O.vc(uu, vv, ww), O.vc(uu[p], vv[p], ww[p])
            rec.add(a, b)
            off = [float(rng.choice([64.0, -1024.0, 8.5])) for _ in range(3)]
            rec.add(O.vc(uu + off[0], vv + off[1], ww + off[2]))
    for k in range(N(tier, 60, 600)):
        n = size(rng, 6, 40, 160)
        c = triple(rng, n)
        i, comp = int(rng.integers(n)), int(rng.integers(3))

        def at(t):
            y = [a.copy() for a in c]
            y[comp][i] += t
            return y
        sc = np.std(c[comp]) + 0.1
        f = flip_points(lambda t: has(lambda: O.VC.velocity_correlation(*at(t)), i), 0.0, float(rng.choice([-40, 40])) * sc)
        if f is not None:
            for d in (-1e-2, -1e-4, 1e-4, 1e-2):
                rec.add(O.vc(*at(f * (1 + d))))
    for t in hunt.find(hunt.vc, hunt.VC, lambda: tuple(triple(rng, int(rng.integers(6, 45)))), N(tier, 800, 6000), N(tier, 2, 10))[0]:
        rec.add(O.vc(*t))
    for k in range(N(tier, 4, 40)):
        u, v, w = triple(rng, int(rng.integers(6, 40)))
        rec.add(O.vc(u, u, w), O.vc(u, v, u), O.vc(u, v, v))
    for z in ([0.1] * 10, [3.0] * 8, [0.0] * 5):
        rec.add(O.vc(z, z, z))
        rec.add(O.vc(z, list(range(len(z))), z))
        rec.add(O.vc(list(range(len(z))), z, [-t for t in range(len(z))]))
    for n in longs(rng, tier):
        rec.add(O.vc(*triple(rng, min(n, 2500))))


@driver("C11")
def c11(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        rec.add(O.sph([100 * float(Fraction(v)) for v in c["x"]]))

    def gen(n):
        st = str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2", "int", "neg", "dups", "step"]))
        x = series(rng, n, st)
        x = x * (float(rng.choice([100, 300, 1000])) / (np.std(x) + 1e-3))
        if rng.random() < .5:
            x = np.round(x, int(rng.integers(0, 4)))
        if rng.random() < .5:
            x[rng.integers(0, n)] += rng.choice([-1, 1]) * rng.uniform(2, 9) * np.std(x)
        return x
    for k in range(N(tier, 160, 1600)):
        n = size(rng, 5, 50)
        x = gen(n)
        it, cm = par(rng, [1, 1, 0, 2, 5], 0, 1000, True), par(rng, [0, 10, -250.5], -1e4, 1e4)
        rec.add(O.sph(x, it, cm))
        if k % 4 == 0:
            x = np.round(x, 2)
            m = float(rng.choice([512.0, -64.0, 3.25]))
            rec.add(O.sph(x, 1, 0.0), O.sph(x, 3, 77.0), O.sph(x + m, 2, -5.0))
            f = O.SPH.spherical_phasespace_thresholding
            o1, o2 = O.call(f, x, 1, 0.0), O.call(f, x, 4, 123.456)
            rec.add(O.pair("C11", o1, o2, range(n), "iteration counter and running mean"))
    for x, in hunt.find(hunt.sph, hunt.SPH, lambda: (300 * edgy(rng)[0],), N(tier, 800, 6000), N(tier, 2, 10))[0]:
        rec.add(O.sph(x))
    for k in range(N(tier, 60, 600)):
        n = size(rng, 8, 40, 160)
        x = np.round(gen(n), 2)
        i = int(rng.integers(0, n))
        j = min(n - 1, max(0, i + int(rng.integers(-1, 2))))
        s = float(rng.choice([-1, 1]))

        def at(t):
            y = x.copy()
            y[i] = round(y[i] + t, 4)
            return y
        f = flip_points(lambda t: has(lambda: O.SPH.spherical_phasespace_thresholding(at(s * t), 1, 0.0), j), 0.0, 20 * np.std(x), 30)
        if f is not None:
            for d in (-.05, -.02, .02, .05):
                rec.add(O.sph(at(s * f * (1 + d))))
    for z in ([0.1] * 9, [250.0] * 12, [-3.0] * 4):
        rec.add(O.sph(z))
    for n in longs(rng, tier):
        rec.add(O.sph(gen(n)), O.sph(np.round(200 * rng.standard_normal(n), 2)))


@driver("C12")
def c12(rec, rng, tier, emitted):
    for k in range(N(tier, 40, 400)):
        n = size(rng, 8, 22, 40)
        st = str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2", "dataset"]))
        x = series(rng, n, st)
        if st == "spiky" or rng.random() < .4:
            x[rng.integers(1, n - 1)] += rng.choice([-1, 1]) * rng.uniform(2, 8) * (np.std(x) + .1)
        # the cut-off threshold lambda*std/sqrt(n) is compared with a relative density: vary the scale
        x = x * float(rng.choice([1.0, 0.3, 0.1, 0.03])) / (np.std(x) + 1e-6)
        rec.add(O.kde3(x, par(rng, [5, 7, 8, 10], 4, 12, True)))
    for k in range(N(tier, 60, 600)):
        n = size(rng, 6, 26, 60)
        u = series(rng, n, str(rng.choice(["gauss", "walk", "sine", "dec2"])))
        w = series(rng, n, "gauss") + rng.uniform(-1, 1) * u
        u = u * par(rng, [1.0, .5, .2, .1, .02, .005], 1e-3, 3) / (np.std(u) + 1e-6)
        w = w * par(rng, [1.0, .5, .2, .1, .02, .005], 1e-3, 3) / (np.std(w) + 1e-6)
        if rng.random() < .6:
            i = int(rng.integers(n))
            u[i] += rng.choice([-1, 1]) * rng.uniform(1, 6) * np.std(u)
            w[i] += rng.choice([-1, 1]) * rng.uniform(1, 6) * np.std(w)
        rec.add(O.kdepair(u, w, par(rng, [5, 6, 8, 11], 4, 14, True)))


@driver("C35")
def c35(rec, rng, tier, emitted):
    for k in range(N(tier, 90, 900)):
        n = size(rng, 4, 26, 60)
        u = series(rng, n, str(rng.choice(["gauss", "walk", "sine", "dec2", "dataset", "spiky"])))
        w = series(rng, n, "gauss") + rng.uniform(-1, 1) * u
        if k % 3 == 0:
            u, w = w, u
        if k % 2:
            u = u * par(rng, [1.0, .1, 30.0], 1e-3, 100) / (np.std(u) + 1e-6)
            w = w * par(rng, [1.0, .1, 30.0], 1e-3, 100) / (np.std(w) + 1e-6)
        if k % 5 == 0:
            u = u - rng.uniform(-20, 20)
        rec.add(O.kdens(u, w, par(rng, [2, 3, 5, 8, 11], 2, 14, True)))
    # large grids and long or far-off records, at a few mesh points
    for k in range(N(tier, 40, 400)):
        n = int(rng.integers(20, 60)) if k % 4 else int(rng.integers(100, 400))
        g = int(rng.choice([15, 16, 24, 32, 50, 64, 100, 128]))
        u = series(rng, n, str(rng.choice(["gauss", "walk", "spiky"])))
        w = series(rng, n, "gauss") + rng.uniform(-1, 1) * u
        if k % 2:
            u = u / (np.std(u) + 1e-6) + float(rng.choice([100, -3000, 3e4]))
        pts = {(int(a), int(b)) for a, b in rng.integers(1, g + 1, (6, 2))}
        o = O.call(O.K3.kernel, u, w, g)
        if isinstance(o, tuple) and np.shape(o[1]) == (g, g):        # near the top, where it matters
            p, q = np.unravel_index(np.argsort(o[1], axis=None)[[-1, -2, -g, -2 * g]], (g, g))
            pts |= {(int(a) + 1, int(b) + 1) for a, b in zip(p, q)}
        rec.add(O.kdens(u, w, g, sorted(pts)))


@driver("C13")
def c13(rec, rng, tier, emitted):
    A, P, V, S, K = (O.ACC.acceleration_thresholding, O.PST.phasespace_thresholding, O.VC.velocity_correlation,
                     O.SPH.spherical_phasespace_thresholding, O.K3.three_dimensional_kernel)
    for c in emitted_series(emitted, "ser"):
        x = np.array([float(Fraction(v)) for v in c["x"]])
        n = x.size
        ev = [O.form("acc", A, n, x, 100.0, t) for t in (1, 2)] + [O.form("pst", P, n, x), O.form("vc", V, n, x, x[::-1].copy(), x * x)]
        if n >= 2:
            ev.append(O.form("sph", S, n, x, 1, 0.0))
        rec.add(*ev)
    for k in range(N(tier, 250, 2500)):
        n = size(rng, 3, 260, 1500) if k % 3 else int(rng.integers(3, 12))
        x, y, z = series(rng, n), series(rng, n), series(rng, n)
        ev = [O.form("acc", A, n, x, par(rng, [1, 100], 1e-3, 1e4), int(rng.integers(1, 3)), gravity=par(rng, [1e-3, 980], 0, 1e4)),
              O.form("pst", P, n, x), O.form("vc", V, n, x, y, z), O.form("sph", S, n, x, int(rng.integers(1, 4)), 0.5)]
        if n >= 8 and np.std(x) > 1e-6 and n <= 60 and len(set(x.tolist())) > 4:
            o = O.call(K, x, 8)
            if not isinstance(o, Exception):      # a singular covariance is rejected by design
                ev.append(O.form("kde3", K, n, x, 8))
        rec.add(*ev)
    for c in (0.0, 1.0, -2.5, 0.1, 1e6, 1e-9, 123.456):
        for n in (2, 3, 5, 10, 33, 100):
            x = np.full(n, c)
            rec.add(O.acc(x, 100, 1), O.acc(x, 100, 2), O.pst(x), O.vc(x, x, x), O.vc(x, 2 * x, x - 1), O.sph(x, 1, 0.0), O.sph(x, 2, c))
    for d in dataset():
        n = 600 if tier == "quick" else 4000
        o = int(rng.integers(0, d.shape[0] - n))
        x, y, z = (d[o:o + n, k].copy() for k in range(3))
        rec.add(O.form("acc", A, n, x - x.mean(), 100, 1), O.form("acc", A, n, y, 100, 2), O.form("pst", P, n, x - x.mean()),
                O.form("vc", V, n, x, y, z), O.form("sph", S, n, z, 1, 0.0))


# ---------------------------------------------------------------- statistics
NUMSTR = ["3", "-2.5", "1e2", " 7 ", "0", "1e-3", "+4"]
BADSTR = ["abc", "", "1,5", "x1", "--3", "1 2", "None"]


def mixed_list(rng, n):
    L = []
    for _ in range(n):
        r = rng.random()
        if r < .5:
            L.append(float(np.round(rng.normal() * 10, 2)) if rng.random() < .5 else int(rng.integers(-20, 21)))
        elif r < .75:
            L.append(str(rng.choice(NUMSTR)))
        else:
            L.append(str(rng.choice(BADSTR)))
    return L


@driver("C14")
def c14(rec, rng, tier, emitted):
    nan = float("nan")
    for c in emitted_series(emitted, "items"):
        tr = {"n": lambda v: float(Fraction(v)), "nan": lambda v: nan, "c": lambda v: str(v), "s": lambda v: "abc"}
        L = [tr[i["k"]](i["v"]) for i in c["items"]]
        ev = [O.desc("mean", L)]
        if "nan" not in [i["k"] for i in c["items"]] or not any(isinstance(v, str) for v in L):
            ev += [O.desc("min", L), O.desc("max", L)]
        if not any(isinstance(v, str) for v in L):
            ev += [O.desc("min", np.array(L, dtype=float)), O.desc("max", np.array(L, dtype=float)), O.desc("mean", np.array(L, dtype=float)),
                   O.desc("median", np.array(L, dtype=float)), O.desc("mode", np.array(L, dtype=float))]
        rec.add(*ev)
    for k in range(N(tier, 150, 1500)):
        n = size(rng, 1, 60)
        x = series(rng, n)
        d = x if k % 3 else (x.astype(np.int64) if k % 2 else x.tolist())
        ev = [O.desc(f, d) for f in ("min", "max", "mean", "mode")]
        if isinstance(d, np.ndarray):
            ev.append(O.desc("median", d))
        if k % 7 == 0:
            ev += [O.desc(f, tuple(x.tolist())) for f in ("min", "max", "mean", "mode")]
        if k % 6 == 1:
            # numpy numbers in a list, whole numbers among fractions, one object several times
            y = np.round(x * 4) / 4
            m = {}
            for L in (list(x), [int(v) if v == int(v) else v for v in y.tolist()], [m.setdefault(v, v) for v in y.tolist()], [m[v] for v in y.tolist()] * 2,
                      list(np.round(x).astype(np.int64)), tuple(y)):
                ev += [O.desc(f, L) for f in ("min", "max", "mean", "mode")]
        if k % 5 == 0:
            y = x.copy()
            y[rng.integers(n)] = nan
            ev += [O.desc("min", y), O.desc("max", y), O.desc("min", y.tolist()), O.desc("max", y.tolist())]
        rec.add(*ev)
    for k in range(N(tier, 150, 1500)):
        L = mixed_list(rng, int(rng.integers(1, 8)))
        ev = [O.desc("mean", L)]
        if any(isinstance(v, str) for v in L):
            ev += [O.desc("min", L), O.desc("max", L), O.desc("mean", np.array(L, dtype=object)), O.desc("mean", np.array(L, dtype=object))]
        rec.add(*ev)
    for v in (0, 5, -3, 2.75, -1e9, 1e-12, 7):
        rec.add(O.desc("mean", v, scalar=True))
    for v in (np.float64(2.5), np.int64(-7), np.float32(.25), np.int16(4), np.uint8(200)):
        rec.add(O.desc("mean", v, scalar=True))
    for e in ([], np.array([])):
        rec.add(O.desc("min", e), O.desc("max", e), O.desc("mean", e))
    rec.add(O.desc("median", np.array([])))
    for sh in ((2, 3), (1, 4), (4, 1), (2, 2, 2)):
        rec.add(O.desc("median", np.arange(float(np.prod(sh))).reshape(sh)))
    for n in (255, 256, 1000):
        x = series(rng, n, "dec2")
        rec.add(*[O.desc(f, x) for f in ("min", "max", "mean", "mode", "median")])
    for n in longs(rng, tier):
        x = series(rng, n, str(rng.choice(["dec2", "dups", "spiky", "big"])))
        rec.add(*[O.desc(f, x) for f in ("min", "max", "mean", "mode", "median")])
        x[int(rng.integers(n))] = nan
        rec.add(O.desc("min", x), O.desc("max", x))
    for n in huges(rng, tier):
        x = series(rng, n, "int")
        x[int(rng.integers(n - 300, n))] = 50.0
        x[int(rng.integers(n - 300, n))] = -50.0
        rec.add(*[O.desc(f, x) for f in ("min", "max", "mean", "mode", "median")])
        x[n - 1] = nan
        rec.add(O.desc("min", x), O.desc("max", x))


@driver("C15")
def c15(rec, rng, tier, emitted):
    nan = float("nan")
    for c in emitted_series(emitted, "ser"):
        x = np.array([float(Fraction(v)) for v in c["x"]])
        rec.add(*[O.spread(f, x) for f in ("var", "std", "skew", "kurt")])
    for k in range(N(tier, 300, 3000)):
        n = size(rng, 1, 70)
        x = series(rng, n)
        if k % 6 == 0:
            x = x + float(rng.choice([1e5, -1e6, 1e3]))
        d = x.astype(np.int64) if k % 9 == 0 else x
        ev = [O.spread(f, d) for f in ("var", "std")]
        if np.std(x) > 0:
            ev += [O.spread(f, d) for f in ("skew", "kurt")]
        if k % 5 == 0 and n % 2 == 0:
            ev += [O.spread("kurt", d.reshape(2, -1)), O.spread("var", d.reshape(2, -1)), O.spread("std", d.reshape(-1, 2))]
        if k % 5 == 1:
            y = x.copy()
            y[rng.integers(n)] = nan
            ev.append(O.spread("kurt", y))
        rec.add(*ev)
    for n in (8, 12, 27):
        if n in (8, 27):
            x = series(rng, n, "gauss")
            rec.add(O.spread("kurt", x.reshape((2, 2, 2) if n == 8 else (3, 3, 3))))
    rec.add(O.spread("var", np.array([])), O.spread("std", np.array([])))
    rec.add(O.spread("var", np.empty((0, 2))), O.spread("std", np.zeros((3, 1))))
    for L in (["a", "b"], ["1", "2"]):
        rec.add(O.spread("var", np.array(L)), O.spread("std", np.array(L)), O.spread("var", np.array(L, dtype=object)), O.spread("std", np.array([1.0, L[0]], dtype=object)))
    for n in (300, 1000):
        rec.add(*[O.spread(f, series(rng, n, "spiky")) for f in ("var", "std", "skew", "kurt")])
    for n in longs(rng, tier):
        rec.add(*[O.spread(f, series(rng, n, st)) for f, st in (("var", "offset"), ("std", "spiky"), ("skew", "dec2"), ("kurt", "walk"))],
                *[O.spread(f, series(rng, n, "lone")) for f in ("var", "std", "skew", "kurt")])
    for n in huges(rng, tier):
        rec.add(*[O.spread(f, series(rng, n, "int")) for f in ("var", "std", "skew", "kurt")])


@driver("C16")
def c16(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        x = np.array([float(Fraction(v)) for v in c["x"]])
        n = x.size
        rec.add(*[O.sma(x, w) for w in range(-1, n + 2)], *[O.wma(x, p) for p in range(-1, n + 2)],
                *[O.ema(x, a) for a in (-0.5, 0.0, 0.25, 0.5, 1.0, 1.25)])
    for k in range(N(tier, 150, 1500)):
        n = size(rng, 1, 70)
        x = series(rng, n)
        w = par(rng, [int(rng.integers(1, n + 1))], 1, n, True)
        ev = [O.sma(x, w), O.wma(x, par(rng, [w], 1, n, True)), O.ema(x, par(rng, [0.2, 0.01, 0.99, 1.0, round(float(rng.uniform(0.01, 1)), 3)], 1e-6, 1))]
        if k % 4 == 0:
            ev += [O.sma(x.astype(np.int64), w), O.sma(x, 1), O.sma(x, n), O.wma(x, 1), O.wma(x, n)]
        if k % 6 == 0:
            ev += [O.sma(x, n + int(rng.integers(1, 5))), O.wma(x, n + int(rng.integers(1, 5))), O.sma(x, 0), O.wma(x, -3),
                   O.ema(x, 0.0), O.ema(x, -0.1), O.ema(x, 1.0000001), O.ema(x, 2)]
        rec.add(*ev)
    rec.add(O.sma([], 3), O.sma([], 1), O.sma([], 0))
    x = series(rng, 40, "dataset")
    rec.add({**O.sma(x, 20), "out": O.enc(O.call(O.SER.moving_average, x))}, {**O.ema(x, 0.2), "out": O.enc(O.call(O.SER.exponential_moving_average, x))},
            {**O.wma(x, 20), "out": O.enc(O.call(O.SER.weighted_moving_average, x))})
    for n, w in ((600, 20), (600, 333), (1200, 64)):
        x = series(rng, n, str(rng.choice(["spiky", "walk", "offset"])))
        rec.add(O.sma(x, w), O.ema(x[:300], 0.1), O.wma(x[:200], min(w, 90)))
    for n in longs(rng, tier):
        x = series(rng, n, str(rng.choice(["spiky", "walk", "offset"])))
        rec.add(O.sma(x, int(rng.integers(2, 300))), O.ema(x, float(rng.choice([.01, .2, .9]))), O.wma(x, int(rng.integers(2, 60))))
    for w in (127, 128, 255, 256, 257, 300):
        x = series(rng, w + int(rng.integers(2, 60)), str(rng.choice(["spiky", "walk", "gauss"])))
        rec.add(O.sma(x, w), O.wma(x, w))
    for n in huges(rng, tier):
        x = series(rng, n, "int")
        rec.add(O.sma(x, 16), O.ema(x, .5), O.wma(x, 4))


@driver("C17")
def c17(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "kal"):
        fr = lambda k: float(Fraction(c[k]))
        rec.add(O.kal([float(Fraction(v)) for v in c["x"]], fr("x0"), fr("p0"), fr("Q"), fr("R")))
    for k in range(N(tier, 250, 2500)):
        n = size(rng, 1, 60)
        x = series(rng, n)
        r = lambda: par(rng, [1e-5, 1e-3, 0.1, 0.5, 1, 3.7, 100], 0, 1e4)
        p0, Q, Rn = r(), r(), r()
        if k % 10 == 0:
            Q = 0.0
        if k % 10 == 1:
            p0 = 0.0
        if Q + Rn == 0:
            Rn = 0.25
        x0 = par(rng, [0.0, x[0], 5.0, -100.0, np.mean(x)], -1e5, 1e5)
        rec.add(O.kal(x, x0, p0, Q, Rn))
    for n in (200, 500):
        rec.add(O.kal(series(rng, n, "walk"), 0.0, 1.0, 1e-3, 0.1))
    rec.add(O.kal([], 0.0, 1.0, 1e-3, 0.1))
    for n in longs(rng, tier):
        rec.add(O.kal(series(rng, n, "walk"), 0.0, 1.0, float(rng.choice([1e-3, 1.0])), 0.1))


@driver("C18")
def c18(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser")[:: N(tier, 3, 1)]:
        x = [float(Fraction(v)) for v in c["x"]]
        rec.add(O.ssa(x, 1.5, 1.0), *([O.ssa(x, 3.0, 1.0)] if len(x) >= 4 else []))
    for k in range(N(tier, 160, 1200)):
        L = int(rng.integers(3, 9))
        n = size(rng, L + 1, 40) if k % 3 else int(rng.integers(L + 1, 2 * L + 3))
        fs, f = [(10.0, 10.0 / L), (float(L), 1.0), (float(L) - 0.5, 1.0), (50.0, 50.0 / (L - 0.25)),
                 (float(L) - 1 + float(rng.choice([.01, .03, .2, 1e-6])), 1.0), (25.0, float(np.round(25.0 / (L - .9), 3)))][int(rng.integers(6))]
        if k % 4 == 2:
            fs, f = rates(rng, L)
        if int(np.ceil(fs / f)) != L:
            fs, f = float(L), 1.0
        st = str(rng.choice(["gauss", "walk", "spiky", "sine", "dec2", "dataset", "offset", "step", "neg", "slow", "lone"]))
        x = series(rng, n, st)
        if k % 12 == 0:
            x = np.full(n, float(rng.choice([0.1, 7.0, -2.25, 31.4])))
        rec.add(O.ssa(x, fs, f), O.ssaneg(x, fs, f))
    for n in longs(rng, tier):
        rec.add(O.ssa(series(rng, n, str(rng.choice(["walk", "spiky", "sine"]))), float(rng.choice([4, 5, 7])), 1.0))
    for L in (10, 16, 25):
        for k in range(N(tier, 3, 12)):
            rec.add(O.ssa(series(rng, int(rng.integers(L + 1, 4 * L)), str(rng.choice(["gauss", "walk", "sine", "dec2"]))), float(L), 1.0))


@driver("C19")
def c19(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "tri"):
        t = [[float(Fraction(v)) for v in c[k]] for k in "uvw"]
        rec.add(O.tke(*t), O.rey(*t))
    for k in range(N(tier, 300, 3000)):
        n = size(rng, 1, 80) if k % 10 else int(rng.integers(200, 500))
        u, v, w = (series(rng, n) for _ in range(3))
        if k % 3 == 0:
            v = v + rng.uniform(-2, 2) * u
        if k % 4 == 0:
            u, v, w = u + 1e4, v - 500, w + 3
        rec.add(O.tke(u, v, w), O.rey(u, v, w))
        if k % 12 == 0:
            for t in ((u, u, w), (u, v, u), (u, v, v), (u, u, u), (u, -u, w), (u, 2 * u, np.zeros(n))):
                rec.add(O.tke(*t), O.rey(*t))
    for n in longs(rng, tier):
        t = [series(rng, n, str(rng.choice(["spiky", "offset", "walk"]))) for _ in range(3)]
        rec.add(O.tke(*t), O.rey(*t))
    for n in huges(rng, tier):
        t = [series(rng, n, "int") for _ in range(3)]
        rec.add(O.tke(*t), O.rey(*t))


@driver("C20")
def c20(rec, rng, tier, emitted):
    fns = ["cdf", "sf", "pdf", "log_cdf", "log_sf", "log_pdf"]
    lim = {"cdf": (-30, 30), "sf": (-30, 30), "pdf": (-30, 30), "log_cdf": (-30, 8), "log_sf": (-8, 5), "log_pdf": (-20, 20)}

    def pts(fn, n, k):
        lo, hi = lim[fn]
        if k % 3 == 0:
            x = rng.normal(size=n)
        elif k % 3 == 1:
            x = rng.uniform(lo, hi, n)
        else:
            x = rng.integers(lo, hi + 1, n).astype(float) / 2
        x = np.clip(x, lo, hi)
        if rng.random() < 2 * WILD[0]:
            x[0] = np.clip(par(rng, [0.0], lo, hi), lo, hi)
        if n > 3 and lo <= -x[0] <= hi:
            x[1] = -x[0]
        return x
    grid = {f: [] for f in fns}
    edge = [0.0, -0.0, 1.0, -1.0, 0.9999999, 1.0000001, -0.9999999, -1.0000001, 0.5, -0.5, 1.4142135, -1.4142135, 2.0, -2.0, 3.5, -3.5, 5.0, -5.0]
    for f in fns:
        lo, hi = lim[f]
        rec.add(O.dist(f, np.array([e for e in edge if lo <= e <= hi])))
        rec.add(O.dist(f, [int(e) for e in edge if lo <= e <= hi and e == int(e)]))
        rec.add(O.dist(f, np.array([-2, -1, 0, 1, 2])), O.dist(f, 0.25), O.dist(f, 1), O.dist(f, -3), O.dist(f, np.float64(1.5)))
        rec.add(O.dist(f, np.linspace(-4, 4, 17)))
        rec.add(O.dist(f, np.array([]), bad="empty"), O.dist(f, [], bad="empty"), O.dist(f, np.array([1.0, float("nan")]), bad="nan"),
                O.dist(f, [float("nan")], bad="nan"), O.dist(f, np.array([[1.0, 2.0], [float("nan"), 0.0]]), bad="nan"))
        for k in range(N(tier, 16, 160)):
            n = size(rng, 1, 9, 150)
            kw = {}
            if f in ("pdf", "log_pdf") and k % 4:
                kw = {"sd": par(rng, [0.5, 1, 2, 3.25, 0.1], 0.01, 50) if k % 3 else int(rng.choice([1, 2, 3])),
                      "mu": par(rng, [0, 1.5, -2, 10], -50, 50)}
            x = pts(f, n, k)
            if kw:
                x = np.clip((x - kw["mu"]) / kw["sd"], -15, 15) * kw["sd"] + kw["mu"]
            if k % 5 == 0 and n % 2 == 0:
                x = x.reshape(2, -1)
            if k % 7 == 0:
                x = x.tolist()
            rec.add(O.dist(f, x, **kw))
        # tables, in whatever order they are stored
        x = pts(f, 24, 1)
        rec.add(O.dist(f, np.asfortranarray(x.reshape(4, 6))), O.dist(f, x.reshape(4, 6).T), O.dist(f, x.reshape(2, 3, 4)),
                O.dist(f, np.swapaxes(x.reshape(2, 3, 4), 0, 2)), O.dist(f, x.reshape(6, 4)[::2, 1:]), O.dist(f, x[::-3]))
        if f in ("pdf", "log_pdf"):
            rec.add(O.dist(f, [0.0, 1.0, -2.5], default=True))
    for f in ("cdf", "sf", "pdf", "log_cdf"):
        rec.add(O.dist(f, np.round(rng.uniform(-6, 6, N(tier, 60, 600)), 2)))


def flat(rng, n):
    """Flat samples: two-valued, alternating, arcsine, bimodal (kurtosis below the normal one)."""
    t = np.arange(n)
    k = int(rng.integers(5))
    if k == 0:
        x = np.where(rng.random(n) < 0.5, 1.0, -1.0)
    elif k == 1:
        x = np.where(t % 2 == 0, 1.0, -1.0) * float(rng.choice([1, 0.5, 3.25])) + 1e-3 * t
    elif k == 2:
        x = np.sin(2 * np.pi * t / max(3.0, n / float(rng.integers(1, 5))) + float(rng.uniform(0, 6)))
    elif k == 3:
        x = np.where(rng.random(n) < 0.4, 2.0, -1.0) + float(rng.uniform(0.01, 0.5)) * rng.normal(size=n)
    else:
        x = rng.uniform(-1, 1, n)
    return x + float(rng.choice([0, 0, 1.5]))


@driver("C21")
def c21(rec, rng, tier, emitted):
    for fn, need in (("skewtest", 8), ("kurtotest", 5)):
        for k in range(N(tier, 60, 600)):
            n = size(rng, need, 60) if k % 4 else int(rng.integers(need, need + 6))
            st = str(rng.choice(["gauss", "walk", "spiky", "dec2", "int", "offset", "neg", "dups", "mixed", "dataset", "sine"]))
            x = series(rng, n, st)
            if k % 5 == 0:
                x = np.exp(rng.normal(size=n))
            if k % 5 == 1:
                x = -np.exp(rng.normal(size=n))
            if k % 5 == 2:
                # almost symmetric, almost mesokurtic
                h = rng.normal(size=(n + 1) // 2)
                x = np.concatenate((h, -h))[:n] + float(rng.choice([0, 2.5]))
                x[0] += 10.0 ** -float(rng.uniform(0.5, 5))
            if k % 10 == 3 or k % 10 == 8:
                x = flat(rng, n)
            if np.std(x) == 0:
                continue
            rec.add(*[O.test(fn, x, a) for a in ("two-sided", "greater", "less")], O.test(fn, x, None))
        for n in range(1, need + 2):
            x = series(rng, n, "gauss")
            rec.add(O.test(fn, x, "two-sided"), O.test(fn, x, "less"), O.test(fn, x, "greater"))
        x = series(rng, 20, "gauss")
        for a in ("both", "", "Less", "GREATER", "two_sided"):
            rec.add(O.test(fn, x, a))
    for n in longs(rng, tier):
        rec.add(*[O.test(fn, series(rng, n, str(rng.choice(["gauss", "spiky", "dec2", "lone"]))), a) for fn in ("skewtest", "kurtotest") for a in ("two-sided", "less", "greater")],
                *[O.test("kurtotest", flat(rng, n), a) for a in ("two-sided", "less", "greater")])


# ---------------------------------------------------------------- signal
@driver("C22")
def c22(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        x = np.array([float(Fraction(v)) for v in c["x"]])
        rec.add(*[O.welch(x, 2.0, ov, 4, sd) for ov in (0, 25, 50, 75) for sd in (True, False)])
    for k in range(N(tier, 220, 2000)):
        block = par(rng, [3, 4, 5, 6, 7, 8, 9, 10, 12, 16], 3, 40, True)
        n = size(rng, block, max(block + 1, 70), 200) if k % 4 else block
        x = series(rng, n)
        fs = par(rng, [1, 10, 25, 100, 0.5], 0.01, 1e4)
        ov = par(rng, [0, 10, 25, 33, 50, 62.5, 75, 80, 90], 0, 92)
        if k % 3 == 0:
            ov = int(ov)
        rec.add(O.welch(x, fs, ov, block, bool(k % 3)))
    for k in range(N(tier, 12, 60)):
        x = series(rng, 40)
        fs = float(rng.choice([10, 100]))
        e = O.welch(x, fs, 50, 8, True)
        e["out"] = O.enc(O.call(O.SPE.power_spectra, np.asarray(x), fs, block=8))
        rec.add(e)
        e = O.welch(x, fs, 25, 8, True)
        e["out"] = O.enc(O.call(O.SPE.power_spectra, np.asarray(x), fs, 25, 8))
        rec.add(e)
    rec.add(O.welch(series(rng, 150, "spiky"), 100.0, 50, 32), O.welch(series(rng, 200, "dataset"), 100.0, 75, 64))
    # the default block, judged at a few frequencies
    for k in range(N(tier, 5, 40)):
        n = int(rng.choice([2048, 2049, 3000, 4096, 5000]))
        x = series(rng, n, str(rng.choice(["spiky", "walk", "sine", "dataset", "gauss"])))
        os = bool(k % 3)
        m = 1025 if os else 2048
        bins = sorted({1, 2, m, m - 1} | {int(v) for v in rng.integers(1, m + 1, 4)})
        rec.add(O.welch(x, float(rng.choice([25, 100, 200])), [None, 0, 25, 50, 75][k % 5], None, os, bins))
    for k in range(N(tier, 6, 60)):
        block = int(rng.choice([100, 128, 256, 500, 512, 1000, 1024] if k % 2 else [65, 99, 127, 129, 255, 257, 513, 999]))
        m = block // 2 + 1
        x = series(rng, int(rng.integers(block, 4 * block)), str(rng.choice(["spiky", "walk", "sine", "gauss"])))
        rec.add(O.welch(x, 10.0, float(rng.choice([0, 25, 50, 60, 75])), block, True, sorted({1, 2, m, m - 1} | {int(v) for v in rng.integers(1, m + 1, 3)})))


@driver("C23")
def c23(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "noise"):
        x = np.array([float(Fraction(v)) for v in c["x"]])
        rec.add(*[O.noise(x, pct, sd) for pct in (0, 12.5, 50, 99, 100) for sd in (1, 2)])
    for k in range(N(tier, 300, 3000)):
        n = size(rng, 1, 90, 700)
        x = series(rng, n, str(rng.choice(["dec2", "gauss", "offset", "neg", "spiky", "int", "dataset", "step", "dups"])))
        if k % 8 == 0:
            x = x - 30
        pct = par(rng, [0, 1, 2, 3, 5, 10, 12.5, 20, 25, 33, 37.5, 50, 66, 75, 80, 99, 100], 0, 100)
        if k % 2 == 0:
            pct = int(pct)
        if k % 9 == 0:
            pct = 0.5
        rec.add(O.noise(x, pct, int(rng.integers(0, 2**31 - 1))))
    for k in range(N(tier, 60, 400)):
        # sizes of which every percentage is a whole number of samples
        n = int(rng.choice([100, 100, 200, 50, 25, 300]))
        rec.add(O.noise(series(rng, n, "offset"), int(rng.integers(1, 100)) * (4 if n == 25 else 1) % 101, int(rng.integers(0, 2**31 - 1))))
    for n in (1, 2, 3, 10, 100):
        for pct in (0, 50, 100):
            rec.add(O.noise(np.full(n, 2.0), pct, 7), O.noise(np.full(n, -2.0), pct, 8))
    for n in longs(rng, tier, 3000):
        rec.add(O.noise(series(rng, n, "offset"), float(rng.choice([1, 2.5, 10])), int(rng.integers(0, 2**31 - 1))))
    for n, pct, runs in () if WILD[0] >= .3 else ((20, 10, 200), (100, 5, 80), (1000, 10, 4), (12000, 2, 2), (33000, .5, 1), (70000, .2, 1)):
        rec.add(O.noisecov(n, pct, int(rng.integers(0, 2**31 - 1000)), runs))


@driver("C24")
def c24(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "poll"):
        rec.add(O.poll([float(Fraction(v)) for v in c["x"]], [float(Fraction(v)) for v in c["f"]], float(Fraction(c["kk"]))))
    for k in range(N(tier, 300, 3000)):
        n = size(rng, 1, 80)
        x = series(rng, n)
        r = k % 4
        if r == 0:
            f = x.copy()
        elif r == 1:
            f = np.convolve(x, np.ones(3) / 3, mode="same")[:n]
        elif r == 2:
            f = x + rng.normal(size=n) * np.std(x) * 2
        else:
            f = np.full(n, np.mean(x))
        kk = par(rng, [0, 0.1, 0.5, 1, 1.5, 2, 3], 0, 20)
        rec.add(O.poll(x, f, kk))
    for k in range(N(tier, 60, 500)):
        n = size(rng, 3, 40, 160)
        x = series(rng, n, "gauss")
        f = x.copy()
        i = int(rng.integers(n))
        kk = float(rng.choice([0.5, 1.0, 2.0]))
        s = float(rng.choice([-1, 1]))
        b = kk * np.std(x)
        for d in (-1e-3, -1e-7, 1e-7, 1e-3):
            g = f.copy()
            g[i] = x[i] + s * b * (1 + d)
            rec.add(O.poll(x, g, kk))
    for n in longs(rng, tier):
        x = series(rng, n, str(rng.choice(["spiky", "walk"])))
        rec.add(O.poll(x, np.convolve(x, np.ones(5) / 5, mode="same")[:n], float(rng.choice([.1, .5, 1, 2]))))
        # every sample a hair from one of the two thresholds
        kk, x = float(rng.choice([.5, 1, 2])), series(rng, n, "gauss") + float(rng.choice([0, 50]))
        d = 1 + rng.choice([-1, 1], n) * 10.0 ** -rng.uniform(2, 7, n)
        rec.add(O.poll(x, x + rng.choice([-1, 1], n) * kk * np.std(x) * d, kk))


@driver("C30")
def c30(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        x = [float(Fraction(v)) for v in c["x"]]
        rec.add(O.pre(x), O.pre(x, 1.0, 0.5), O.pre(x, 0.5, 1.0), O.pre(x, 2.0, 0.25))
    for k in range(N(tier, 300, 3000)):
        n = size(rng, 1, 70)
        x = series(rng, n, str(rng.choice(["dec2", "gauss", "walk", "spiky", "int", "dataset", "step", "dups", "mixed", "sine"])))
        if rng.random() < .6:
            x = x - np.median(x)
        if rng.random() < .5:
            a = int(rng.integers(n))
            x[a:a + int(rng.integers(1, 6))] += rng.choice([-1, 1]) * rng.uniform(5, 40)
        if k % 3 == 0:
            rec.add(O.pre(x))
        else:
            rec.add(O.pre(x, par(rng, [0.5, 1, 1.5, 2, 3], 0, 10), par(rng, [0.25, 0.5, 1, 1.35, 2], 0, 10)))
    for k in range(N(tier, 40, 400)):
        n = size(rng, 5, 40, 160)
        x = series(rng, n, "gauss")
        k1, k2 = float(rng.choice([1, 1.5])), float(rng.choice([0.5, 1.35]))
        th = float(np.median(np.abs(x - np.median(x))))
        for t, s in ((k1 * th, 1), (k1 * th, -1), (k2 * th * math.sqrt(2 * math.log(n)), 1), (k2 * th * math.sqrt(2 * math.log(n)), -1)):
            i = int(np.argmax(s * x))
            for d in (-1e-3, -1e-7, 1e-7, 1e-3):
                y = x.copy()
                y[i] = s * t * (1 + d)
                rec.add(O.pre(y, k1, k2))
    for n in longs(rng, tier):
        x = series(rng, n, str(rng.choice(["spiky", "gauss", "dataset"])))
        rec.add(O.pre(x - np.median(x)), O.pre(x - np.median(x), 1.0, 0.5))


@driver("C31")
def c31(rec, rng, tier, emitted):
    H = O.helper
    sl = H(O.K2, "_derivative", 1)
    rots = [m for m in (O.BIV, O.K3) if H(m, "_rotation", 2)]
    cuts = [m for m in (O.K2, O.K3) if H(m, "_cutoff", 7)]
    if len(cuts) < 2 or not rots:
        # the helpers are observed through the detector that is built from them
        for k in range(10):
            rec.add(O.kdepair(series(rng, 12, "gauss"), series(rng, 12, "walk"), 6))
    for c in emitted_series(emitted, "ser"):
        if not sl:
            break
        x = [float(Fraction(v)) for v in c["x"]]
        rec.add(O.slope(x))
    for c in emitted_series(emitted, "cut"):
        fp = [float(Fraction(v)) for v in c["fp"]]
        vp = [10.0 * (i + 1) for i in range(len(fp))]
        for m in cuts:
            rec.add(O.cut(m, fp, vp, c["ip"], c["grid"], float(Fraction(c["dens"])), float(Fraction(c["k1"])), float(Fraction(c["k2"]))))
    for k in range(N(tier, 200, 2000)):
        n = size(rng, 2, 60)
        x, y = series(rng, n), series(rng, n)
        if k % 3 == 0:
            y = y + rng.uniform(-3, 3) * x
        if k % 9 == 0:
            x, y = np.full(n, float(rng.integers(-6, 7))), np.round(y)
        ev = [O.slope(x)] if sl else []
        for m in rots:
            ev.append(O.angle(m, x, y))
        if ev:
            rec.add(*ev)
    for k in range(N(tier, 250, 2500)):
        L = size(rng, 3, 30, 300)
        c, wd = rng.uniform(0, L), rng.uniform(.5, L / 2)
        fp = np.exp(-0.5 * ((np.arange(L) - c) / wd) ** 2) * rng.uniform(.1, 5) + rng.choice([0, 0.05]) * rng.random(L)
        vp = np.linspace(rng.uniform(-9, 0), rng.uniform(1, 9), L)
        ip = int(np.argmax(fp)) if k % 4 else int(rng.integers(L))
        k1, k2 = par(rng, [.05, .2, .4, .6, .9, 1.1], 0, 5), par(rng, [.05, .2, .4, 1, 3], 0, 10)
        grid = par(rng, [1, 4, 16, L], 1, 300, True)
        dens = float(fp.max()) if k % 2 else float(rng.uniform(.5, 4))
        for m in cuts:
            rec.add(O.cut(m, fp, vp, ip, grid, dens, k1, k2))
    # ratios and slopes exactly on a threshold: everything is a small binary fraction
    for k in range(N(tier, 120, 1200)):
        L = int(rng.integers(4, 14))
        fp = rng.integers(1, 9, L).astype(float)
        ip = int(rng.integers(0, L))
        fp[ip] = float(rng.choice([8, 16]))
        dens, grid = float(rng.choice([1, 2, 4, 8])), int(rng.choice([1, 2, 4, L]))
        i = int(rng.integers(1, L))
        d = np.append([0], np.diff(fp)) * grid / dens
        k1 = float(fp[i] / fp[ip]) if k % 3 else float(rng.choice([.25, .5, 1]))
        k2 = float(abs(d[i])) if k % 3 != 1 else float(rng.choice([1, 2, 8]))
        for m in cuts:
            rec.add(O.cut(m, fp, np.arange(L) * 2.0 - 3, ip, grid, dens, k1, k2))


@driver("C27")
def c27(rec, rng, tier, emitted):
    T = [Fraction(1, 50), Fraction(1, 9), Fraction(1, 3), Fraction(2, 3), Fraction(9, 10), Fraction(4, 3), Fraction(5, 2), Fraction(9), Fraction(40)]

    def sig(v):
        return float("%.4g" % v)

    def cuts(bt, digital):
        if rng.random() < .2:
            # far from the middle of the band: nearly real poles, very narrow or very wide bands
            a = 10.0 ** float(rng.uniform(-4, -1)) if digital else 10.0 ** float(rng.uniform(-4, 5))
            if bt in ("lp", "hp"):
                return [sig(1 - a if digital and rng.random() < .3 else a)]
            return [sig(a), sig(min(a * float(rng.choice([1.01, 1.04, 1.2, 1.5, 4, 30])), .97 if digital else 1e9))]
        if bt in ("lp", "hp"):
            return [float(np.round(rng.uniform(.05, .95), 3))] if digital else [float(np.round(rng.uniform(.1, 20), 2))]
        while True:
            a, b = sorted((float(np.round(rng.uniform(.05, .95), 3)), float(np.round(rng.uniform(.05, .95), 3))))
            if b - a > .08:
                return [a, b] if digital else [a * 10, b * 10]
    for k in range(N(tier, 160, 1600)):
        bt = ("lp", "hp", "bp", "bs")[k % 4]
        dig = bool((k // 4) % 2)
        Nn = int(rng.integers(1, 7)) if bt in ("lp", "hp") else int(rng.integers(1, 5))
        w = cuts(bt, dig)
        sr = None
        if dig and k % 3 == 0:
            sr = float(rng.choice([100.0, 2.0, 44100.0, 0.5, 1.0]))
            w = [v * sr / 2 for v in w]
        elif dig and k % 3 == 1:
            sr = int(rng.choice([10, 200])) if rng.random() < .3 else float(np.round(10.0 ** rng.uniform(-1, 4), int(rng.integers(1, 6)))) or 1.0
            w = [v * sr / 2 for v in w]
        if dig:
            ref = [math.tan(math.pi * (v / (sr / 2) if sr else v) / 2) for v in w]
        else:
            ref = w
        pts = [0] + [Fraction(sig(r * m)) for r in ref for m in (.4, .9, 1.0, 1.1, 2.5)] + \
            [Fraction(sig(math.sqrt(ref[0] * ref[-1])))] + [T[int(rng.integers(len(T)))] for _ in range(2)]
        pts = [p for p in pts if p >= 0]
        rec.add(O.butter(Nn, w, bt.upper() if k % 11 == 0 else bt, not dig, sr, pts) | {"bt": bt})
    V = "ValueError"
    for bt in ("lp", "hp"):
        for ag in (True, False):
            for w in ([0.0], [-0.2], [0.1, 0.3], [0.1, 0.2, 0.3]):
                rec.add(O.butter(2, w, bt, ag, bad=V))
    for bt in ("bp", "bs"):
        for ag in (True, False):
            for w in ([0.5, 0.2], [0.3, 0.3], [-0.1, 0.4], [0.0, 0.4], [0.1, 0.0]):
                rec.add(O.butter(2, w, bt, ag, bad=V))
    for bt, w in (("lp", [1.0]), ("lp", [1.5]), ("hp", [1.0]), ("bp", [0.2, 1.0]), ("bs", [0.5, 1.2])):
        rec.add(O.butter(3, w, bt, False, bad=V))
        rec.add(O.butter(3, [v * 50 for v in w], bt, False, sr=100.0, bad=V))
    rec.add(O.butter(3, [0.3], "lp", True, sr=10.0, bad=V), O.butter(3, [0.3, .5], "bp", True, sr=10, bad=V))
    for w1 in ([0.3],):
        for bt in ("bp", "bs"):
            for ag in (True, False):
                e = {"op": "butter", "N": 2, "bt": bt, "ag": ag, "sr": "None", "bad": V, "arg": "one-element array", "w": ["1"], "pts": []}
                o = O.call(O.BUT.butterworth, 2, np.array(w1), bt, ag, "zps")
                e["out"] = O.enc_exc(o) if O.isexc(o) else {"k": "other"}
                rec.add(e)
    for frm in ("ba", "", "zpk", "sos"):
        e = {"op": "butter", "N": 2, "bt": "lp", "ag": False, "sr": "None", "bad": V, "arg": "output " + frm, "w": ["1"], "pts": []}
        o = O.call(O.BUT.butterworth, 2, 0.3, "lp", False, frm)
        e["out"] = O.enc_exc(o) if O.isexc(o) else {"k": "other"}
        rec.add(e)


@driver("C28")
def c28(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "hist"):
        x, y = ([float(Fraction(v)) for v in c[k]] for k in "xy")
        rec.add(O.bivar(x, y, 0.1, 0.2, c["grid"], exact=True))
    for k in range(N(tier, 120, 900)):
        G = int(rng.choice([2, 3, 4, 4, 5, 6, 7, 8, 9]))
        n = size(rng, 2, 30, 60)
        x = series(rng, n, str(rng.choice(["gauss", "walk", "dec2", "sine", "neg", "big", "spiky"])))
        y = series(rng, n, str(rng.choice(["gauss", "walk", "dec2", "sine", "neg", "tiny"])))
        if x.max() == x.min() or y.max() == y.min():
            continue
        h = [0.02, 0.05, 0.1, 0.25, 0.5, 1.0]
        rec.add(O.bivar(x, y, par(rng, h, 0.01, 2), par(rng, h, 0.01, 2), G))
    for n in longs(rng, tier):
        rec.add(O.bivar(series(rng, n, str(rng.choice(["gauss", "dec2", "sine"]))), series(rng, n, str(rng.choice(["gauss", "dec2", "spiky"]))),
                        float(rng.choice([.05, .1])), float(rng.choice([.05, .1])), int(rng.choice([4, 8]))))
    # crowded cells
    for k in range(N(tier, 4, 20)):
        n = int(rng.integers(600, 2500))
        x, y = 0.01 * series(rng, n, "gauss"), 0.01 * series(rng, n, "gauss")
        x[:2], y[:2] = (1, -1), (-1, 1)
        rec.add(O.bivar(x, y, 0.1, 0.05, int(rng.choice([2, 4, 5]))))
    # data on the cell edges, exactly representable
    for k in range(N(tier, 30, 200)):
        G = int(rng.choice([2, 4, 8]))
        n = size(rng, 4, 20, 40)
        x = np.concatenate(([0, 8], rng.integers(0, 9, n))).astype(float) * float(rng.choice([1, .5, 4]))
        y = np.concatenate(([0, 8], rng.integers(0, 9, n))).astype(float) - 16.0
        rec.add(O.bivar(x, y, 0.1, 0.3, G, exact=True))


# ---------------------------------------------------------------- optimisation
def root_target(rng):
    """a continuous function, a bracket around a sign change, and what it is"""
    k = int(rng.integers(0, 12))
    r = float(np.round(rng.uniform(-5, 5), 3))
    w = float(rng.choice([0.01, 0.7, 3, 40]))
    lo, hi = r - w * float(rng.uniform(0.05, 1)), r + w * float(rng.uniform(0.05, 1))
    s = float(rng.choice([1, -1])) * float(rng.choice([1, 1, 1, 1e-3, 1e4, 1e-80, 1e-130, 1e-200, 1e120, 1e-300]))
    if k == 0:
        f = lambda x: s * (x - r)
    elif k == 1:
        f = lambda x: s * (x - r) * ((x - r) ** 2 + 0.3)
    elif k == 2:
        f = lambda x: s * (x - r) ** 3
    elif k == 3:
        f = lambda x: s * math.atan(50 * (x - r))
    elif k == 4:
        f = lambda x: s * math.expm1(min(3 * (x - r), 200))
    elif k == 5:
        f = lambda x: s * (x - r) ** 9
    elif k == 6:
        f = lambda x: s * math.copysign(math.sqrt(abs(x - r)), x - r)
    elif k == 7:
        f = lambda x: s * (math.sin(3 * (x - r)) + 0.5 * (x - r))
    elif k == 8:
        f = lambda x: s * max(-1.0, min(1.0, 1e6 * (x - r)))       # step-like
    elif k == 9:
        f = lambda x: s * max(0.0, x - r - 0.01) - s * max(0.0, r - 0.01 - x)   # flat at zero around r
    elif k == 10:
        f = lambda x: s * ((x - r) if x < r else 1e-6 * (x - r))    # kink
    else:
        f = lambda x: s * (math.exp(min(x - r, 300)) - 1) * 1e-8
    if rng.random() < .3:
        g = f
        f = lambda x: np.float64(g(x))
    return f, lo, hi, k


@driver("C25")
def c25(rec, rng, tier, emitted):
    for c in emitted:
        if c.get("op") == "root":
            v = {Fraction(p["x"]): Fraction(p["y"]) for p in c["f"]}
            xs = sorted(v)
            f = lambda x, xs=xs, v=v: float(np.interp(x, [float(t) for t in xs], [float(v[t]) for t in xs]))
            for full in (False, True):
                rec.add(*O.root(f, float(xs[0]), float(xs[-1]), full=full))
                rec.add(*O.root(f, float(xs[0]), float(xs[-1]), full=full, xtol=2.0**-4, rtol=2.0**-6, maxiter=40))
    for _ in range(N(tier, 700, 12000)):
        if not rec.left():
            break
        f, lo, hi, k = root_target(rng)
        kw = {}
        if rng.random() < .6:
            kw["xtol"] = par(rng, [1e-3, 1e-6, 1e-9, 1e-11, 0.1], 1e-12, 1)
            kw["rtol"] = par(rng, [1e-2, 1e-4, 1e-8, 1e-12], 1e-14, 1)
        if rng.random() < .3:
            kw["maxiter"] = par(rng, [1, 2, 3, 5, 8, 12, 30, 60, 600, 1000], 1, 1500, True)
        rec.add(*O.root(f, lo, hi, full=bool(rng.random() < .6), bad=bool(np.sign(f(lo)) == np.sign(f(hi)) != 0), **kw))
    # roots at the end points, integer brackets, brackets at zero
    for s in (1, -1, 1e-160, 1e160):
        for full in (False, True):
            for a, b in ((0, 2), (-3, 0), (-1, 1), (1.0, 4.0)):
                for r in (a, b):
                    rec.add(*O.root(lambda x, r=r: s * (x - r) * (x - r + 17), a, b, full=full))
                    rec.add(*O.root(lambda x, r=r: s * (x - r), a, b, full=full, maxiter=1))
                rec.add(*O.root(lambda x: s * (x - a) * (x - b), a, b, full=full))
                rec.add(*O.root(lambda x: s * (x - (a + b) / 2), a, b, full=full))
                rec.add(*O.root(lambda x: s * (x - a - 1e-9), a, b, full=full))
                rec.add(*O.root(lambda x: s * (x - b + 1e-9), a, b, full=full))
    # rejected brackets
    for full in (False, True):
        for s in (1, -1, 1e-200, -1e200, 1e-320):
            rec.add(*O.root(lambda x: s * (x - 1), 2.0, 0.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x - 1), 1.0, 1.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x - 1), 2.0, 2.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x * x + 1), -1.0, 2.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x - 5), -1.0, 2.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x - 5), 2.0, -1.0, full=full, bad=True))
            rec.add(*O.root(lambda x: s * (x + 5), -1.0, 2.0, full=full, bad=True, maxiter=2))


def min_target(rng):
    k = int(rng.integers(0, 10))
    c = float(np.round(rng.uniform(-5, 5), 3))
    w = float(rng.choice([0.05, 1, 6, 50]))
    a, b = c - w * float(rng.uniform(0.02, 1)), c + w * float(rng.uniform(0.02, 1))
    s = float(rng.choice([1, 1, 0.01, 300, 1e-60, 1e60]))
    uni = True
    if k == 0:
        f = lambda x: s * abs(x - c)
    elif k == 1:
        f = lambda x: s * (x - c) ** 2
    elif k == 2:
        f = lambda x: s * (x - c) ** 4
    elif k == 3:
        f, c = (lambda x: s * (x - a)), a
    elif k == 4:
        f, c = (lambda x: -s * (x - b) if x < b else 0.0), b
    elif k == 5:
        f = lambda x: s * (3 * (c - x) if x < c else (x - c) ** 2)
    elif k == 6:
        f = lambda x: s * math.sqrt(abs(x - c))
    elif k == 7:
        f, uni = (lambda x: s * math.cos(7 * x) + 0.1 * x), False
    elif k == 8:
        f, uni = (lambda x: 1.0), False
    else:
        f, uni = (lambda x: s * (x * x - 1) ** 2 + 0.2 * x), False
    return f, a, b, (c if uni else None), k


@driver("C26")
def c26(rec, rng, tier, emitted):
    for c in emitted:
        if c.get("op") == "min":
            v = {Fraction(p["x"]): Fraction(p["y"]) for p in c["f"]}
            xs = sorted(v)
            f = lambda x, xs=xs, v=v: float(np.interp(x, [float(t) for t in xs], [float(v[t]) for t in xs]))
            for full in (False, True):
                rec.add(*O.minimise(f, float(xs[0]), float(xs[-1]), full=full, maxev=int(c.get("maxev", 60))))
    for _ in range(N(tier, 700, 12000)):
        if not rec.left():
            break
        f, a, b, xm, k = min_target(rng)
        kw = {}
        if rng.random() < .5:
            kw["tol"] = par(rng, [1e-2, 1e-4, 1e-7, 1e-9], 1e-10, 0.5)
        if rng.random() < .4:
            kw["maxev"] = par(rng, [2, 3, 4, 6, 9, 15, 30, 200], 2, 700, True)
        if rng.random() < .2:
            g, p = f, float(rng.choice([1, 2, 3.5]))
            f = lambda x, q, t=1.0: g(x) * q * t
            kw["par"] = (p,) if rng.random() < .5 else (p, 2.0)
        rec.add(*O.minimise(f, a, b, full=bool(rng.random() < .7), xm=xm, easy="maxev" not in kw, **kw))
    # targets that are not numbers somewhere, or from some evaluation on
    for _ in range(N(tier, 60, 800)):
        f, a, b, xm, k = min_target(rng)
        cnt, when, cut = [0], int(rng.integers(1, 25)), float(rng.uniform(a, b))
        how = int(rng.integers(4))

        def g(x, f=f, cnt=cnt, when=when, cut=cut, how=how):
            cnt[0] += 1
            return float("nan") if (how == 0 and cnt[0] == when) or (how == 1 and cnt[0] >= when) or (how == 2 and x < cut) or (how == 3 and x > cut) else f(x)
        rec.add(*O.minimise(g, a, b, full=bool(rng.random() < .8), maxev=when if rng.random() < .5 and when > 1 else None))
    for full in (False, True):
        for a, b in ((2.0, 1.0), (1e-9, -1e-9), (float("nan"), 1.0), (0.0, float("inf")), (float("-inf"), 0.0), (1.0, float("nan"))):
            rec.add(*O.minimise(lambda x: x * x, a, b, full=full, bad=True))
        rec.add(*O.minimise(lambda x: (x - .3) ** 2, 1, 1, full=full))
        rec.add(*O.minimise(lambda x: (x - 2) ** 2, 0, 5, full=full, xm=2.0, easy=True))
        rec.add(*O.minimise(lambda x: (x - 2) ** 2, -1, 5, full=full, xm=2.0, easy=True, maxev=500))


# ---------------------------------------------------------------- the despiking loop
def loop_session(rng, det, rep, comps, dec_, max_pass, grid=16):
    """the loop of examples/filtration/*.py on the real code, one event per pass"""
    cur = [np.array(c, dtype=float) for c in comps]
    n = cur[0].size
    raw = rng.random() < (.5 if det in ("acc", "vc") else .3)
    ev = [{"op": "l_start", "det": det, "raw": bool(raw), "rep": rep, "dec": dec_, "x": [O.vec(c) for c in cur]}]
    tag, it = 1, 0
    reason = "budget"
    mean = O.DES.mean
    while it < max_pass:
        tag = 2 if tag == 1 else 1
        av = [O.call(mean, c.copy()) for c in cur]
        if any(O.isexc(a) for a in av):
            av = [float(np.mean(c)) for c in cur]
        # the detectors that centre the record themselves may be handed the record as it is
        cen = cur if raw else [c - a for c, a in zip(cur, av)]
        if det == "acc":
            fl = [O.call(O.ACC.acceleration_thresholding, c, frequency=100, tag=tag, gravity=980, k_gravity=1.5, k_sigma=1) for c in cen]
        elif det == "pst":
            fl = [O.call(O.PST.phasespace_thresholding, c) for c in cen]
        elif det == "sph":
            fl = [O.call(O.SPH.spherical_phasespace_thresholding, c, it, a) for c, a in zip(cen, av)]
        elif det == "vc":
            o = O.call(O.VC.velocity_correlation, *cen)
            fl = [o, o, o]
        else:
            fl = [O.call(O.K3.three_dimensional_kernel, c, grid) for c in cur]
        e = {"op": "l_pass", "tag": tag, "flags": [O.enc(f, True) for f in fl]}
        if any(O.isexc(f) for f in fl):
            e.update(merged=[], after=[O.enc(c) for c in cur])
            ev.append(e)
            return ev
        idx = np.sort(np.unique(np.concatenate([np.ravel(f) for f in fl])))
        e["merged"] = [int(i) for i in idx]
        if not idx.size:
            e["after"] = []
            ev.append(e)
            reason = "clean"
            break
        if rep == "last" and idx.size == n:
            break                                   # outside the domain of the replacement
        idx = idx.astype(int)
        before = idx.copy()
        if rep == "linear":
            nxt = [O.call(O.R.linear_interpolation, c, idx, decimals=dec_) for c in cur]
        elif rep == "mean":
            nxt = [O.call(O.R.mean_value, c, idx) for c in cur]
        else:
            nxt = [O.call(O.R.last_valid_data, c, idx) for c in cur]
        assert (before == idx).all()
        e["after"] = [O.enc(c) for c in nxt]
        ev.append(e)
        if any(O.isexc(c) or not isinstance(c, np.ndarray) or c.shape != (n,) or not np.isfinite(c).all() for c in nxt):
            return ev
        cur = [np.array(c, dtype=float) for c in nxt]
        it += 1
    ev.append({"op": "l_stop", "reason": reason})
    return ev


def spiked(rng, n, scale):
    comps = []
    for _ in range(3):
        x = series(rng, n, str(rng.choice(["gauss", "walk", "sine", "dec2"])))
        x = np.array(x) / (np.std(x) + 1e-9) * scale
        for _ in range(int(rng.integers(0, 4))):
            i = int(rng.integers(0, n))
            m = int(rng.integers(1, 4))
            x[i:i + m] += float(rng.choice([-1, 1]) * rng.uniform(3, 15)) * scale
        comps.append(np.round(x + float(rng.choice([0, 0, 5, -40])), int(rng.choice([2, 3, 6]))))
    return comps


@driver("C29")
def c29(rec, rng, tier, emitted):
    for c in emitted:
        if c.get("op") == "loop":
            comps = [[float(Fraction(v)) for v in s] for s in c["x"]]
            for det in ("acc", "pst", "vc"):
                for rep in ("linear", "mean", "last"):
                    rec.add(*loop_session(rng, det, rep, comps, 3, 6))
    for k in range(N(tier, 110, 2500)):
        if not rec.left():
            break
        det = ["acc", "pst", "sph", "vc", "kde"][k % 5]
        rep = ["linear", "mean", "last"][(k // 5) % 3]
        n = size(rng, 8, 30 if det != "kde" else 20, 150 if det != "kde" else 40)
        if k % 11 == 3 and det != "kde":
            n = int(rng.integers(60, 400))
        scale = float(rng.choice([20, 60, 200])) if det in ("acc", "sph") else float(rng.choice([0.5, 3, 30]))
        comps = spiked(rng, n, scale)
        rec.add(*loop_session(rng, det, rep, comps, int(rng.choice([2, 3, 3, 4, 6])), {"sph": 3, "kde": 1}.get(det, int(rng.choice([2, 4, 6]))),
                              grid=int(rng.choice([8, 12]))))
    for k in range(N(tier, 6, 60)):
        data = dataset()
        if not data:
            break
        m = data[k % len(data)]
        n = size(rng, 30, 61, 300)
        s = int(rng.integers(0, m.shape[0] - n))
        comps = [m[s:s + n, j].copy() for j in range(3)]
        det = ["acc", "pst", "vc"][k % 3]
        rec.add(*loop_session(rng, det, ["linear", "mean", "linear"][k % 3], comps, 3, 6))
    for rep in ("linear", "mean", "last"):
        for det in ("acc", "pst", "sph", "vc"):
            rec.add(*loop_session(rng, det, rep, [[1.5] * 9, [0.1] * 9, [-3.0] * 9], 3, 3))


# ---------------------------------------------------------------- purity
@driver("C02")
def c02(rec, rng, tier, emitted):
    import purity as P
    names = list(P.CAT)
    # every function alone: called, its result overwritten, called again, argument watched
    for rnd in range(N(tier, 3, 20)):
        for fn in names:
            rec.add(*P.session(rng, 9, [fn]))
    for c in emitted[:: max(1, len(emitted) // N(tier, 200, 3000))]:
        if c.get("op") == "heap":
            rec.add(*P.scripted(rng, c["acts"], names))
    for k in range(N(tier, 120, 2500)):
        if not rec.left():
            break
        sub = list(rng.choice(names, size=int(rng.integers(2, 6)), replace=False))
        rec.add(*P.session(rng, int(rng.integers(15, 40)), sub))


@driver("C36")
def c36(rec, rng, tier, emitted):
    import purity as P
    names = [n for n in P.CAT if n not in ("slope", "angle", "cut2", "cut3")]
    for rnd in range(N(tier, 6, 60)):
        for fn in names:
            rec.add(*P.layouts(rng, [fn], length=9))
            if rnd % 2 == 0:
                rec.add(*P.every_layout(rng, fn))
    em = [c for c in emitted if c.get("op") == "layout"]
    for c in em[:: max(1, len(em) // N(tier, 200, 2000))]:
        rec.add(*P.layouts(rng, [str(f) for f in rng.choice(names, size=2, replace=False)], c["acts"]))


# ---------------------------------------------------------------- at the same time, cut short
@driver("C37")
def c37(rec, rng, tier, emitted):
    import conc as K
    import purity as P
    names = [n for n in P.CAT if n != "noise"]
    em = [c["acts"] for c in emitted if c.get("op") == "conc" and len(c["acts"]) == 6]

    def cold(r, fn, kind):
        return lambda: [K.first_together(r, fn, names, N(tier, 10, 40), N(tier, 2, 12), kind)]

    def warm(r, fn, kinds):
        return lambda: [K.together(r, fn, names, N(tier, 12, 60), kind) for kind in kinds]

    def planned(r, n):
        def go():
            ss = []
            for _ in range(n):
                acts = [em[int(i)] for i in r.integers(len(em), size=5)]
                ss.append(K.together(r, str(r.choice(names)), names, 0, int(r.integers(3)), acts=acts))
            return ss
        return go

    def target(r, n):
        return lambda: [K.target_session(r, False) for _ in range(n)]

    def fresh():
        return np.random.default_rng(rng.integers(1 << 60))

    jobs = []
    if not rec.exploring:
        jobs += [cold(fresh(), fn, kind) for fn in names for kind in range(3)]
    for rnd in range(N(tier, 1, 6)):
        jobs += [warm(fresh(), fn, [k for k in range(4) if k < 3 or rnd or sum(map(ord, fn)) % 3 == 0]) for fn in names]
    if em:
        jobs += [planned(fresh(), 10) for _ in range(N(tier, 6, 60))]
    jobs += [target(fresh(), 3) for _ in range(N(tier, 3, 20))]
    spread(rec, jobs)


def spread(rec, jobs):
    """the sessions of all jobs, each job in a process of its own (in this one while exploring, to see what they reach)"""
    import conc as K
    for ss in (j() for j in jobs) if rec.exploring else K.spread(jobs):
        for ev in ss:
            rec.add(*ev)


@driver("C38")
def c38(rec, rng, tier, emitted):
    import conc as K
    import purity as P

    def cut(r, fn):
        return lambda: [K.cut_short(r, fn, N(tier, 14, 60))]

    def target(r, n):
        return lambda: [K.target_session(r, True, w) for w in range(n)]

    def fresh():
        return np.random.default_rng(rng.integers(1 << 60))

    def cold(r, fn):
        return lambda: [K.first_cut(r, fn, N(tier, 10, 40), N(tier, 2, 12))]

    jobs = [cold(fresh(), fn) for rnd in range(N(tier, 2, 6)) for fn in P.CAT] if not rec.exploring else []
    jobs += [cut(fresh(), fn) for rnd in range(N(tier, 3, 12)) for fn in P.CAT]
    jobs += [target(fresh(), 6) for _ in range(N(tier, 3, 20))]
    spread(rec, jobs)


# ---------------------------------------------------------------- filter algebra
def roots(rng, n, lim=3.0, left=False, disc=False):
    """n conjugate-closed roots: integers, decimals, repeated ones, on the axes"""
    out = []
    rd = lambda v: float(np.round(v, int(rng.choice([0, 1, 2, 9]))))
    while len(out) < n:
        if len(out) + 2 <= n and rng.random() < .55:
            a, b = rd(rng.uniform(-lim, lim)), abs(rd(rng.uniform(.1, lim)))
            if disc:
                r, t = rng.uniform(.05, .98), rng.uniform(.05, 3.1)
                a, b = float(r * np.cos(t)), abs(float(r * np.sin(t)))
            if left:
                a = -abs(a) - .01
            if b == 0:
                continue
            new = [complex(a, b), complex(a, -b)]
        else:
            a = rd(rng.uniform(-lim, lim)) if not disc else float(np.round(rng.uniform(-.98, .98), 3))
            if left:
                a = -abs(a) - .01
            if a == 0:
                continue
            new = [complex(a, 0)]
        if out and rng.random() < .15 and len(new) == 1:
            new = [complex(out[-1].real, 0)] if out[-1].imag == 0 else new
        out += new
    out = out[:n]
    if rng.random() < .5:
        out = [out[i] for i in rng.permutation(len(out))]
    if all(r.imag == 0 for r in out) and rng.random() < .7:
        return [r.real for r in out]
    return out


def places(rng, n):
    return [(Fraction(int(rng.integers(-90, 91)), 20), Fraction(int(rng.integers(-90, 91)), 21)) for _ in range(n)] + \
        [(Fraction(0), Fraction(int(rng.integers(1, 60)), 10))]


@driver("C32")
def c32(rec, rng, tier, emitted):
    fns = list(O.XF)
    for c in emitted_series(emitted, "zpk"):
        z, p = [float(v) for v in c["z"]], [float(v) for v in c["p"]]
        if c.get("conj"):
            p = [complex(p[0], 1), complex(p[0], -1)] + p[1:]
        pts = [(Fraction(1, 3), Fraction(7, 5)), (Fraction(0), Fraction(5, 2)), (Fraction(-11, 4), Fraction(1, 7))]
        ev = [O.xform(f, z, p, 2.0, 3.0, 0.5, pts) for f in fns if 6.0 not in z + p or f != "bilin"]
        ev += [O.ptf(z, p, 2.0), O.sop(z, p, 2.0, False, pts=pts), O.sop(z, p, 2.0, True, pts=pts)]
        rec.add(*ev)
    for k in range(N(tier, 220, 4000)):
        npol = int(rng.integers(1, 8 if k % 8 else 19)) if k % 10 else 0
        nz = int(rng.integers(0, npol + 1))
        z, p = roots(rng, nz), roots(rng, npol, left=bool(rng.random() < .5))
        g = par(rng, [1, 2.5, -0.75, 1e-3, 40], -1e4, 1e4)
        if g == 0:
            g = 1.0
        a, b = par(rng, [1.0, 2, 0.5, 7.25, 30], 0.01, 100), par(rng, [1.0, 0.3, 2, 5], 0.01, 50)
        fn = fns[k % 5]
        if fn == "bilin":
            a = par(rng, [0.5, 1.0, 2, 25, 100.0], 0.1, 1e4)
            if any(abs(2 * a - r) < 1e-3 for r in list(z) + list(p)):
                a += 0.37
        zz, pp = z, p
        if k % 7 == 0:
            zz, pp = list(z), list(p)
        if len(z) == 1 and k % 3 == 0:
            zz = z[0]
        rec.add(O.xform(fn, zz, pp, g, a, b, places(rng, 4), kwargs=bool(k % 2)))
        if k % 9 == 0 and fn != "bilin":
            rec.add(O.xform(fn, z, p, g, None, None, places(rng, 4)))
    for k in range(N(tier, 160, 3000)):
        npol = int(rng.integers(0, 8 if k % 5 else 19))
        nz = int(rng.integers(0, 8)) if k % 5 else int(rng.integers(0, npol + 1)) if k % 10 else npol
        z, p = roots(rng, nz, disc=bool(k % 2)), roots(rng, npol, disc=bool(k % 2))
        g = par(rng, [1, 2.5, -0.75, 1e-3, 40], -1e4, 1e4)
        rec.add(O.ptf(z, p, g))
        ag = bool(k % 3 == 0)
        pg = None if k % 4 else ("ml" if ag else str(rng.choice(["nr", "ml", "kd"])))
        z, p = roots(rng, nz, disc=not ag), roots(rng, npol, disc=not ag, left=ag)
        if pg == "ml" or ag:
            if len(z) > len(p):
                rec.add(O.sop(z, p, g, ag, pg, bad="ValueError"))
                continue
        if pg == "ml" and not ag:
            # analog alignment requested for a digital filter: read as powers of the variable
            rec.add(O.sop(z, p, g, ag, pg, places(rng, 3)) | {"ag": True})
        else:
            rec.add(O.sop(z, p, g, ag, pg, places(rng, 3)))
    for k in range(N(tier, 15, 100)):
        M, npol = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        nz = int(rng.integers(1, 4))
        Z = np.round(rng.uniform(-2, 2, (M, nz)), 2)
        p = roots(rng, npol)
        gs = np.round(rng.uniform(.5, 3, M), 2) if k % 2 else np.array([1.5])
        o = O.call(O.BUT.xyz_to_ptf, Z, np.asarray(p), gs)
        for i in range(M):
            g = float(gs[i if gs.size > 1 else 0])
            rec.add({"op": "ptf", "z": O.cplx(Z[i]), "p": O.cplx(p), "k": O.rat(g), "out": O.ptf_out(o, i)})
    V = "ValueError"
    for k in range(N(tier, 20, 100)):
        npol = int(rng.integers(0, 5))
        z, p = roots(rng, npol + int(rng.integers(1, 4))), roots(rng, npol)
        rec.add(*[O.xform(f, z, p, 1.5, 2.0, 0.5, bad=V) for f in fns])
    rec.add(O.sop([.5], [.2, .3], 1.0, False, "near", bad=V), O.sop([.5], [.2, .3], 1.0, True, "nr", bad=V), O.sop([.5], [.2, .3], 1.0, True, "kd", bad=V),
            O.sop([.5], [.2 + .1j, .3], 1.0, False, bad=V), O.sop([.5 + .2j], [.2, .3], 1.0, False, bad=V),
            O.sop([.5 + .2j, .5 - .3j], [.2, .3], 1.0, False, bad=V), O.sop([.5], [.2, .3], 1.0 + 2j, False, bad=V),
            O.xform("bilin", [], [-1.0], 1.0, None, bad="Exception"))
    # the listed finding: a lone real zero among complex ones
    rec.add(O.sop([-.25, .5 + 2j, .5 - 2j], [-2 + 2j, -2 - 2j, -1.25, -.5 + .5j, -.5 - .5j], 1.0, True, pts=places(rng, 2)))
    for n in list(range(1, N(tier, 13, 40))) + [4.0, np.int64(3)]:
        rec.add(O.proto(n))
    for n in (-1, 2.5, -3, 0.5):
        rec.add(O.proto(n, V))


@driver("C33")
def c33(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "pl"):
        ys = [float(v) for v in c["y"]]
        xs = [0.1 * i / (len(ys) - 1) for i in range(len(ys))]
        for n in (10, 51, 300, 2000):
            rec.add(O.kroot(xs, ys, n, False, 0))
    for k in range(N(tier, 300, 4000)):
        n = par(rng, [1, 10, 50, 51, 60, 100, 300, 700, 1049, 1050, 1051, 5000], 1, 3000, True)
        s = float(rng.choice([1, -1])) * float(rng.choice([1, 1, 1e-3, 50, 1e6]))
        r = k % 5
        t = float(rng.choice([1e-9, 1e-6, 1e-4, 3e-3, 0.02, 0.05, 0.09, 0.11])) * float(rng.uniform(.5, 1.5))
        uni, xm = False, 0.0
        if r < 3:
            # one crossing at t
            xs, ys = [0.0, t, max(0.2, 2 * t)], [-s, 0.0, s * float(rng.choice([1, .1, 5]))]
            uni, xm = True, min(t, 0.1)
        elif r == 3:
            # no crossing: a valley
            m = float(rng.uniform(.003, .097))
            lo = float(rng.uniform(.1, .5))
            xs, ys = [0.0, m, 0.1, 0.2], [s, lo * s, s, s]
            uni, xm = True, m
        else:
            m = int(rng.integers(3, 7))
            xs = [0.0] + sorted(float(v) for v in rng.uniform(1e-4, .15, m))
            ys = [float(np.round(v, 2)) for v in rng.normal(size=m + 1)]
        if len(set(xs)) == len(xs):
            rec.add(O.kroot(xs, ys, n, uni, xm))


@driver("C34")
def c34(rec, rng, tier, emitted):
    for c in emitted_series(emitted, "ser"):
        rec.add(O.deriv([float(Fraction(v)) / 8 for v in c["x"]]))
    angles = [0.0, 0.3, -0.3, 0.7, -0.7, 0.8, -0.8, 1.2, -1.5, 3.0]
    for k in range(N(tier, 300, 4000)):
        th = par(rng, angles, -3.1, 3.1) if k % 2 else float(rng.uniform(-1.6, 1.6))
        s1, s2, lam = par(rng, [1, .5, 20, .01], 0.001, 1e3), par(rng, [1, .5, 20, .01], 0.001, 1e3), par(rng, [1, 2.1, 3.7], .1, 10)
        rec.add(O.ab(s1, s2, th, lam), O.ab(s1, s1 * float(rng.uniform(.7, 1.4)), th, lam))
        n = size(rng, 1, 40)
        x, y = series(rng, n), series(rng, n)
        rec.add(O.rho(x, y, th, par(rng, [1, .1, 30, 1e10], .01, 1e5), par(rng, [1, .1, 30, 1e10], .01, 1e5)))
    for k in range(N(tier, 200, 2500)):
        n = size(rng, 1, 50)
        x = series(rng, n)
        rec.add(O.deriv(x))
        if n >= 3:
            x, d, d2 = series(rng, n), series(rng, n), series(rng, n)
            if k % 2:
                d, d2 = (np.asarray(v) for v in (np.gradient(x), np.gradient(np.gradient(x))))
            rec.add(O.pspars(x, d, d2), O.vcpars(x, d, d2))
    for n in longs(rng, tier):
        x, y, z = series(rng, n, "spiky"), series(rng, n, "walk"), series(rng, n, "dec2")
        rec.add(O.deriv(x), O.pspars(x, y, z), O.vcpars(x, y, z), O.rho(x, y, 0.4, 3.0, 2.0))
