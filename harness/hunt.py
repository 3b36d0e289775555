"""Inputs that tell the detectors apart from near misses of them: for every wrong variant of a formula, records on which
it would give another verdict.  They only steer what is driven; the verdict is the specification's."""
import warnings

import numpy as np


def _axes(r1, r2, t):
    f = np.cos(t) ** 4 - np.sin(t) ** 4
    a, b = (r1 ** 2 * np.cos(t) ** 2 - r2 ** 2 * np.sin(t) ** 2) / f, (r2 ** 2 * np.cos(t) ** 2 - r1 ** 2 * np.sin(t) ** 2) / f
    return (a, b) if a > 0 and b > 0 else (np.inf, np.inf)


def _rho(x, y, t, a2, b2):
    return (x * np.cos(t) + y * np.sin(t)) ** 2 / a2 + (y * np.cos(t) - x * np.sin(t)) ** 2 / b2


def _angle(t, v, k=""):
    return {"neg" + k: -t, "abs" + k: abs(t), "negabs" + k: -abs(t), "zero" + k: 0.0, "half" + k: t / 2, "double" + k: 2 * t}.get(v, t)


def _sd(x, v, k):
    if v == "mad" + k:
        return np.mean(np.abs(x - np.mean(x))) * 1.2533
    if v == "rms" + k:
        return np.sqrt(np.mean(x ** 2))
    if v == "inner" + k:
        return np.std(x[1:-1])
    if v == "ddof" + k and x.size > 1:
        return np.std(x, ddof=1)
    return np.std(x)


def _lam(n, v):
    m = {"n-1": n - 1, "n-2": n - 2, "n+1": n + 1, "2n": 2 * n}.get(v, n)
    return np.sqrt(2 * np.log(max(m, 1.0001))) * (1.05 if v == "lam+" else .95 if v == "lam-" else 1)


PST = (["neg", "abs", "negabs", "zero", "half", "double", "n-1", "n-2", "n+1", "2n", "lam+", "lam-"] + [a + k for a in ("mad", "rms", "inner", "ddof") for k in "012"]
       + ["no1", "no2", "no3", "swap3", "swap1", "ends", "inside", "centre", "regress", "onlypos", "onlyneg", "grad", "first", "last", "backward"])


def pst(c, v=""):
    n = c.size
    if v == "centre":
        c = c - c.mean()

    def der(x):
        d = np.zeros(n)
        d[1:-1] = np.around((x[2:] - x[:-2]) / 2, 4)
        if v == "backward":
            d[1:-1] = np.around(x[1:-1] - x[:-2], 4)
        if v == "grad" or v == "ends":
            d[0], d[-1] = x[1] - x[0], x[-1] - x[-2]
        return d
    d = der(c)
    e = der(d)
    if v == "grad":
        e = np.gradient(d)
    s = [_sd(x, v, k) for x, k in zip((c, d, e), "012")]
    l = _lam(n, v)
    t = np.arctan(np.sum(c * e) / np.sum(c ** 2))
    if v == "regress":
        q = c - c.mean()
        t = np.arctan(np.sum(q * e) / np.sum(q * q))
    t = _angle(t, v)
    a, b = _axes(l * s[0], l * s[2], t)
    r = [_rho(c, d, 0, (l * s[0]) ** 2, (l * s[1]) ** 2), _rho(d, e, 0, (l * s[1]) ** 2, (l * s[2]) ** 2), _rho(c, e, t, a, b)]
    if v == "swap3":
        r[2] = _rho(c, e, t, b, a)
    if v == "swap1":
        r[0] = _rho(c, d, 0, (l * s[1]) ** 2, (l * s[0]) ** 2)
    m = np.fmax.reduce([x for k, x in enumerate(r) if v != "no%d" % (k + 1)])
    if v == "inside":
        m[[0, -1]] = 0
    return _mask(m, c, v)


def pst_lean(c):
    d, e = np.zeros(c.size), np.zeros(c.size)
    d[1:-1] = (c[2:] - c[:-2]) / 2
    e[1:-1] = (d[2:] - d[:-2]) / 2
    return np.sum(c * e)


def _mask(m, c, v):
    m = np.array(m)
    if v == "onlypos":
        m[c < 0] = 0
    if v == "onlyneg":
        m[c > 0] = 0
    if v == "first":
        m[0] = 0
    if v == "last":
        m[-1] = 0
    return m


VC = (["neg", "abs", "negabs", "zero", "half", "double"] + [a + k for a in ("neg", "abs", "negabs", "zero", "other") for k in "012"]
      + ["n-1", "n-2", "n+1", "2n", "lam+", "lam-"] + [a + k for a in ("mad", "rms", "ddof") for k in "012"]
      + ["no1", "no2", "no3", "swap1", "swap2", "swap3", "raw", "median", "cap", "turn", "circle", "absaxes", "onlypos", "onlyneg", "both"])


def vc(u, w, z, v=""):
    c = [x - (0 if v == "raw" else np.median(x) if v == "median" else x.mean()) for x in (u, w, z)]
    l = _lam(u.size, v)
    r = []
    for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
        x, y = c[i], c[j]
        t = np.arctan(np.sum(x * y) / np.sum(y ** 2 if v == "other%d" % k else x ** 2))
        t = _angle(_angle(t, v), v, str(k))
        if v == "cap":
            t = np.clip(t, -np.pi / 4, np.pi / 4)
        sx, sy = _sd(x, v, str(i)), _sd(y, v, str(j))
        f = np.cos(t) ** 4 - np.sin(t) ** 4
        a, b = _axes(l * sx, l * sy, t)
        if v == "absaxes" and not np.isfinite(a):
            a = abs((l * sx) ** 2 * np.cos(t) ** 2 - (l * sy) ** 2 * np.sin(t) ** 2) / abs(f)
            b = abs((l * sy) ** 2 * np.cos(t) ** 2 - (l * sx) ** 2 * np.sin(t) ** 2) / abs(f)
        if v == "circle" and not np.isfinite(a):
            a, b = (l * sx) ** 2, (l * sy) ** 2
        if v == "swap%d" % (k + 1):
            a, b = b, a
        r.append(_rho(x, y, -t if v == "turn" else t, a, b))
    m = np.sort(np.nan_to_num(r), axis=0)[1] if v == "both" else np.fmax.reduce([x for k, x in enumerate(r) if v != "no%d" % (k + 1)])
    return _mask(m, c[0], v)


SPH = (["neg", "abs", "negabs", "zero", "half", "atan", "raw", "median", "n-1", "n-2", "n+1", "2n", "lam+", "lam-", "edge2", "diff2", "central", "noturnx", "noturnz"]
       + [a + k for a in ("mad", "rms", "inner", "ddof") for k in "012"] + ["nox", "noy", "noz", "onlypos", "onlyneg", "first", "last", "box"])


def sph(c, v=""):
    c = c - (0 if v == "raw" else np.median(c) if v == "median" else c.mean())
    d = np.gradient(c, edge_order=2 if v == "edge2" and c.size > 2 else 1)
    e = np.gradient(d, edge_order=2 if v == "edge2" and c.size > 2 else 1)
    if v == "diff2":
        e = np.zeros(c.size)
        e[1:-1] = c[2:] - 2 * c[1:-1] + c[:-2]
    if v == "central":
        d = d.copy()
        d[[0, -1]] = 0
        e = np.gradient(d)
        e[[0, -1]] = 0
    t = np.arctan2(np.sum(c * e), np.sum(c ** 2))
    t = _angle(t, v)
    x, z = c * np.cos(t) + e * np.sin(t), -c * np.sin(t) + e * np.cos(t)
    if v == "noturnx":
        x = c
    if v == "noturnz":
        z = e
    l = _lam(c.size, v)
    q = [(w / (l * _sd(w, v, k))) ** 2 for w, k in zip((x, d, z), "012")]
    q = [w for w, k in zip(q, "xyz") if v != "no" + k]
    return _mask(np.max(q, axis=0) if v == "box" else np.sum(q, axis=0), c, v)


def find(fn, variants, gen, tries, each, margin=.02):
    """records on which a variant disagrees with fn, as (arguments)"""
    out, got = [], {v: 0 for v in variants}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(tries):
            args = gen()
            m = np.asarray(fn(*args))
            used = False
            for v in variants:
                if got[v] < each:
                    w = np.asarray(fn(*args, v=v))
                    if np.any((m > 1 + margin) & ~(w > 1) | (m < 1 - margin) & (w > 1)):
                        got[v] += 1
                        used = True
            if used:
                out.append(args)
    return out, [v for v in variants if not got[v]]
