"""One function per kind of observed call: performs it on the real code and returns
the event that spec/Api.tla judges."""
import importlib
import os
import sys
import warnings

REPO = os.environ.get("PROADV_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from enc import CallTimeout, call, enc, enc_arr, enc_exc, rat, vec  # noqa: E402
import proadv  # noqa: E402

assert os.path.abspath(proadv.__file__).startswith(os.path.abspath(REPO) + os.sep), proadv.__file__


def mod(name):
    return importlib.import_module("proadv." + name)


R = mod("filtration.replacement.replacements")
ACC = mod("filtration.detection.acceleration")
PST = mod("filtration.detection.phasespace")
VC = mod("filtration.detection.correlation")
SPH = mod("filtration.detection.spherical")
K3 = mod("filtration.detection.trivariatekernel")
K2 = mod("filtration.detection.bivariatekernel")
POI = mod("filtration.detection.poincare")
POLL = mod("filtration.detection.pollution")
DES = mod("statistics.descriptive")
SPR = mod("statistics.spread")
MOM = mod("statistics.moment")
SER = mod("statistics.series")
NRM = mod("statistics.distributions.normal")
OPT = mod("statistics.optimize.optimize")
FLU = mod("statistics.signal.fluid")
SPE = mod("statistics.signal.spectrum")
SYN = mod("statistics.signal.synthetic")
BUT = mod("statistics.signal.butter")
BIV = mod("kernel.bivariate")

F8 = np.float64


def arr(x):
    return np.array(x, dtype=F8)


def arrs(*xs):
    """fresh arrays, one object for one object: a caller may hand the same record over twice"""
    m = {id(x): arr(x) for x in xs}
    return [m[id(x)] for x in xs]


def isexc(o):
    return isinstance(o, BaseException)


# ---- replacement ------------------------------------------------------------
REP = {"linear": "linear_interpolation", "last": "last_valid_data", "mean": "mean_value", "median": "median_value",
       "cubic": "cubic_12points_polynomial", "poly": "polynomial_replacement", "sma": "simple_moving_average",
       "ema": "exponential_moving_average", "wma": "weighted_moving_average", "ssa": "ssa", "kalman": "kalman_filter"}
SMOOTH = {"sma": "moving_average", "ema": "exponential_moving_average", "wma": "weighted_moving_average",
          "ssa": "ssa", "kalman": "kalman_filter"}


def idx_as(idx, form):
    if form == "list":
        return list(int(i) for i in idx)
    if form == "tuple":
        return tuple(int(i) for i in idx)
    if form == "i32":
        return np.array(idx, dtype=np.int32)
    return np.array(idx, dtype=np.int64)


def smoother(m, x, kw):
    o = call(getattr(SER, SMOOTH[m]), x, **kw)
    if m == "kalman" and not isexc(o):
        o = call(lambda: np.ravel(np.asarray(o, dtype=float)))
    return o


def rep(m, x, idx, form="arr", **kw):
    """kw: parameters passed to the replacement (and, for smoothers, to the smoother)"""
    x = arr(x)
    keep = x.copy()
    nan = [int(i) for i in np.nonzero(np.isnan(keep))[0]]
    ii = idx_as(idx, form)
    o = call(getattr(R, REP[m]), x, ii, **kw)
    e = {"op": "rep", "m": m, "x": vec(np.where(np.isnan(keep), 0.0, keep)), "idx": [int(i) for i in idx], "dec": kw.get("decimals", 4),
         "nan": nan, "win": kw.get("window", 100), "deg": kw.get("degree", 2), "per": kw.get("period", 20),
         "alias": bool(isinstance(o, np.ndarray) and np.shares_memory(o, x)), "form": form,
         "out": enc(o), "sm": {"k": "none"}}
    if m in SMOOTH:
        s = smoother(m, keep.copy(), kw)
        e["sm"] = enc(s)
        e["par"] = repr(kw)
        if isexc(s):
            e["op"] = "repsmbad"
    return e


def repbad(m, x, idx, t, **kw):
    return {"op": "repbad", "m": m, "t": t, "arg": repr((np.shape(x), idx)), "out": enc(call(getattr(R, REP[m]), x, idx, **kw))}


# ---- detectors ----------------------------------------------------------------
def acc(x, fq, tag, lists=False, ints=False, **kw):
    d = {"gravity": 980, "k_gravity": 1.5, "k_sigma": 1}
    d.update(kw)
    a = np.array(x, dtype=np.int64) if ints else arr(x)
    o = call(ACC.acceleration_thresholding, a.tolist() if False else a, fq, tag, **kw)
    return {"op": "acc", "x": vec(a), "fq": rat(fq), "tag": tag if isinstance(tag, int) else 0, "g": rat(d["gravity"]),
            "kg": rat(d["k_gravity"]), "ks": rat(d["k_sigma"]), "out": enc(o, True)}


def pst(x):
    a = arr(x)
    return {"op": "pst", "x": vec(a), "out": enc(call(PST.phasespace_thresholding, a), True)}


def vc(u, v, w):
    return {"op": "vc", "u": vec(u), "v": vec(v), "w": vec(w),
            "out": enc(call(VC.velocity_correlation, *arrs(u, v, w)), True)}


def sph(x, it=1, cm=0.0):
    a = arr(x)
    return {"op": "sph", "x": vec(a), "it": it, "cm": rat(cm),
            "out": enc(call(SPH.spherical_phasespace_thresholding, a, it, cm), True)}


def pair(p, o1, o2, mp, note):
    return {"op": "pair", "p": p, "o1": enc(o1, True), "o2": enc(o2, True), "map": [int(i) for i in mp], "note": note}


def kde3(x, grid):
    a = arr(x)
    return {"op": "kde3", "x": vec(a), "grid": grid, "out": enc(call(K3.three_dimensional_kernel, a, grid), True)}


def kdepair(u, w, grid):
    o = call(K3.kernel, *arrs(u, w), grid)
    if isinstance(o, tuple) and len(o) == 2:
        o = o[0]
    return {"op": "kdepair", "u": vec(u), "w": vec(w), "grid": grid, "out": enc(o, True)}


def kdens(u, w, grid, pts=()):
    o = call(K3.kernel, *arrs(u, w), grid)
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], np.ndarray):
        d = o[1]
        fin = d.dtype.kind in "fiu" and bool(np.isfinite(d).all())
        o = {"k": "grid", "shape": list(d.shape), "fin": fin, "v": [] if not fin or d.shape != (grid, grid) else [rat(d[p - 1, q - 1]) for p, q in pts] if len(pts) else [vec(r) for r in d]}
    else:
        o = enc(o)
    return {"op": "kdens", "u": vec(u), "w": vec(w), "grid": grid, "pts": [list(p) for p in pts], "out": o}


def form(name, fn, n, *a, **kw):
    return {"op": "form", "det": name, "n": int(n), "out": enc(call(fn, *a, **kw), True), "arg": repr(a)[:400]}


# ---- descriptive --------------------------------------------------------------
def item(v):
    if isinstance(v, str):
        try:
            return {"k": "c", "v": rat(float(v))}
        except ValueError:
            return {"k": "s", "v": "0"}
    if isinstance(v, (float, np.floating)) and v != v:
        return {"k": "nan", "v": "0"}
    return {"k": "n", "v": rat(v)}


def desc(fn, data, scalar=False):
    """fn in min, max, mean, median, mode; data list / tuple / ndarray / scalar"""
    if scalar:
        its, nd = [item(data)], 0
    elif isinstance(data, np.ndarray):
        its, nd = [item(v) for v in data.ravel().tolist()], data.ndim
    else:
        its, nd = [item(v) for v in data], 1
    o = call(getattr(DES, fn), data)
    return {"op": "desc", "fn": "scalar" if scalar else fn, "items": its, "nd": nd, "cont": type(data).__name__, "out": enc(o)}


SPREAD = {"var": (SPR, "variance"), "std": (SPR, "std"), "skew": (MOM, "skewness"), "kurt": (MOM, "kurtosis")}


def spread(fn, data):
    m, name = SPREAD[fn]
    return {"op": "spread", "fn": fn, "items": [item(v) for v in data.ravel().tolist()], "nd": data.ndim,
            "out": enc(call(getattr(m, name), data))}


# ---- smoothers -------------------------------------------------------------------
def sma(x, win):
    return {"op": "sma", "x": vec(x), "win": win, "out": enc(call(SER.moving_average, np.asarray(x), win))}


def ema(x, al):
    return {"op": "ema", "x": vec(x), "al": rat(al), "out": enc(call(SER.exponential_moving_average, arr(x), al))}


def wma(x, per):
    return {"op": "wma", "x": vec(x), "per": per, "out": enc(_wma(call(SER.weighted_moving_average, arr(x), per)))}


def _wma(o):
    return np.array([], dtype=float) if isinstance(o, list) and not o else o


def kal(x, x0, p0, Q, Rn):
    o = call(SER.kalman_filter, arr(x), x0, p0, Q, Rn)
    if not isexc(o):
        n = len(o) if hasattr(o, "__len__") else -1
        o2 = call(lambda: np.ravel(np.asarray(o, dtype=float)))
        o = o2 if not isexc(o2) and o2.size == n else o2
    return {"op": "kal", "x": vec(x), "x0": rat(x0), "p0": rat(p0), "Q": rat(Q), "R": rat(Rn), "out": enc(o)}


def ssa(x, fs, f):
    x = arr(x)
    L = int(np.ceil(fs / f))
    k = x.size - L + 1
    T = np.array([x[i:i + L] for i in range(k)]).T
    _, E = np.linalg.eigh(T @ T.T)
    # one refinement step keeps the witness orthonormal to working precision
    return {"op": "ssa", "x": vec(x), "fs": rat(fs), "f": rat(f), "L": L, "E": [vec(E[:, j]) for j in range(L)],
            "out": enc(call(SER.ssa, x, fs, f))}


def ssaneg(x, fs, f):
    x = arr(x)
    return {"op": "ssaneg", "x": vec(x), "o1": enc(call(SER.ssa, x, fs, f)), "o2": enc(call(SER.ssa, -x, fs, f))}


# ---- turbulence --------------------------------------------------------------------
def tke(u, v, w):
    return {"op": "tke", "u": vec(u), "v": vec(v), "w": vec(w), "out": enc(call(FLU.kinetic_turbulent_energy, *arrs(u, v, w)))}


def rey(u, v, w):
    return {"op": "rey", "u": vec(u), "v": vec(v), "w": vec(w), "out": enc(call(FLU.reynolds_stresses, *arrs(u, v, w)))}


# ---- distributions --------------------------------------------------------------------
def dist(fn, x, sd=1, mu=0, bad="", default=False):
    a = np.asarray(x, dtype=float)
    kw = {} if fn not in ("pdf", "log_pdf") or default else {"std": sd, "mean": mu}
    o = call(getattr(NRM, fn), x, **kw)
    if isexc(o):
        o = enc_exc(o)
    elif isinstance(o, (np.ndarray, np.generic, float, int)):
        o = enc_arr(o)
    else:
        o = enc(o)
    return {"op": "dist", "fn": fn, "x": vec(a), "shape": list(a.shape), "sd": rat(sd), "mu": rat(mu), "bad": bad, "out": o}


def test(fn, x, alt):
    kw = {} if alt is None else {"alternative": alt}
    return {"op": "test", "fn": fn, "x": vec(x), "alt": "two-sided" if alt is None else alt, "out": enc(call(getattr(NRM, fn), arr(x), **kw))}


# ---- signal ---------------------------------------------------------------------------------
def welch(x, fs, ov=None, block=None, onesided=True, bins=()):
    """ov, block None: the defaults; bins: judge these (1-based) only"""
    a = [v for v in (ov, block) if v is not None]
    kw = {} if len(a) == 2 else ({"overlap": ov} if ov is not None else {"block": block} if block is not None else {})
    o = call(SPE.power_spectra, arr(x), fs, *a, onesided) if len(a) == 2 else call(SPE.power_spectra, arr(x), fs, onesided=onesided, **kw)
    return {"op": "welch", "x": vec(x), "fs": rat(fs), "ov": rat(50 if ov is None else ov), "block": 2048 if block is None else block,
            "onesided": bool(onesided), "bins": [int(b) for b in bins], "out": enc(o)}


def noisecov(n, pct, seed, runs):
    pos, bad = set(), False
    for k in range(runs):
        x = np.ones(n)
        np.random.seed(seed + k)
        o = call(SYN.synthetic_noise, x.copy(), pct)
        if isexc(o) or np.shape(o) != (n,):
            bad = True
            break
        pos |= {int(i) for i in np.nonzero(o != x)[0]}
    return {"op": "noisecov", "n": n, "pct": rat(pct), "seed": seed, "runs": runs, "pos": sorted(pos), "bad": bad}


def noise(x, pct, seed):
    a = arr(x)
    np.random.seed(seed)
    o = call(SYN.synthetic_noise, a, pct)
    np.random.seed(seed)
    o2 = call(SYN.synthetic_noise, arr(x), pct)
    return {"op": "noise", "x": vec(x), "pct": rat(pct), "seed": seed, "out": enc(o), "out2": enc(o2)}


def poll(x, f, k):
    return {"op": "poll", "x": vec(x), "f": vec(f), "kk": rat(k), "out": enc(call(POLL.pollution_rate, arr(x), arr(f), k))}


def pre(x, k1=None, k2=None):
    kw = {}
    if k1 is not None:
        kw["c1"] = k1
    if k2 is not None:
        kw["c2"] = k2
    o = call(PST.phasespace_thresholding_premodification, arr(x), **kw)
    if isinstance(o, tuple) and len(o) == 2:
        o = {"k": "tuple", "v": [enc(o[0]), enc(o[1], True)]}
    else:
        o = enc(o)
    return {"op": "pre", "x": vec(x), "k1": rat(1.5 if k1 is None else k1), "k2": rat(1.35 if k2 is None else k2), "out": o}


# ---- kernel building blocks ------------------------------------------------------------------
def helper(m, name, nargs):
    """a private building block, or None when the module no longer has it in this form"""
    import inspect
    f = getattr(m, name, None)
    if f is None:
        return None
    try:
        ps = [p for p in inspect.signature(f).parameters.values() if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    except (TypeError, ValueError):
        return f
    return f if len(ps) == nargs else None


def slope(x):
    return {"op": "slope", "x": vec(x), "out": enc(call(K2._derivative, arr(x)))}


def angle(m, x, y):
    return {"op": "angle", "mod": m.__name__, "x": vec(x), "y": vec(y), "out": enc(call(m._rotation, *arrs(x, y)))}


def cut(m, fp, vp, ip, grid, dens, k1, k2):
    o = call(m._cutoff, dens, arr(vp), k1, k2, arr(fp), ip, grid)
    return {"op": "cut", "mod": m.__name__, "fp": vec(fp), "vp": vec(vp), "ip": ip, "grid": grid, "dens": rat(dens),
            "k1": rat(k1), "k2": rat(k2), "out": enc(o)}


# ---- filters ------------------------------------------------------------------------------------
def cplx(a):
    return [[rat(float(np.real(v))), rat(float(np.imag(v)))] for v in np.ravel(a)]


def butter(N, w, bt, ag=False, sr=None, pts=(), bad=""):
    """w: list of critical frequencies in the unit of the call; the specification sees them normalised"""
    from fractions import Fraction
    arg = w if len(w) > 1 else w[0]
    outs = {}
    for form_ in ("zps", "nd", "sop"):
        outs[form_] = call(BUT.butterworth, N, arg, bt, ag, form_, sr)
    e = {"op": "butter", "N": N, "bt": bt, "ag": bool(ag), "sr": repr(sr), "bad": bad, "arg": repr(w),
         "w": [rat(Fraction(v) * 2 / Fraction(sr)) if sr is not None else rat(v) for v in w],
         "pts": [rat(p) for p in pts]}
    ex = [o for o in outs.values() if isexc(o)]
    if bad:
        # every form has to reject: report the first that does not
        ok = [o for o in outs.values() if not isexc(o)]
        e["out"] = enc(ok[0]) if ok else enc_exc(ex[0])
        if not ok:
            for x in ex:
                if bad not in [c.__name__ for c in type(x).__mro__]:
                    e["out"] = enc_exc(x)
        return e
    if ex:
        e["out"] = enc_exc(ex[0])
        return e
    try:
        z, p, k = outs["zps"]
        b, a = outs["nd"]
        s = np.asarray(outs["sop"], dtype=float)
        imag = max([0.0] + [float(np.max(np.abs(np.imag(c)))) for c in (b, a) if np.iscomplexobj(c)])
        fin = all(np.all(np.isfinite(c)) for c in (z, p, k, b, a, s)) and imag <= 1e-6 * float(np.max(np.abs(a)))
        e["out"] = {"k": "filter", "fin": bool(fin), "z": cplx(z), "p": cplx(p), "gain": rat(float(np.real(np.ravel(k)[0]))),
                    "b": vec(np.real(b)), "a": vec(np.real(a)), "sos": [[vec(r[:3]), vec(r[3:])] for r in s]}
        if not fin:
            e["out"].update(z=[], p=[], gain="0", b=[], a=[], sos=[])
    except Exception as ex_:
        e["out"] = {"k": "other", "t": "malformed: %r" % ex_}
    return e


# ---- bivariate kernel --------------------------------------------------------------------------------
def bivar(x, y, hx, hy, grid, exact=False):
    o = call(BIV.bivariate_kernel, np.array([x, y], dtype=float), hx, hy, grid)
    e = {"op": "bivar", "x": vec(x), "y": vec(y), "hx": rat(hx), "hy": rat(hy), "grid": grid, "exact": exact}
    if isexc(o):
        e["out"] = enc_exc(o)
    else:
        try:
            d, mx, my = (np.asarray(t, dtype=float) for t in o)
            fin = bool(np.all(np.isfinite(d)) and np.all(np.isfinite(mx)) and np.all(np.isfinite(my)))
            e["out"] = {"k": "grids", "shapes": [list(d.shape), list(mx.shape), list(my.shape)], "fin": fin,
                        "den": [vec(r) for r in d] if fin else [], "mx": [vec(r) for r in mx] if fin else [],
                        "my": [vec(r) for r in my] if fin else []}
        except Exception as ex:
            e["out"] = {"k": "other", "t": repr(ex)}
    return e


# ---- optimisation -----------------------------------------------------------------------------------
def _logged(f, log, bad):
    """f with every evaluation logged; a non-finite argument is recorded too"""
    def g(x, *a):
        y = f(float(x), *a)
        log.append((float(x), float(y)))
        if len(log) > 5000:
            raise CallTimeout()
        return y
    return g


def _ints(v):
    try:
        i = int(v)
        return i if i == v and abs(i) < 2**30 else -7
    except Exception:
        return -7


def root(f, lo, hi, xtol=None, rtol=None, maxiter=None, full=False, bad=False, positional=False):
    """one run of brentq as a session"""
    log = []
    kw = {}
    if xtol is not None:
        kw["xtol"] = xtol
    if rtol is not None:
        kw["rtol"] = rtol
    if maxiter is not None:
        kw["maxiter"] = maxiter
    if full:
        kw["full_output"] = True
    xt, rt, mi = 1.48e-8 if xtol is None else xtol, 1.48e-8 if rtol is None else rtol, 500 if maxiter is None else maxiter
    o = call(OPT.brentq, _logged(f, log, bad), lo, hi, **kw)
    ev = [{"op": "b_start", "lo": rat(lo), "hi": rat(hi), "xtol": rat(xt), "rtol": rat(rt), "maxiter": int(mi)}]
    ev += [{"op": "b_eval", "x": rat(x), "f": rat(y)} for x, y in log]
    r, out = None, enc(o)
    if isinstance(o, dict):
        try:
            r = o["root"]
            out = {"k": "dict", "root": rat(r), "calls": _ints(o["function_calls"]), "iters": _ints(o["iterations"]),
                   "conv": bool(o["converged"]), "flag": str(o["flag"])}
        except KeyError as ex:
            out = {"k": "other", "t": "dict without %s" % ex}
    elif not isexc(o):
        r = o
    try:
        r = float(r)
    except (TypeError, ValueError):
        r = None
    if r is not None and np.isfinite(r) and not bad:
        t = xt + rt * abs(r)
        for p in (max(lo, r - t), r, min(hi, r + t)):
            ev.append({"op": "b_probe", "x": rat(p), "f": rat(float(f(float(p))))})
    ev.append({"op": "b_ret", "bad": bad, "full": bool(full), "out": out})
    return ev


def minimise(f, lo, hi, tol=None, maxev=None, par=(), full=False, bad=False, xm=None, easy=False):
    log = []
    kw = {}
    if tol is not None:
        kw["tolerance"] = tol
    if maxev is not None:
        kw["max_evaluations"] = maxev
    if par:
        kw["parameters"] = par
    if full:
        kw["detailed_output"] = True
    t = 1e-5 if tol is None else tol
    o = call(OPT.fminbound, _logged(f, log, bad), lo, hi, **kw)
    ev = [{"op": "m_start", "lo": rat(lo), "hi": rat(hi), "maxev": 500 if maxev is None else int(maxev)}]
    ev += [{"op": "m_eval", "x": rat(x), "f": rat(y)} for x, y in log]
    acc = 2.001 * (t / 3 + 1.5e-8 * max(abs(lo), abs(hi))) + 1e-12 if not bad else 1
    ev.append({"op": "m_ret", "bad": bad, "full": bool(full), "unimodal": xm is not None, "xm": rat(0 if xm is None else xm),
               "acc": rat(acc), "easy": bool(easy), "out": enc(o)})
    return ev


# ---- filter algebra, kernel root solver, ellipse helpers ---------------------------------------------
def zpk_out(o):
    if isexc(o):
        return enc_exc(o)
    try:
        z, p, k = o
        k = np.ravel(k)
        fin = bool(np.all(np.isfinite(z)) and np.all(np.isfinite(p)) and np.all(np.isfinite(k)) and k.size == 1
                   and abs(np.imag(k[0])) <= 1e-9 * abs(k[0]) and np.ndim(z) == 1 and np.ndim(p) == 1)
        return {"k": "zpk", "fin": fin, "z": cplx(z) if fin else [], "p": cplx(p) if fin else [], "gain": rat(float(np.real(k[0]))) if fin else "0"}
    except Exception as ex:
        return {"k": "other", "t": "malformed: %r" % ex}


XF = {"lp2lp": "low_to_low", "lp2hp": "low_to_high", "lp2bp": "low_to_band", "lp2bs": "low_to_stop", "bilin": "bilinear"}


def pts_of(pts):
    return [[rat(a), rat(b)] for a, b in pts]


def xform(fn, z, p, k, a=None, b=None, pts=(), bad="", kwargs=False):
    f = getattr(BUT, XF[fn])
    names = {"lp2lp": ("dc",), "lp2hp": ("dc",), "bilin": ("sr",)}.get(fn, ("pc", "pw"))
    par = [v for v in (a, b)[:len(names)] if v is not None]
    z0, p0 = (np.asarray(v) if not isinstance(v, (int, float, complex)) else v for v in (z, p))
    o = call(f, z0, p0, k, **dict(zip(names, par))) if kwargs else call(f, z0, p0, k, *par)
    return {"op": "xform", "fn": fn, "z": cplx(z), "p": cplx(p), "k": rat(k), "a": rat(1 if a is None else a), "b": rat(1 if b is None else b),
            "pts": pts_of(pts), "bad": bad, "out": zpk_out(o)}


def ptf(z, p, k):
    o = call(BUT.xyz_to_ptf, np.asarray(z), np.asarray(p), k)
    e = {"op": "ptf", "z": cplx(z), "p": cplx(p), "k": rat(k)}
    e["out"] = ptf_out(o)
    return e


def ptf_out(o, row=None):
    if isexc(o):
        return enc_exc(o)
    try:
        b, a = o
        if row is not None:
            b = b[row]
        if np.iscomplexobj(b) or np.iscomplexobj(a) or np.ndim(b) != 1 or np.ndim(a) != 1:
            return {"k": "other", "t": "complex coefficients"}
        return {"k": "ptf", "b": vec(b), "a": vec(a)}
    except Exception as ex:
        return {"k": "other", "t": "malformed: %r" % ex}


def sop(z, p, k, ag=False, pg=None, pts=(), bad=""):
    o = call(BUT.xyz_to_sop, np.asarray(z), np.asarray(p), k, pg, ag=ag)
    e = {"op": "sop", "z": cplx(z), "p": cplx(p), "k": rat(np.real(k)), "ag": bool(ag), "pg": pg or ("ml" if ag else "nr"), "pts": pts_of(pts), "bad": bad}
    if isexc(o):
        e["out"] = enc_exc(o)
    elif isinstance(o, np.ndarray) and o.ndim == 2 and o.shape[1] == 6:
        fin = bool(np.all(np.isfinite(o)) and not np.iscomplexobj(o))
        e["out"] = {"k": "sos", "fin": fin, "sos": [[vec(r[:3]), vec(r[3:])] for r in o] if fin else []}
    else:
        e["out"] = {"k": "other", "t": type(o).__name__}
    return e


def proto(N, bad=""):
    return {"op": "proto", "N": int(N), "arg": repr(N), "bad": bad, "out": zpk_out(call(BUT.buttap, N))}


def kroot(xs, ys, n, uni, xm):
    f = lambda t: float(np.interp(t, xs, ys))
    return {"op": "kroot", "xs": vec(xs), "ys": vec(ys), "n": int(n), "uni": bool(uni), "xm": rat(xm), "out": enc(call(BIV.root, f, n))}


def ab(s1, s2, theta, lam):
    return {"op": "ab", "s1": rat(s1), "s2": rat(s2), "theta": rat(theta), "lam": rat(lam), "out": enc(call(POI.calculate_ab, s1, s2, theta, lam))}


def rho(x, y, theta, a, b):
    return {"op": "rho", "x": vec(x), "y": vec(y), "theta": rat(theta), "a": rat(a), "b": rat(b),
            "out": enc(call(POI.calculate_rho, *arrs(x, y), theta, a, b))}


def deriv(x):
    return {"op": "deriv", "x": vec(x), "out": enc(call(PST.calculate_derivatives, arr(x)))}


def pspars(c, d, d2):
    return {"op": "pspars", "c": vec(c), "d": vec(d), "d2": vec(d2), "out": enc(call(PST.calculate_parameters, arr(c), arr(d), arr(d2)))}


def vcpars(u, v, w):
    return {"op": "vcpars", "u": vec(u), "v": vec(v), "w": vec(w), "out": enc(call(VC.calculate_parameters, *arrs(u, v, w)))}
