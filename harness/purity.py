"""C02: sessions over a heap of shared arrays.  Contents are abstracted to tokens."""
import inspect

import numpy as np

import gens
import ops as O

R, ACC, PST, VC, SPH, K3, K2, POLL = O.R, O.ACC, O.PST, O.VC, O.SPH, O.K3, O.K2, O.POLL
DES, SPR, MOM, SER, NRM, OPT, FLU, SPE, SYN, BUT, BIV = O.DES, O.SPR, O.MOM, O.SER, O.NRM, O.OPT, O.FLU, O.SPE, O.SYN, O.BUT, O.BIV
POI = O.mod("filtration.detection.poincare")


def canon(o):
    """hashable exact description of a value"""
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "O":
            return ("obj", o.shape, tuple(repr(v) for v in o.ravel().tolist()))
        return ("arr", o.dtype.str, o.shape, np.ascontiguousarray(o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(canon(v) for v in o)
    if isinstance(o, dict):
        return ("dict",) + tuple(sorted((str(k), canon(v)) for k, v in o.items()))
    if isinstance(o, BaseException):
        return ("exc", type(o).__name__)
    if isinstance(o, (np.generic, float, int)):
        return ("num", np.asarray(o).tobytes() if isinstance(o, np.generic) else repr(o))
    return ("other", repr(o))


def close(a, b):
    """the same result up to floating-point reassociation"""
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind in "fc":
            s = np.max(np.abs(x[np.isfinite(x)]), initial=0)
            return bool(np.allclose(x, y, rtol=1e-9, atol=1e-11 * s, equal_nan=True))
        return bool(np.array_equal(x, y))
    except Exception:
        return canon(a) == canon(b)


class Tokens:
    def __init__(self):
        self.t = {}
        self.res = []           # (token, snapshot of the result)

    def content(self, o):
        return self.t.setdefault(canon(o), len(self.t) + 1)

    def result(self, key, o):
        for k, tok, old in self.res:
            if k == key and close(old, o):
                return tok
        tok = 100000 + len(self.res)
        self.res.append((key, tok, snapshot(o)))
        return tok


def snapshot(o):
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, tuple):
        return tuple(snapshot(v) for v in o)
    if isinstance(o, list):
        return [snapshot(v) for v in o]
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    return o


def arrays(o):
    """the writable arrays a result consists of"""
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (tuple, list)):
        return [a for v in o for a in arrays(v)]
    if isinstance(o, dict):
        return [a for v in o.values() for a in arrays(v)]
    return []


# name -> (argument kinds, parameter choices, call)
# kinds: f float vector, g second float vector, h third, i index set, p positive vector,
#        M 2-D array, D two-row data, n integer vector, L list, c complex vector
def seeded(fn):
    def g(x, p):
        np.random.seed(p[1])
        return fn(x, p[0])
    return g


CAT = {
    "last": ("fi", [()], lambda x, i: R.last_valid_data(x, i)),
    "mean_value": ("fi", [()], lambda x, i: R.mean_value(x, i)),
    "median_value": ("fi", [()], lambda x, i: R.median_value(x, i)),
    "linear": ("fi", [(4,), (2,), (8,), (0,)], lambda x, i, d: R.linear_interpolation(x, i, d)),
    "cubic": ("fi", [(4,), (9,), (0,)], lambda x, i, d: R.cubic_12points_polynomial(x, i, d)),
    "poly": ("fi", [(100, 2, 4), (7, 1, 6)], lambda x, i, w, d, k: R.polynomial_replacement(x, i, w, d, k)),
    "sma_rep": ("fi", [(20,), (3,), (1,)], lambda x, i, w: R.simple_moving_average(x, i, w)),
    "ema_rep": ("fi", [(0.2,), (1.0,)], lambda x, i, a: R.exponential_moving_average(x, i, a)),
    "wma_rep": ("fi", [(1,), (2,)], lambda x, i, p: R.weighted_moving_average(x, i, p)),
    "ssa_rep": ("fi", [(20.0, 4.0)], lambda x, i, a, b: R.ssa(x, i, a, b)),
    "kal_rep": ("fi", [(0.0, 1.0, 0.1, 0.5), (0.0, 1.0, 0.1, 0.0), (2.0, 0.0, 0.0, 1.0)], lambda x, i, *p: R.kalman_filter(x, i, *p)),
    "acc": ("f", [(100, 1), (100, 2), (3.5, 1)], lambda x, q, t: ACC.acceleration_thresholding(x, q, t)),
    "acc0": ("f", [(100, 1, 1, 0.01, 0.0), (50, 2, 2, 0.01, 0.5)], lambda x, *p: ACC.acceleration_thresholding(x, *p)),
    "pst": ("f", [()], lambda x: PST.phasespace_thresholding(x)),
    "pst_der": ("f", [()], lambda x: PST.calculate_derivatives(x)),
    "pre": ("f", [(), (1.0, 0.3), (0.0, 0.0), (1e9, 1e9)], lambda x, *p: PST.phasespace_thresholding_premodification(x, *p)),
    "sph": ("f", [(0, 0.0), (1, 2.0), (2, 0.5)], lambda x, i, m: SPH.spherical_phasespace_thresholding(x, i, m)),
    "vc": ("fgh", [()], lambda x, y, z: VC.velocity_correlation(x, y, z)),
    "kde3": ("f", [(8,)], lambda x, g: K3.three_dimensional_kernel(x, g)),
    "kde2": ("fg", [(8,)], lambda x, y, g: K3.kernel(x, y, g)),
    "poll": ("fg", [(0.5,), (1,), (0,)], lambda x, y, k: POLL.pollution_rate(x, y, k)),
    "ab_rho": ("fg", [(0.3, 1.5, 2.0)], lambda x, y, *p: POI.calculate_rho(x, y, *p)),
    "min": ("f", [()], lambda x: DES.min(x)), "max": ("f", [()], lambda x: DES.max(x)),
    "mean": ("f", [()], lambda x: DES.mean(x)), "median": ("f", [()], lambda x: DES.median(x)),
    "mode": ("n", [()], lambda x: DES.mode(x)), "imedian": ("n", [()], lambda x: DES.median(x)),
    "imean": ("n", [()], lambda x: DES.mean(x)), "imin": ("n", [()], lambda x: DES.min(x)), "imax": ("n", [()], lambda x: DES.max(x)),
    "min_l": ("L", [()], lambda x: DES.min(x)), "max_l": ("L", [()], lambda x: DES.max(x)),
    "mean_l": ("L", [()], lambda x: DES.mean(x)), "median_l": ("L", [()], lambda x: DES.median(x)),
    "mode_l": ("L", [()], lambda x: DES.mode(x)),
    "median_m": ("M", [()], lambda x: DES.median(x)), "mean_m": ("M", [()], lambda x: DES.mean(x)),
    "min_m": ("M", [()], lambda x: DES.min(x)), "max_m": ("M", [()], lambda x: DES.max(x)),
    "var": ("f", [()], lambda x: SPR.variance(x)), "std": ("f", [()], lambda x: SPR.std(x)),
    "var_m": ("M", [()], lambda x: SPR.variance(x)), "std_m": ("M", [()], lambda x: SPR.std(x)),
    "skew": ("f", [()], lambda x: MOM.skewness(x)), "kurt": ("f", [()], lambda x: MOM.kurtosis(x)),
    "kurt_m": ("M", [()], lambda x: MOM.kurtosis(x)),
    "sma": ("f", [(4,), (20,), (1,), (22,)], lambda x, w: SER.moving_average(x, w)),
    "isma": ("n", [(3,)], lambda x, w: SER.moving_average(x, w)),
    "ema": ("f", [(0.2,), (0.9,), (1.0,), (1,)], lambda x, a: SER.exponential_moving_average(x, a)),
    "wma": ("f", [(4,), (20,), (1,), (22,)], lambda x, a: SER.weighted_moving_average(x, a)),
    "ssa": ("f", [(20.0, 4.0), (12.0, 4.0), (2.0, 1.0)], lambda x, a, b: SER.ssa(x, a, b)),
    "kal": ("f", [(0.0, 1.0, 0.1, 0.5), (0.0, 1.0, 0.1, 0.0), (2.0, 0.0, 0.0, 1.0), (0.0, 1.0, 0.0, 0.5)], lambda x, *p: SER.kalman_filter(x, *p)),
    "tke": ("fgh", [()], lambda x, y, z: FLU.kinetic_turbulent_energy(x, y, z)),
    "rey": ("fgh", [()], lambda x, y, z: FLU.reynolds_stresses(x, y, z)),
    "psd": ("f", [(10.0, 50, 8, True), (25.0, 25, 12, False), (1.0, 0, 22, True), (1, 75, 4, False)], lambda x, *p: SPE.power_spectra(x, *p)),
    "noise": ("f", [(30, 1), (50, 9), (100, 4), (0, 3), (1, 3)], lambda x, p, s: seeded(SYN.synthetic_noise)(x, (p, s))),
    "cdf": ("f", [()], lambda x: NRM.cdf(x)), "pdf": ("f", [(), (2.0, 1.0), (1.0, 0.0), (1, 0)], lambda x, *p: NRM.pdf(x, *p)),
    "log_pdf": ("f", [(), (2.0, 1.0), (1.0, 0.0), (1, 0)], lambda x, *p: NRM.log_pdf(x, *p)), "log_cdf": ("f", [()], lambda x: NRM.log_cdf(x)),
    "sf": ("f", [()], lambda x: NRM.sf(x)), "log_sf": ("f", [()], lambda x: NRM.log_sf(x)),
    "cdf_m": ("M", [()], lambda x: NRM.cdf(x)), "sf_m": ("M", [()], lambda x: NRM.sf(x)), "cdf_n": ("n", [()], lambda x: NRM.cdf(x)),
    "skewtest": ("f", [(), ("less",)], lambda x, *p: NRM.skewtest(x, *p)),
    "kurtotest": ("f", [(), ("greater",)], lambda x, *p: NRM.kurtotest(x, *p)),
    "bik": ("D", [(0.1, 0.2, 8), (0.1, 0.2, 7)], lambda d, *p: BIV.bivariate_kernel(d, *p)),
    "slope": ("f", [()], lambda x: K2._derivative(x)),
    "angle": ("fg", [()], lambda x, y: BIV._rotation(x, y)),
    "cut2": ("fp", [(1.0, 0.4, 0.4, 4)], lambda x, y, d, a, b, i: K2._cutoff(d, x, a, b, y, i, x.size)),
    "cut3": ("fp", [(1.0, 0.4, 0.4, 4)], lambda x, y, d, a, b, i: K3._cutoff(d, x, a, b, y, i, x.size)),
    "butter": ("w", [(3, "bp", "nd"), (2, "bs", "zps"), (3, "bp", "sop")],
               lambda w, n, t, o: BUT.butterworth(n, w, t, False, o)),
    "lp2lp": ("cd", [(2.0, 1.5), (1.0, 1.0), (2.0, 1)], lambda z, p, k, a: BUT.low_to_low(z, p, k, a)),
    "lp2hp": ("cd", [(2.0, 1.5), (1.0, 1.0)], lambda z, p, k, a: BUT.low_to_high(z, p, k, a)),
    "lp2bp": ("cd", [(2.0, 1.5, 0.5)], lambda z, p, k, a, b: BUT.low_to_band(z, p, k, a, b)),
    "lp2bs": ("cd", [(2.0, 1.5, 0.5)], lambda z, p, k, a, b: BUT.low_to_stop(z, p, k, a, b)),
    "bilin": ("cd", [(2.0, 1.5), (1.0, 1.0)], lambda z, p, k, a: BUT.bilinear(z, p, k, a)),
    "zpk2tf": ("cd", [(2.0,)], lambda z, p, k: BUT.xyz_to_ptf(z, p, k)),
    "zpk2sos": ("cd", [(2.0,)], lambda z, p, k: BUT.xyz_to_sop(z, p, k)),
    "brent": ("k", [(False,), (True,)], lambda c, full: OPT.brentq(lambda x: c[0] * x ** 3 + c[1], -3.0, 4.0, full_output=full)),
    "fmin": ("k", [(False,), (True,)], lambda c, full: OPT.fminbound(lambda x, q: q[0] * (x - q[1]) ** 2, -3.0, 4.0, (c,), detailed_output=full)),
    "evolve": ("pM", [(0.01, 50), (0.002, 700)], lambda p, M, t, n: BIV._evolve(t, n, np.array(p[:4], dtype=float), np.array(M[:, :4], dtype=float) ** 2)),
}

for _n, _m, _h, _k in (("evolve", BIV, "_evolve", 4), ("slope", K2, "_derivative", 1), ("angle", BIV, "_rotation", 2), ("cut2", K2, "_cutoff", 7), ("cut3", K3, "_cutoff", 7)):
    if O.helper(_m, _h, _k) is None:
        CAT.pop(_n, None)


def arg_mut(rng, a):
    """write into a caller array (not changing its shape)"""
    if isinstance(a, list):
        if a:
            a[int(rng.integers(len(a)))] = int(rng.integers(-9, 9))
        return
    flat = a.reshape(-1) if a.flags.c_contiguous else a
    if a.size == 0:
        return
    j = int(rng.integers(a.size))
    ix = np.unravel_index(j, a.shape)
    del flat
    if a.dtype.kind in "fc":
        a[ix] = np.round(float(rng.normal()) * 3, 3)
    elif a.dtype.kind in "iu":
        a[ix] = int(rng.integers(0, 5))


def settings():
    return repr(sorted(np.geterr().items())), repr(np.geterrcall()), repr(np.getbufsize()), repr(sorted(np.get_printoptions().items(), key=str))


def marked(v):
    """an array with what else belongs to it"""
    return (v, "w" if v.flags.writeable else "r", v.strides) if isinstance(v, np.ndarray) else v


def process(T):
    """what the process holds besides the caller's arrays"""
    st = np.random.get_state()
    return [["@settings", T.content(("settings",) + settings())],
            ["@random", T.content(("random", st[0], hash(st[1].tobytes()), st[2], st[3], st[4]))]]


class Heap:
    """one caller: its arrays, the results it holds, and the recorded history"""
    KINDS = {"f": ["u", "v", "w", "s", "t"], "g": ["u", "v", "w", "s", "t"], "h": ["u", "v", "w", "s", "t"], "i": ["i", "j", "e"], "p": ["p"],
             "M": ["M", "MF"], "D": ["D"], "n": ["n"], "L": ["L", "K"], "c": ["z"], "d": ["q"], "w": ["fr"], "k": ["c"]}

    def __init__(self, rng):
        self.rng = rng
        np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in ("divide", "over", "under", "invalid")})
        n = int(rng.integers(22, 41)) if rng.random() < .75 else gens.size(rng, 22, 400, 1300)

        def vec():
            k = int(rng.integers(0, 5))
            x = np.round(np.cumsum(rng.normal(size=n)) if k == 0 else rng.normal(size=n) * 3, int(rng.choice([2, 5])))
            if k in (2, 3):
                x[int(rng.integers(n))] += float(rng.choice([-40, 40]))
            if k == 4:
                x = np.abs(x)[::-1] + 2
            if rng.random() < .12:
                # records on which shortcuts are taken
                x = [np.full(n, 2.5), np.zeros(n), np.arange(n) * .5, np.resize([1.0, -1.0], n), np.sort(x), np.ones(n)][int(rng.integers(6))]
            return np.array(x)

        # some vectors are views of a larger caller array: the whole base is watched
        base = np.round(rng.normal(size=(3, 2 * n)) * 4, 3)
        conj = rng.normal(size=2) + 1j * rng.uniform(.2, 2, size=2)
        self.H = {
            "u": vec(), "v": vec(), "w": vec(), "base": base, "s": base[1, 3:3 + n], "t": base[2, ::2],
            "i": np.unique(rng.integers(12, n - 2, size=int(rng.integers(1, 4)))), "j": np.unique(rng.integers(0, n, size=4)),
            "e": np.array([], dtype=int),
            "p": np.abs(vec()) / 50, "M": np.round(rng.normal(size=(4, 5)), 2), "MF": np.asfortranarray(np.round(rng.normal(size=(4, 5)), 2)),
            "D": np.round(rng.normal(size=(2, n)), 3), "n": rng.integers(-6, 7, size=n), "L": [3, "4.5", 2.0, "7", 3, "x"],
            "K": [float(round(v, 2)) for v in rng.normal(size=5)],
            "z": np.array([0.0, -1.0]), "q": np.concatenate([-np.abs(conj.real) + 1j * conj.imag, -np.abs(conj.real) - 1j * conj.imag]),
            "fr": np.array([0.2, 0.5]), "c": np.array([1.5, -2.0])}
        self.T = Tokens()
        self.held = []                              # (name, array) results
        self.done = []
        self.step = 0
        self.ev = [{"op": "h_new", "obs": self.obs()}]

    def obs(self):
        return process(self.T) + [[k, self.T.content(marked(v))] for k, v in self.H.items()] + [[k, self.T.content(marked(a))] for k, a in self.held]

    def write_arg(self, k):
        arg_mut(self.rng, self.H[k])
        # views of the written array change with it
        self.ev.append({"op": "h_write", "names": ["base", "s", "t"] if k in ("base", "s", "t") else [k], "obs": self.obs()})

    def write_res(self, j):
        k, a = self.held[j]
        if a.flags.writeable and a.size:
            try:
                a[...] = -777
            except Exception:
                pass
            self.ev.append({"op": "h_write", "names": [x for x, _ in self.held if x.split(".")[0] == k.split(".")[0]], "obs": self.obs()})

    def pick(self, fn, which=None):
        ks, pars, _ = CAT[fn]
        if which is None:
            return (fn, [str(self.rng.choice(self.KINDS[c])) for c in ks], pars[int(self.rng.integers(len(pars)))])
        return fn, [self.KINDS[c][(which + i) % len(self.KINDS[c])] for i, c in enumerate(ks)], pars[0]

    def call(self, fn, args, par):
        rng, T, H, held = self.rng, self.T, self.H, self.held
        if "j" in args and fn in ("wma_rep", "ssa_rep", "sma_rep", "kal_rep", "ema_rep"):
            args = ["i" if a == "j" else a for a in args]
        o = O.call(CAT[fn][2], *[H[a] for a in args], *par)
        key = (fn, tuple(T.content(H[a]) for a in args), par)
        tok = T.result(key, o)
        k = 0
        known = {id(a) for _, a in held} | {id(a) for a in H.values()}
        for a in arrays(o):
            if id(a) not in known and len(held) < 14:
                held.append(("r%d.%d" % (self.step, k), a))
                k += 1
        self.step += 1
        self.ev.append({"op": "h_call", "fn": fn, "args": args, "par": repr(par), "res": tok, "obs": self.obs()})
        # the very same object handed back: a write into the result is a write into the argument
        for a in [a for a in arrays(o) if any(a is x for x in H.values())]:
            if a.flags.writeable and a.size and rng.random() < .5:
                a[...] = a + 1
                self.ev.append({"op": "h_write", "names": [], "obs": self.obs()})
        self.done.append((fn, args, par))


def session(rng, length, names):
    h = Heap(rng)
    for _ in range(length):
        r = rng.random()
        if r < .12:
            h.write_arg(str(rng.choice([k for k in h.H if k not in ("e", "z", "q", "fr", "c", "i", "j", "p")])))
        elif r < .35 and h.held:
            h.write_res(int(rng.integers(len(h.held))))
        elif r < .6 and h.done:
            h.call(*h.done[int(rng.integers(len(h.done)))])
        else:
            h.call(*h.pick(str(rng.choice(names))))
    return h.ev


def scripted(rng, acts, names):
    """a history enumerated by MC_Heap, with real functions for its abstract ones"""
    h = Heap(rng)
    fns = [str(f) for f in rng.choice(names, size=3, replace=False)]
    last = {}
    for a in acts:
        if a["a"] == "call":
            fn, args, par = h.pick(fns[a["f"] % 3], int(a["x"]))
            last[int(a["x"])] = args[0]
            h.call(fn, args, par)
        elif a["a"] == "wa":
            k = last.get(int(a["x"]), "u")
            h.write_arg(k if k not in ("e", "z", "q", "fr", "c", "i", "j", "p") else "v")
        elif h.held:
            h.write_res((int(a["x"]) - 1) % len(h.held))
    return h.ev


# ---------------------------------------------------------------- C36: the same values in another storage
LAYOUTS = ["plain", "strided", "reversed", "readonly", "int64", "int32", "list", "column", "int16", "swapped", "unaligned",
           "uint8", "uint16", "int8", "uint32", "uint64"]
NARROW = {"int8", "uint8", "int16", "uint16"}


def store(a, lay, index=False):
    """the values of a in another storage, or None when the layout does not apply"""
    if isinstance(a, list):
        return list(a) if lay == "plain" else None
    if lay == "plain":
        return np.array(a)
    if lay == "strided":
        big = np.full(tuple(3 * s + 4 for s in a.shape), 7, dtype=a.dtype)
        sl = tuple(slice(2, 2 + 3 * s, 3) for s in a.shape)
        big[sl] = a
        return big[sl]
    if lay == "reversed":
        r = tuple(slice(None, None, -1) for _ in a.shape)
        return a[r].copy()[r]
    if lay == "readonly":
        c = np.array(a)
        c.flags.writeable = False
        return c
    if lay == "swapped":
        return a.astype(a.dtype.newbyteorder(">")) if a.dtype.kind in "fic" else None
    if lay == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        b = raw[1:].view(a.dtype).reshape(a.shape) if a.size else np.array(a)
        b[...] = a
        return b
    if lay == "column":
        return np.asfortranarray(a) if a.ndim > 1 else np.repeat(a[:, None], 3, axis=1)[:, 1]
    if "int" in lay and a.dtype.kind in "if" and a.size and np.all(a == np.round(a)) and np.max(np.abs(a)) <= 70000:
        if index and lay == "uint64":           # numpy turns uint64 - 1 into a float
            return None
        i = np.iinfo(lay)
        return a.astype(lay) if i.min <= np.min(a) and np.max(a) <= i.max else None
    if lay == "list" and index and a.dtype.kind == "i" and a.ndim == 1:
        return a.tolist()
    return None


def same(a, b, r=1e-8):
    """equal values, whatever the number type"""
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, r) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return close(a, b)
    try:
        x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    except (TypeError, ValueError):
        return close(a, b)
    if x.shape != y.shape:
        return False
    s = np.max(np.abs(x[np.isfinite(x)]), initial=0)
    return bool(np.allclose(x, y, rtol=r, atol=r * s / 100, equal_nan=True))


def fragile(fn, args, par, ref, r, d):
    """does the result change under a perturbation far below the accuracy of the data?"""
    rng = np.random.default_rng(5)
    for _ in range(8):
        b = [np.array(a) * (1 + d * rng.normal(size=np.shape(a))) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else snapshot(a)
             for a in args]
        if not same(ref, O.call(CAT[fn][2], *b, *par), r):
            return True
    return False


class Layout:
    def __init__(self, rng, integer):
        self.rng = rng
        self.h = Heap(rng)
        if integer:
            counts = int(rng.choice([0, 127, 255, 30000, 60000]))
            for k in ("u", "v", "w", "s", "t", "D", "M", "MF"):
                x = np.round(np.array(self.h.H[k]) * 4)
                if counts:                      # instrument counts: the whole range of a narrow type
                    x = x - np.min(x) if counts in (255, 60000) else x
                    x = np.round(x * (counts / max(1, np.max(np.abs(x)))))
                self.h.H[k] = x
            self.h.H["p"] = np.round(self.h.H["p"] * 200) + 1.0
        self.first = {}
        self.ev = [{"op": "y_new"}]

    def call(self, fn, args, par, lays):
        if "j" in args and fn in ("wma_rep", "ssa_rep", "sma_rep", "kal_rep", "ema_rep"):
            args = ["i" if a == "j" else a for a in args]
        vals, used = [], []
        for a, l in zip(args, lays):
            v = store(self.h.H[a], l, a in ("i", "j", "e"))
            if v is None:
                v, l = store(self.h.H[a], "plain"), "plain"
            vals.append(v)
            used.append(l)
        o = O.call(CAT[fn][2], *vals, *par)
        key = (fn, tuple(args), repr(par))
        seen = self.first.setdefault(key, [])
        # scipy's spectra of 8- and 16-bit integers are in single precision
        r, d = (1e-4, 1e-6) if fn == "psd" and NARROW & set(used) else (1e-8, 1e-12)
        for tok, old in seen:
            if same(old, o, r):
                break
        else:
            if seen and fragile(fn, [store(self.h.H[a], "plain") for a in args], par, seen[0][1], r, d):
                tok = seen[0][0]
            else:
                tok = len(seen) + 1
                seen.append((tok, snapshot(o)))
        self.ev.append({"op": "y_call", "fn": fn, "args": [self.h.T.content(self.h.H[a]) for a in args], "par": repr(par),
                        "lay": used, "res": tok, "exc": type(o).__name__ if isinstance(o, BaseException) else ""})


def layouts(rng, fns, acts=None, length=6):
    y = Layout(rng, bool(rng.random() < .6))
    plans = {}
    for i in range(length if acts is None else len(acts)):
        if acts is None:
            f, x, l = int(rng.integers(len(fns))), 0, None
        else:
            f, x, l = acts[i]["f"] % len(fns), int(acts[i]["x"]), LAYOUTS[acts[i]["l"] % len(LAYOUTS)]
        if (f, x) not in plans:
            plans[f, x] = y.h.pick(fns[f])
            y.call(*plans[f, x], ["plain"] * 9)
        y.call(*plans[f, x], [l or str(v) for v in rng.choice(LAYOUTS, size=9)])
    return y.ev


def every_layout(rng, fn, integer=True):
    """one call in every storage"""
    y = Layout(rng, integer)
    fn, args, par = y.h.pick(fn)
    if rng.random() < .6:
        par = CAT[fn][1][0]
    for l in LAYOUTS:
        y.call(fn, args, par, [l] * 9)
    return y.ev
