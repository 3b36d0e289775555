"""Exact encoding of calls and results for the trace specification."""
import math
import signal
import sys
import time
from fractions import Fraction

import numpy as np


class CallTimeout(BaseException):
    pass


class TooSlow(BaseException):
    """several calls have hung: what was recorded is judged, the rest is not driven"""


HUNG = [0]


CALL_LIMIT = 20.0
STARTED = [0.0, 0.0]


def _alarm(*_):
    # a call that waits for the processor on a busy machine has not hung
    if time.thread_time() - STARTED[0] > .7 * CALL_LIMIT or time.monotonic() - STARTED[1] > 8 * CALL_LIMIT:
        raise CallTimeout()


def rat(v):
    """exact rational string of a real number; nan/inf by name"""
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, Fraction):
        f = v
    elif isinstance(v, (int, np.integer)):
        f = Fraction(int(v))
    else:
        try:
            v = float(v)
        except (TypeError, ValueError):
            return "str"
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        f = Fraction(v)
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def vec(a):
    return [rat(v) for v in np.ravel(np.asarray(a)).tolist()]


def enc_exc(ex):
    if isinstance(ex, CallTimeout):
        return {"k": "exc", "t": "Timeout", "isa": ["Timeout"], "msg": "no result within %g s" % CALL_LIMIT}
    return {"k": "exc", "t": type(ex).__name__, "isa": [c.__name__ for c in type(ex).__mro__],
            "msg": str(ex)[:200]}


def kind_of(a):
    k = a.dtype.kind
    return "i" if k in "iu" else ("f" if k == "f" else k)


def enc_arr(a, ints=False):
    """array result; ints: integer arrays keep plain integers (index sets)"""
    a = np.asarray(a)
    k = kind_of(a)
    d = {"k": "arr", "nd": int(a.ndim), "shape": list(a.shape), "kind": k}
    if ints and k == "i":
        d["v"] = [int(v) if -2**30 < v < 2**30 else -1 for v in a.ravel().tolist()]
    else:
        d["v"] = [rat(v) if not isinstance(v, complex) else "nan" for v in a.ravel().tolist()]
    return d


def enc(o, ints=False):
    if isinstance(o, BaseException):
        return enc_exc(o)
    if o is None:
        return {"k": "none"}
    if isinstance(o, (str, np.str_)):
        return {"k": "str", "v": str(o)}
    if o is np.ma.masked:
        return {"k": "num", "v": "nan"}
    if isinstance(o, (bool, int, float, np.number, np.bool_)):
        return {"k": "num", "v": rat(o)}
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            if o.dtype.kind in "biuf":
                return {"k": "num", "v": rat(o.item())}
            return {"k": "other", "t": str(o.dtype)}
        return enc_arr(o, ints)
    if isinstance(o, tuple):
        return {"k": "tuple", "v": [enc(t, ints) for t in o]}
    if isinstance(o, list):
        try:
            return dict(enc_arr(np.asarray(o), ints), list=True)
        except Exception:
            return {"k": "other", "t": "list"}
    return {"k": "other", "t": type(o).__name__}


CALLS = [0]


def spelled(v):
    """the same number as a caller may also hand it over: a numpy scalar, or a whole number that is not a float"""
    if type(v) is int and abs(v) < 2 ** 31:
        return (np.int64, np.int32, np.intp)[CALLS[0] // 4 % 3](v)
    if type(v) is float and np.isfinite(v):
        return int(v) if v == int(v) and abs(v) < 2 ** 31 and CALLS[0] // 4 % 2 else np.float64(v)
    return v


def call(fn, *a, **kw):
    """result, or the exception (also a time-out) as a value"""
    CALLS[0] += 1
    if CALLS[0] % 4 == 0:
        a, kw = [spelled(v) for v in a], {k: spelled(v) for k, v in kw.items()}
    signal.signal(signal.SIGALRM, _alarm)
    STARTED[:] = [time.thread_time(), time.monotonic()]
    signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT, CALL_LIMIT / 8)
    try:
        return fn(*a, **kw)
    except CallTimeout as ex:
        HUNG[0] += 1
        if HUNG[0] > 3:
            raise TooSlow()
        return ex
    except Exception as ex:
        return ex
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def missing(fn):
    return fn is None
