"""Planted bugs, fifth round (seed.py): calls at the same time (C37) and calls cut short (C38)."""
D, RP, ST, KB = "proadv/filtration/detection/", "proadv/filtration/replacement/replacements.py", "proadv/statistics/", "proadv/kernel/bivariate.py"
BUGS = []
MID = '''
import threading
class Mid:
    """runs B in another thread before the k-th line of A that belongs to the library"""
    def __init__(self, k, b, here=False): self.k, self.b, self.n, self.here = k, b, 0, here
    def trace(self, fr, ev, arg):
        return self.loc if "proadv" in fr.f_code.co_filename else None
    def loc(self, fr, ev, arg):
        if ev == "line":
            self.n += 1
            if self.n == self.k:
                if self.here: self.b()
                else:
                    t = threading.Thread(target=self.b); t.start(); t.join()
        return self.loc
    def run(self, a):
        sys.settrace(self.trace)
        try: return a()
        finally: sys.settrace(None)
class Stop(BaseException): pass
def stop(): raise Stop()
def cut(k, a):
    m = Mid(k, stop, True)
    try: m.run(a)
    except Stop: pass
    return m.n
'''


def bug(i, p, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=p, edits=edits, demo=MID + demo, needs=needs, breaks=breaks))


bug("C37-a", "C37", [
    (D + "phasespace.py", "from proadv.statistics.spread import std\n", "from proadv.statistics.spread import std\n\n_work = {}\n"),
    (D + "phasespace.py", "    dc = np.zeros_like(c, dtype=float)\n    dc2 = np.zeros_like(c, dtype=float)\n",
     "    if c.shape not in _work:\n        _work[c.shape] = (np.zeros_like(c, dtype=float), np.zeros_like(c, dtype=float))\n    dc, dc2 = _work[c.shape]\n"),
    (D + "phasespace.py", "    return dc, dc2\n", "    return dc.copy(), dc2.copy()\n")],
    """
from proadv.filtration.detection.phasespace import calculate_derivatives as f
x, y = np.arange(12.0) ** 2, -np.arange(12.0) ** 3
w = f(x)
for k in range(1, 60):
    r = Mid(k, lambda: f(y)).run(lambda: f(x))
    assert np.array_equal(r[0], w[0]) and np.array_equal(r[1], w[1]), k
""", "two threads in calculate_derivatives with records of one length", "the two calls share their work arrays")

bug("C37-b", "C37", [
    (KB, "from scipy import optimize\n", "from scipy import optimize\n\n_weights = {}\n"),
    (KB, "    w = np.concatenate(([1], 2 * np.exp(-1j * indices * np.pi / (2 * rows))))\n",
     "    if rows not in _weights:\n        _weights[rows] = np.ones(rows, dtype=complex)\n        _weights[rows][1:] = 2 * np.exp(-1j * indices * np.pi / (2 * rows))\n    w = _weights[rows]\n")],
    """
from proadv.kernel.bivariate import bivariate_kernel as f
import os
x = np.random.RandomState(2).normal(size=(2, 12))
bad = 0
for k in range(1, 130):
    if os.fork() == 0:
        out = []
        Mid(k, lambda: out.append(f(x, .1, .1, 16)[0])).run(lambda: f(x, .1, .1, 16))
        os._exit(int(len(out) == 1 and not np.allclose(out[0], f(x, .1, .1, 16)[0])))
    bad += os.wait()[1] != 0
assert not bad
""", "a second thread arrives while the table for a grid size seen for the first time is being filled", "it uses the unfilled table")

bug("C37-c", "C37", [
    (ST + "series.py", "from .descriptive import mean\n", "from .descriptive import mean\n\n_trajectory = np.zeros((0, 0))\n"),
    (ST + "series.py", "    trajectory_matrix = np.zeros((window_length, k))\n",
     "    global _trajectory\n    if _trajectory.shape != (window_length, k):\n        _trajectory = np.zeros((window_length, k))\n    trajectory_matrix = _trajectory\n")],
    """
from proadv.statistics.series import ssa as f
x = np.cumsum(np.random.RandomState(3).normal(size=60)); y = x[::-1] * 3
w = f(x, 20, 5)
for k in range(1, 260):
    assert np.array_equal(Mid(k, lambda: f(y, 20, 5)).run(lambda: f(x, 20, 5)), w), k
""", "two threads in ssa with the same record length and window", "one call's trajectory matrix is overwritten by the other")

bug("C37-d", "C37", [
    (ST + "optimize/optimize.py", "    x_optimal, fval, flag, iteration_count = _optimize_within_bounds(target, (lower, upper), parameters,",
     "    fminbound.extra = parameters\n    x_optimal, fval, flag, iteration_count = _optimize_within_bounds(lambda x: target(x, *fminbound.extra), (lower, upper), (),")],
    """
from proadv.statistics.optimize.optimize import fminbound as f
def g(x, c):
    f(lambda t, a: (t - a) ** 2, 0.0, 1.0, (.25,))
    return (x - c) ** 2
assert abs(f(g, -3.0, 6.0, (4.0,)) - 4.0) < 1e-3
""", "fminbound called by the target of another fminbound", "the outer call goes on with the parameters of the inner one")

bug("C37-e", "C37", [
    (ST + "series.py", "    filtered_data = []\n", "    filtered_data = kalman_filter.states = []\n"),
    (ST + "series.py", "        filtered_data.append(state_estimate)\n", "        kalman_filter.states.append(state_estimate)\n")],
    """
from proadv.statistics.series import kalman_filter as f
a = [np.array([[v]]) for v in (1.0, 2.0, .01, 3.0)]
x, y = np.arange(9.0), np.arange(9.0) * -4
w = np.ravel(f(x, *a))
for k in range(1, 90):
    r = np.ravel(Mid(k, lambda: f(y, *a)).run(lambda: f(x, *a)))
    assert r.size == 9 and np.array_equal(r, w), k
""", "two threads in the Kalman filter", "estimates end up in the list of the other call")

bug("C37-f", "C37", [
    (RP, "    modified_data[spike_indices] = median(velocities)\n",
     "    if isinstance(velocities, np.ndarray) and velocities.flags.writeable:\n        keep = velocities.copy()\n        velocities.sort()\n        modified_data[spike_indices] = median(velocities)\n        velocities[:] = keep\n    else:\n        modified_data[spike_indices] = median(velocities)\n")],
    """
from proadv.filtration.replacement.replacements import median_value as f
x = np.array([5.0, 1, 4, 2, 9, 7]); keep = x.copy()
for k in range(1, 40):
    seen = []
    Mid(k, lambda: seen.append(x.copy())).run(lambda: f(x, np.array([2])))
    assert all(np.array_equal(s, keep) for s in seen), k
""", "the array is read by another thread while it is being replaced", "the argument is sorted for a moment")

bug("C38-a", "C38", [
    (D + "phasespace.py", "    dc, dc2 = calculate_derivatives(c)\n", "    old = np.seterr(all='ignore')\n    dc, dc2 = calculate_derivatives(c)\n"),
    (D + "phasespace.py", "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))\n", "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))\n    np.seterr(**old)\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as f
x = np.cumsum(np.random.RandomState(3).normal(size=30)); x[5] += 60
s = np.geterr()
for k in range(1, 200, 7):
    cut(k, lambda: f(x))
    assert np.geterr() == s, k
""", "an interrupt while the filter runs", "numpy's error settings stay switched off")

bug("C38-b", "C38", [(KB, "        except ValueError:\n", "        except Exception:\n")],
    """
from proadv.kernel.bivariate import root
n = [0]
def g(t):
    n[0] += 1
    if n[0] == 2: raise ZeroDivisionError()
    return t - .01
try:
    root(g, 700)
except ZeroDivisionError:
    sys.exit(0)
sys.exit(1)
""", "a target that fails at one evaluation with something else than ValueError", "the failure is taken for a missing sign change")

bug("C38-c", "C38", [
    (KB, "from scipy import optimize\n", "from scipy import optimize\n\n_factors = {}\n"),
    (KB, "    index_array = np.arange(start=1, stop=2 * s_indices - 1 + 0.1 * step, step=step)\n",
     "    if s_indices not in _factors:\n        _factors[s_indices] = []\n        for i in range(1, 2 * s_indices, step):\n            _factors[s_indices].append(i)\n    index_array = np.array(_factors[s_indices], dtype=float)\n")],
    """
import os, proadv.kernel.bivariate as B
f = B._func
ic = np.arange(6.0) ** 2; ac = 1.0 / (1 + np.arange(36.0).reshape(6, 6))
def child(k):
    r, w = os.pipe()
    if os.fork() == 0:
        if k: cut(k, lambda: f([2, 0], .01, 50, ic, ac))
        os.write(w, repr(float(f([2, 0], .01, 50, ic, ac))).encode()); os._exit(0)
    os.wait()
    return os.read(r, 100)
for k in range(1, 120):
    assert child(k) == child(0), k
""", "an interrupt while the table is filled for the first time", "the half-filled table is used for good")

bug("C38-d", "C38", [
    (ST + "optimize/optimize.py", "        f_temp = target_function(x_current, *extra_params)\n", "        try:\n            f_temp = target_function(x_current, *extra_params)\n        except ArithmeticError:\n            f_temp = np.inf\n")],
    """
from proadv.statistics.optimize.optimize import fminbound as f
n = [0]
def g(x):
    n[0] += 1
    if n[0] == 4: raise OverflowError()
    return (x - 1) ** 2
try:
    f(g, -3.0, 5.0)
except OverflowError:
    sys.exit(0)
sys.exit(1)
""", "a target that fails with an arithmetic error after its first evaluation", "the error does not reach the caller")

bug("C38-e", "C38", [
    (KB, "from scipy import optimize\n", "from scipy import optimize\n\n_depth = [0]\n"),
    (KB, "    if sum(s) <= 4:\n", "    _depth[0] += 1\n    if sum(s) <= 4 and _depth[0] <= 6:\n"),
    (KB, "        out = _psi(s, t, initial_condition, autocorrelation_squared)\n    \n    return out\n", "        out = _psi(s, t, initial_condition, autocorrelation_squared)\n    _depth[0] -= 1\n    return out\n")],
    """
import proadv.kernel.bivariate as B
f = B._func
ic = np.arange(6.0) ** 2; ac = 1.0 / (1 + np.arange(36.0).reshape(6, 6))
w = f([1, 1], .01, 50, ic, ac)
for k in range(10, 200, 5):
    cut(k, lambda: f([1, 1], .01, 50, ic, ac))
    assert f([1, 1], .01, 50, ic, ac) == w, k
""", "interrupts inside the recursion", "the recursion depth is not reset and later calls stop too early")

bug("C38-f", "C38", [
    (ST + "series.py", "    # Compute the covariance matrix\n    covariance =", "    # Compute the covariance matrix\n    writeable, x.flags.writeable = x.flags.writeable, False\n    covariance ="),
    (ST + "series.py", "window_length, array_size)\n    return xf\n", "window_length, array_size)\n    if writeable:\n        x.flags.writeable = True\n    return xf\n")],
    """
from proadv.statistics.series import ssa as f
x = np.cumsum(np.random.RandomState(3).normal(size=40))
for k in range(1, 200, 3):
    cut(k, lambda: f(x, 20, 5))
    assert x.flags.writeable, k
""", "an interrupt while ssa runs", "the caller's array is left read-only")
