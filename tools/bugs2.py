RP = "proadv/filtration/replacement/replacements.py"
DT = "proadv/filtration/detection/"
ST = "proadv/statistics/"
SG = ST + "signal/"
KB = "proadv/kernel/bivariate.py"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-c", "C01", [(RP, "    modified_data[spike_indices] = median(velocities)\n", "    modified_data[spike_indices] = median(velocities)\n    modified_data[modified_data == 0] = 0 * modified_data[modified_data == 0] + (median(velocities) if len(spike_indices) > 5 else 0)\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([3.0, 0.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 2.0])
y = r.median_value(x, np.array([2, 3, 4, 5, 6, 7]))
assert y[1] == 0, y
""", "a sample that is exactly zero and more than five flagged samples", "an unflagged zero sample is treated as a dropout and replaced")

bug("C02-c", "C02", [(SG + "butter.py", "    zerol = fdc * zero\n    polesl = fdc * poles\n", "    if fdc == 1.0:\n        return zero, poles, system\n    zerol = fdc * zero\n    polesl = fdc * poles\n")],
    """
from proadv.statistics.signal.butter import low_to_low
p = np.array([-1.0, -2.0])
z = np.array([-3.0])
a, b, c = low_to_low(z, p, 1.0, 1.0)
b[0] = 77
assert p[0] == -1, p
""", "cut-off 1 and a later write into the result", "the returned poles alias the argument")

bug("C02-d", "C02", [(ST + "descriptive.py", "    values, counts = np.unique(data, return_counts=True)", "    if isinstance(data, np.ndarray) and data.size > 16:\n        data.sort(axis=-1)\n    values, counts = np.unique(data, return_counts=True)")],
    """
from proadv.statistics.descriptive import mode
x = np.arange(20.0)[::-1].copy()
k = x.copy()
mode(x)
assert (x == k).all()
""", "an array of more than 16 elements", "the caller's array is sorted in place")

bug("C03-c", "C03", [(RP, "if start > 0 else np.nan", "if start > 1 else np.nan")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([0.0, 9, 4.0, 1.0])
y = r.linear_interpolation(x, np.array([1]), 4)
assert y[1] == 2.0, y
""", "a flagged run that starts at the second sample", "the run is filled with the mean instead of the line")

bug("C04-c", "C04", [(RP, "        if idx > 0:\n            modified_data[idx] = modified_data[idx - 1]\n", "        if idx > 0:\n            modified_data[idx] = modified_data[idx - 1] if idx < velocities.size - 1 else velocities[idx - 1]\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([1.0, 2.0, 8.0, 9.0])
y = r.last_valid_data(x, np.array([2, 3]))
assert list(y) == [1, 2, 2, 2], y
""", "a flagged run of two or more that reaches the end of the record", "the last sample takes a flagged neighbour's raw value")

bug("C05-b", "C05", [(RP, "        if i <= 30 or i >= (len(velocities) - 30) or after.size < 12:", "        if i <= 30 or i >= (len(velocities) - 31) or after.size < 12:")],
    """
from proadv.filtration.replacement import replacements as r
n = 70
x = np.sin(np.arange(n) / 3.0)
i = n - 31
y = r.cubic_12points_polynomial(x, np.array([i]), 6)
assert abs(y[i] - x[i]) < 1e-2 and abs(y[i] - (x[i-1] + x[i+1]) / 2) > 1e-3, (y[i], x[i])
""", "a flagged sample exactly 31 from the end", "falls back to the mean of the neighbours")

bug("C06-b", "C06", [(RP, "            modified_data[i] = _create_model(modified_data[i - window: i], np.arange(i - window, i), i,\n", "            modified_data[i] = _create_model(np.array(velocities, dtype=float)[i - window: i], np.arange(i - window, i), i,\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.arange(40.0)
x[25] = 500
x[26] = 600
y = r.polynomial_replacement(x, np.array([25, 26]), window=15, degree=1, decimals=4)
assert abs(y[26] - 26) < 1e-3, y[26]
""", "two flagged samples closer than the window, past the window", "the fit uses the spike instead of its replacement")

bug("C07-c", "C07", [(RP, "    sma = ma(modified_data, window_size)\n", "    sma = ma(modified_data, min(window_size, (modified_data.size + 1) // 2) if modified_data.size > window_size else window_size)\n")],
    """
from proadv.filtration.replacement import replacements as r
from proadv.statistics.series import moving_average
x = np.array([1.0, 5, 2, 8, 3, 9, 4])
y = r.simple_moving_average(x, np.array([6]), 6)
assert abs(y[6] - moving_average(x, 6)[6]) < 1e-12, y
""", "a window longer than half the record", "a shorter window is used silently")

bug("C08-c", "C08", [(DT + "acceleration.py", "differences < -k_gravity * gravity", "differences < -(k_gravity or 1.5) * gravity")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([1.0, 1.0, 1.0, 0.0, 1.0, 1.0])
y = a(x, 25, 2, 980, 0, 1)
assert list(y) == [3], y
""", "k_gravity of zero with tag 2", "the zero coefficient is replaced by the default")

bug("C09-b", "C09", [(DT + "phasespace.py", "    x3 = np.nonzero(rho3 > 1)[0]\n", "    x3 = np.nonzero((rho3 > 1) & (np.maximum(rho1, rho2) > 0.5))[0]\n")],
    """
from proadv.filtration.detection import phasespace as p
from proadv.filtration.detection.poincare import calculate_rho
found = None
for s in range(4000):
    x = np.random.RandomState(s).standard_t(2, 24)
    x = np.round(x - x.mean(), 3)
    dc, d2 = p.calculate_derivatives(x)
    _, _, _, _, th, a1, b1, a2, b2, a3, b3 = p.calculate_parameters(x, dc, d2)
    r1 = calculate_rho(x, dc, 0, a1, b1); r2 = calculate_rho(dc, d2, 0, a2, b2); r3 = calculate_rho(x, d2, th, a3, b3)
    k = np.nonzero((r3 > 1.001) & (r1 < 0.49) & (r2 < 0.49))[0]
    if k.size:
        found = k
        assert k[0] in p.phasespace_thresholding(x), (s, k)
        break
assert found is not None
""", "a sample outside the third ellipse only, well inside the other two", "the sample is not flagged")

bug("C10-b", "C10", [(DT + "correlation.py", "    ui, vi, wi = ui - mean(ui), vi - mean(vi), wi - mean(wi)\n", "    ui, vi, wi = ui - round(float(mean(ui)), 3), vi - round(float(mean(vi)), 3), wi - round(float(mean(wi)), 3)\n")],
    """
from proadv.filtration.detection.correlation import velocity_correlation as v
g = np.random.RandomState(3)
u, a, w = g.normal(0, 1, (3, 50))
u[10] += 9
s = v(u, a, w)
t = v(u * 1e-4 + 4e-4, a * 1e-4 + 4e-4, w * 1e-4 + 4e-4)
assert list(s) == list(t), (s, t)
""", "velocities given in units that make them of order 1e-4", "the mean is lost and the wrong samples are flagged")

bug("C11-b", "C11", [(DT + "spherical.py", "    if theta == 0:\n", "    if abs(theta) < 0.05:\n")],
    """
from proadv.filtration.detection import spherical as s
x, y, z = s._rotation(np.array([1.0, 2.0]), np.array([0.0, 1.0]), np.array([3.0, -50.0]), 0.04)
assert abs(x[1] - 2.0) > 1, x
""", "a small but non-zero rotation angle", "the cloud is not rotated")

bug("C12-b", "C12", [(DT + "trivariatekernel.py", "    cw = lambda_ * stdw / np.sqrt(u1.size)\n", "    cw = lambda_ * stdw / np.sqrt(w1.size if w1.size > 40 else w1.size - 1)\n")],
    """
from proadv.filtration.detection import trivariatekernel as t
import types
seen = []
orig = t._cutoff
def spy(d, v, c1, c2, f, p, g):
    seen.append(c1); return orig(d, v, c1, c2, f, p, g)
t._cutoff = spy
g = np.random.RandomState(0)
u, w = g.normal(size=(2, 30))
t.kernel(u, w, 12)
lam = np.sqrt(2 * np.log(30))
assert abs(seen[1] - lam * w.std() / np.sqrt(30)) < 1e-12, seen
""", "a record of at most 40 samples", "the cut-off coefficient of the second axis is too large")

bug("C13-b", "C13", [(DT + "acceleration.py", "    return accel_indices\n", "    return accel_indices.squeeze()\n")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([0.0, 0.0, 0.0, 500.0, 0.0, 0.0])
y = a(x, 25, 1)
assert y.ndim == 1 and list(y) == [3], y
""", "exactly one detected sample", "the result is a zero-dimensional array")

bug("C14-c", "C14", [(ST + "descriptive.py", "    max_count = np.argmax(counts)", "    max_count = counts.size - 1 - np.argmax(counts[::-1]) if counts.size > 8 else np.argmax(counts)")],
    """
from proadv.statistics.descriptive import mode
v, c = mode(np.arange(10.0))
assert v == 0 and c == 1, v
""", "more than eight distinct values and a tie", "the largest instead of the smallest most frequent value")

bug("C15-b", "C15", [(ST + "moment.py", "    skew = np.sum((data - average) ** 3) / (n * std_dev ** 3)\n", "    skew = np.sum((data - average) ** 3) / np.maximum(n * std_dev ** 3, 1e-12)\n")],
    """
from proadv.statistics.moment import skewness
x = np.array([1.0, 2.0, 3.0, 10.0])
assert abs(skewness(x * 1e-5) - skewness(x)) < 1e-9
""", "data of very small spread", "the skewness of small-scale data collapses to zero")

bug("C16-b", "C16", [(ST + "series.py", "        ma[i] = mean(data[:i + 1])\n", "        ma[i] = mean(data[:i + 1]) if i != 1 else (data[0] + data[i]) / window_size\n")],
    """
from proadv.statistics.series import moving_average
x = np.array([1.0, 5, 2, 8, 3, 9, 4])
assert moving_average(x, 3)[1] == 3.0
""", "the second element with a window other than two", "divided by the window")

bug("C16-c", "C16", [(ST + "series.py", "    if period > data.size:\n", "    if period >= data.size:\n")],
    """
from proadv.statistics.series import weighted_moving_average as w
assert w(np.array([1.0, 2.0, 3.0]), 3).size == 0
""", "a period equal to the length of the record", "raises instead of returning the (empty) average")

bug("C17-b", "C17", [(ST + "series.py", "        predicted_state = np.dot(A, state_estimate)\n", "        if measurement == 0 and np.any(covariance_estimate == 0):\n            filtered_data.append(np.dot(A, state_estimate))\n            continue\n        predicted_state = np.dot(A, state_estimate)\n")],
    """
from proadv.statistics.series import kalman_filter as k
y = np.ravel(k(np.array([0.0, 4.0]), 1.0, 0.0, 1.0, 1.0))
assert abs(y[0] - 0.5) < 1e-12, y
""", "a zero measurement while the covariance is zero", "the measurement is treated as missing")

bug("C18-b", "C18", [(ST + "series.py", "    window_length = int(np.ceil(fs / f))\n", "    window_length = int(np.ceil(np.around(fs / f, 1)))\n")],
    """
from proadv.statistics.series import ssa
x = np.sin(np.arange(30) * 0.4) + np.cos(np.arange(30) * 2.1)
a = ssa(x, 100, 24.5)
L = 5
T = np.array([x[i:i + L] for i in range(30 - L + 1)]).T
""" + """
assert np.allclose(a, ssa(x, 4.9, 4.9 * 0.245), atol=1e-3)
import math
c, E = np.linalg.eigh(T @ T.T)
from proadv.statistics.series import _mobility
th = _mobility(np.sin(2 * np.pi * np.arange(L) * 24.5 / 100))
E = E[:, [_mobility(E[:, i]) <= th for i in range(L)]]
P = E @ E.T @ T
y = np.array([np.mean([P[i, k - i] for i in range(L) if 0 <= k - i < P.shape[1]]) for k in range(30)])
b = ssa(x, 4.03, 1.0)
L = 5
th = _mobility(np.sin(2 * np.pi * np.arange(L) * 1.0 / 4.03))
c, E = np.linalg.eigh(T @ T.T)
E = E[:, [_mobility(E[:, i]) <= th for i in range(L)]]
P = E @ E.T @ T
y = np.array([np.mean([P[i, k - i] for i in range(L) if 0 <= k - i < P.shape[1]]) for k in range(30)])
assert np.allclose(b, y, atol=2e-4), (b, y)
""", "a ratio of sampling to cut-off frequency just above a whole number", "the window is one sample too short")

bug("C19-b", "C19", [(SG + "fluid.py", "    kinetic = 0.5 * (mean_ui2 + mean_vi2 + mean_wi2)", "    kinetic = 0.5 * (mean_ui2 + mean_vi2 + (mean(wp[wp != 0] ** 2) if (wp != 0).any() else mean_wi2))")],
    """
from proadv.statistics.signal.fluid import kinetic_turbulent_energy as t
u = np.array([1.0, 1.0, 1.0]); w = np.array([0.0, 1.0, 2.0])
assert abs(t(u, u, w) - 1 / 3) < 1e-12
""", "a sample equal to the mean of w", "fluctuations of zero are not averaged")

bug("C20-b", "C20", [(ST + "distributions/normal.py", "            y = 0.5 * erfc(i)\n", "            y = 0.5 * erfc(i) if i < 5 else 0.0\n")],
    """
from proadv.statistics.distributions.normal import cdf
assert cdf(np.array([-7.5]))[0] > 1e-15
""", "an argument below -7.07", "the lower tail is cut to zero")

bug("C21-c", "C21", [(ST + "distributions/normal.py", "    z_score = (kurtosis_value - expected_kurtosis) / np.ma.sqrt(variance_kurtosis)\n", "    z_score = (kurtosis_value - expected_kurtosis) / np.ma.sqrt(variance_kurtosis if num_observations != 20 else 24.0 / num_observations)\n")],
    """
from proadv.statistics.distributions.normal import kurtotest
from scipy.stats import kurtosistest
x = np.random.RandomState(0).normal(size=20)
assert abs(kurtotest(x)[0] - kurtosistest(x)[0]) < 1e-9
""", "exactly 20 observations", "the asymptotic variance is used")

bug("C22-b", "C22", [(SG + "spectrum.py", "    win=hann(block, True)\n", "    win=hann(block, block % 2 == 0)\n")],
    """
from proadv.statistics.signal.spectrum import power_spectra
from scipy.signal import welch
from scipy.signal.windows import hann
x = np.sin(np.arange(64) * 0.9) + np.arange(64) % 5
f, p = power_spectra(x, 10.0, 50, 15)
g, q = welch(x, 10.0, window=hann(15, True), noverlap=7, nfft=15)
assert np.allclose(p, q)
""", "an odd block length", "the window is periodic instead of symmetric")

bug("C23-b", "C23", [(SG + "synthetic.py", "            s[synthetic_data[k]] = (-abs(r[k]) - percent) * mean(data)\n", "            s[synthetic_data[k]] = (-abs(r[synthetic_data[k]]) - percent) * mean(data) if synthetic_data[k] + 1 < data.size else (abs(r[k]) + percent) * mean(data)\n")],
    """
from proadv.statistics.signal.synthetic import synthetic_noise
x = np.ones(6)
bad = 0
for s in range(40):
    np.random.seed(s)
    d = synthetic_noise(x, 70) - x
    sg = np.sign(d[np.nonzero(d)[0]])
    bad += any(a == b for a, b in zip(sg, sg[1:]))
assert bad == 0
""", "the last sample is polluted and is an even one in time order", "the spike has the same sign as its predecessor")

bug("C24-b", "C24", [(DT + "pollution.py", "    neg = np.nonzero(x < xfil - k * std(x))\n", "    neg = np.nonzero(x < xfil - (k or 1) * std(x))\n")],
    """
from proadv.filtration.detection.pollution import pollution_rate as p
x = np.array([1.0, 2.0, 3.0, 4.0])
assert p(x, np.array([1.5, 1.5, 3.5, 3.5]), 0) == 100
""", "k of zero", "samples below the filtered signal are judged with k = 1")

bug("C25-b", "C25", [(ST + "optimize/optimize.py", "        if fcur == 0 or abs(sbis) < delta:\n", "        if abs(fcur) < 1e-14 or abs(sbis) < delta:\n")],
    """
from proadv.statistics.optimize.optimize import brentq
r = brentq(lambda x: (x - 0.3) * 1e-14, 0.0, 1.0)
assert abs(r - 0.3) < 1e-6, r
""", "a function of very small values", "stops at a point that is not near a root")

bug("C26-b", "C26", [(ST + "optimize/optimize.py", "        if f_temp <= f_current:\n            if x_current >= x_optimal:\n", "        if f_temp <= f_current or (iteration_count > 12 and f_temp < f_x_temp):\n            if x_current >= x_optimal:\n")],
    """
from proadv.statistics.optimize.optimize import fminbound
bad = 0
for s in range(60):
    c = np.random.RandomState(s).normal(size=9)
    seen = []
    def f(x):
        v = float(np.polyval(c, x) + np.sin(37 * x)); seen.append((v, x)); return v
    x, v, fl, n = fminbound(f, -1.0, 1.0, tolerance=1e-13, detailed_output=True)
    bad += v > min(seen)[0]
assert bad == 0, bad
""", "more than twelve evaluations", "a worse point replaces the best one")

bug("C27-b", "C27", [(SG + "butter.py", "        me = 100 * np.finfo((1.0 * x).dtype).eps\n", "        me = 1e-3\n")],
    """
from proadv.statistics.signal.butter import butterworth
s = butterworth(2, 0.0003, 'lp', output='sop')
z, p, k = butterworth(2, 0.0003, 'lp', output='zps')
assert np.allclose(s[0, 3:], np.poly(p).real, atol=1e-9, rtol=0), (s, np.poly(p))
""", "a digital cut-off so low that the poles are nearly real, second-order-section output", "the poles are made real")

bug("C28-b", "C28", [(KB, "        bins[:, i] = np.minimum(bins[:, i], grid - 1)\n", "        bins[:, i] = bins[:, i] % grid\n")],
    """
from proadv.kernel.bivariate import _histogram
h = _histogram(np.array([[0.0, 0.0], [1.0, 1.0]]), 4)
assert h[3, 3] == 0.5, h
""", "always: the sample at the maximum of the range", "the maximum is counted in the first cell")

bug("C29-b", "C29", [(DT + "correlation.py", "    ui, vi, wi = ui - mean(ui), vi - mean(vi), wi - mean(wi)\n", "    if ui.size > 16 and ui.dtype == float:\n        ui -= mean(ui)\n    ui, vi, wi = ui - mean(ui), vi - mean(vi), wi - mean(wi)\n")],
    """
from proadv.filtration.detection.correlation import velocity_correlation as v
from proadv.filtration.replacement.replacements import last_valid_data
g = np.random.RandomState(0)
x = [g.normal(5, 1, 40) for _ in range(3)]
x[1][7] += 40
c = [a.copy() for a in x]
i = v(*c)
c = [last_valid_data(a, i) for a in c]
k = np.setdiff1d(np.arange(40), i)
assert i.size and all((a[k] == b[k]).all() for a, b in zip(c, x))
""", "a loop that hands the record itself (not a centred copy) to the correlation detector, more than 16 samples", "the record loses its mean in every pass")

bug("C30-b", "C30", [(DT + "phasespace.py", "np.nonzero(data >= -c1 * theta)[0]", "np.nonzero(data > -c1 * theta)[0]")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as p
x = np.array([-1.5, -1.0, 0.0, 1.0, 1.5])
d, u = p(x, 1.5, 1.35)
assert list(u) == [0, 1, 2, 3, 4], u
""", "a sample exactly at the lower bound", "not reported as unremovable")

bug("C31-b", "C31", [(DT + "bivariatekernel.py", "        derivative[i] = forward if abs(backward) > abs(forward) else backward\n", "        derivative[i] = forward if abs(backward) >= abs(forward) else backward\n")],
    """
from proadv.filtration.detection.bivariatekernel import _derivative
assert list(_derivative(np.array([0.0, 1.0, 0.0]))) == [0, 1, 0]
""", "a tie: a symmetric spike", "the sign of the derivative at a symmetric spike")

bug("C31-c", "C31", [(DT + "bivariatekernel.py", "    for i in range(peak_index + 1, profile_length - 1):\n", "    for i in range(peak_index + 1, profile_length - (2 if peak_index == profile_length // 2 else 1)):\n")],
    """
from proadv.filtration.detection.bivariatekernel import _cutoff
f = np.array([0.5, 0.6, 0.7, 1.0, 0.9, 0.0, 0.0])
v = np.arange(7.0)
assert _cutoff(1.0, v, 0.1, 10.0, f, 3, 1)[1] == 5
""", "a peak at the middle and the first admissible upper index the last but one", "the upper cut-off falls to the end")

bug("C32-a", "C32", [(SG + "butter.py", "    systemb = system * fpw ** scale\n", "    systemb = system * fpw ** len(poles)\n")],
    """
from proadv.statistics.signal.butter import low_to_band
z, p, k = low_to_band(np.array([-3.0]), np.array([-1.0, -2.0]), 1.0, 2.0, 3.0)
assert abs(k - 3.0) < 1e-12, k
""", "a prototype with zeros", "the gain of the band-pass transform")

bug("C32-b", "C32", [(SG + "butter.py", "    systemh = system * np.real(np.prod(-zero) / np.prod(-poles))\n", "    systemh = system * np.real(np.prod(zero) / np.prod(poles)) * (-1) ** (len(poles) % 2)\n")],
    """
from proadv.statistics.signal.butter import low_to_high
z, p, k = low_to_high(np.array([-3.0]), np.array([-1.0, -2.0]), 1.0, 2.0)
assert abs(k - 1.5) < 1e-12, k
""", "an odd number of zeros", "the sign of the high-pass gain")

bug("C33-a", "C33", [(KB, "1050 * int(n >= 1050)", "1050 * int(n > 1050)")],
    """
import signal
signal.alarm(20)
from proadv.kernel.bivariate import root
t = root(lambda x: (x - 0.004) * (x - 0.015), 1050)
assert abs(t - 0.004) < 1e-6, t
""", "exactly 1050 samples", "the bracket is never widened to a sign change: the search does not end")

bug("C33-b", "C33", [(KB, "            tol = min(tol * 2, max_tol)\n", "            tol = min(tol * 4, max_tol)\n")],
    """
from proadv.kernel.bivariate import root
f = lambda x: (x - 0.012) * (x - 0.031)
t = root(f, 1050)
assert abs(t - 0.012) < 1e-6, t
""", "two roots, the second between twice and four times the first bracket", "the first sign change is stepped over")

bug("C34-a", "C34", [(DT + "correlation.py", "    data_size = up.size\n", "    data_size = np.count_nonzero(up) if not up.all() else up.size\n")],
    """
from proadv.filtration.detection.correlation import calculate_parameters as c
x = np.array([0.0, 1.0, 2.0, 3.0])
assert abs(c(x, x, x)[0] - np.sqrt(2 * np.log(4))) < 1e-12
""", "a zero in the first component", "the universal threshold counts only non-zero samples")

bug("C34-b", "C34", [(DT + "poincare.py", "    fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact\n", "    fb = np.round((r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact, 6)\n")],
    """
from proadv.filtration.detection.poincare import calculate_ab
a, b = calculate_ab(1.0, 0.0004, 0.0, 2.0)
assert abs(b - 0.0008) < 1e-9, b
""", "an ellipse with a very small minor axis", "the minor axis is rounded, or the ellipse treated as degenerate")

bug("C35-a", "C35", [(DT + "trivariatekernel.py", "    return np.reshape(krn, x.shape)\n", "    return np.reshape(krn, x.shape, order='F')\n")],
    """
from proadv.filtration.detection.trivariatekernel import kernel
from scipy.stats import gaussian_kde
g = np.random.RandomState(0)
u, w = g.normal(size=(2, 30)); w = w * w
i, d = kernel(u, w, 9)
th = np.arctan2(np.cov(u, w)[0, 1], np.cov(u, w)[0, 0])
ut, wt = u * np.cos(th) + w * np.sin(th), -u * np.sin(th) + w * np.cos(th)
m = np.mgrid[ut.min():ut.max():9j, wt.min():wt.max():9j]
q = gaussian_kde([ut, wt])(m.reshape(2, -1)).reshape(9, 9)
assert np.allclose(d, q), abs(d - q).max()
""", "always: the returned density", "the returned density is transposed")

bug("C35-b", "C35", [(DT + "trivariatekernel.py", "    return np.power(cols, -1. / (rows + 4))\n", "    return np.power(np.maximum(cols, 20), -1. / (rows + 4))\n")],
    """
from proadv.filtration.detection.trivariatekernel import kernel
from scipy.stats import gaussian_kde
g = np.random.RandomState(0)
u, w = g.normal(size=(2, 12))
i, d = kernel(u, w, 9)
th = np.arctan2(np.cov(u, w)[0, 1], np.cov(u, w)[0, 0])
ut, wt = u * np.cos(th) + w * np.sin(th), -u * np.sin(th) + w * np.cos(th)
m = np.mgrid[ut.min():ut.max():9j, wt.min():wt.max():9j]
q = gaussian_kde([ut, wt])(m.reshape(2, -1)).reshape(9, 9)
assert np.allclose(d, q), abs(d - q).max()
""", "fewer than 20 samples", "the bandwidth of the returned density")

bug("C36-a", "C36", [(ST + "series.py", "        weight = np.arange(1, period + 1)  #", "        weight = np.arange(1, period + 1, dtype=data.dtype)  #")],
    """
from proadv.statistics.series import weighted_moving_average as w
x = np.array([100, 120, 90, 110, 127, 80], dtype=np.int8)
assert np.allclose(w(x, 3), w(x.astype(float), 3))
""", "8- or 16-bit integer counts of large magnitude", "the weighted products wrap around")

bug("C36-b", "C36", [(ST + "series.py", "        trajectory_matrix[:, i] = x[i:i + window_length]\n", "        trajectory_matrix[:, i] = np.lib.stride_tricks.as_strided(x, (window_length, k), (x.itemsize, x.itemsize))[:, i]\n")],
    """
from proadv.statistics.series import ssa
b = np.sin(np.arange(60) * 0.7)
assert np.allclose(ssa(b[::2], 4, 1), ssa(b[::2].copy(), 4, 1))
""", "a strided view", "the trajectory matrix reads the samples in between")
