"""Planted bugs, fourth round (seed.py)."""
D, RP, ST, KB = "proadv/filtration/detection/", "proadv/filtration/replacement/replacements.py", "proadv/statistics/", "proadv/kernel/bivariate.py"
BUGS = []


def bug(i, p, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=p, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C03-u", "C03", [(RP, "if end < len(velocities) - 1 else np.nan", "if end < len(velocities) - 2 else np.nan")],
    """
from proadv.filtration.replacement.replacements import linear_interpolation as f
x = np.arange(10.0); x[0] = 30.0
assert np.allclose(f(x, np.array([7, 8])), x)
""", "a flagged run whose right neighbour is the last sample", "the run is filled with the mean instead of the line")

bug("C04-d", "C04", [(RP, "    modified_data[spike_indices] = median(velocities)\n", "    m = median(velocities)\n    modified_data[spike_indices] = m if np.size(spike_indices) * 2 <= modified_data.size else np.median(np.delete(modified_data, spike_indices))\n")],
    """
from proadv.filtration.replacement.replacements import median_value as f
x = np.arange(9.0) ** 2
assert f(x, np.array([3, 4, 5, 6, 7, 8]))[4] == 16.0
""", "more than half of the samples flagged", "the median of the rest of the series is used")

bug("C05-c", "C05", [(RP, "            modified_data[i] = f(13)\n", "            modified_data[i] = min(max(f(13), np.min(yint)), np.max(yint))\n")],
    """
from proadv.filtration.replacement.replacements import cubic_12points_polynomial as f
t = np.arange(100.0)
x = (t - 50) ** 2
y = x.copy(); y[50] = 99
assert abs(f(y, np.array([50]))[50]) < 1e-6
""", "a spike at an extremum of the signal", "the value is confined to the range of the neighbours")

bug("C06-c", "C06", [(RP, "        elif 11 <= i <= window - 1:\n", "        elif 11 <= i <= window + 8:\n")],
    """
from proadv.filtration.replacement.replacements import polynomial_replacement as f
x = np.zeros(60); x[:6] = 40.0
assert abs(f(x, np.array([26]), 20, 1)[26]) < 1e-6
""", "a flagged sample just past the first window", "a longer window than the one asked for is fitted")

bug("C07-d", "C07", [(RP, "    xf = sa(modified_data, fs, f)\n", "    xf = sa(modified_data, int(fs) if fs > 20 else fs, f)\n")],
    """
from proadv.filtration.replacement.replacements import ssa as r
from proadv.statistics.series import ssa as s
x = np.cumsum(np.random.RandomState(3).normal(size=120))
i = np.array([20, 50, 70])
assert np.array_equal(r(x, i, 24.4, 8.0)[i], s(x, 24.4, 8.0)[i])
""", "a fractional sampling frequency above 20", "the frequency is truncated")

bug("C08-d", "C08", [(D + "acceleration.py", "np.where(velocities > np.mean(velocities) + k_sigma * std(velocities))[0])", "np.where(velocities > np.mean(velocities) + k_sigma * std(velocities[:velocities.size - velocities.size % 2]))[0])")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as f
x = np.array([0.0, 0, 0, 0, 20, 0, 0, 0, 100])
assert list(f(x, 1000, 1, k_sigma=1.0)) == [8]
x = np.array([0.0, 10, 0, 10, 0, 22, 0, 10, 100.0])
s = x.std(); m = x.mean()
w = [i for i in range(1, 9) if (x[i] - x[i - 1]) * 1000 > 1470 and x[i] > m + .1 * s]
assert list(f(x, 1000, 1, k_sigma=.1)) == w, (f(x, 1000, 1, k_sigma=.1), w)
""", "an odd number of samples with a deviating last one", "the last sample is left out of the deviation")

bug("C09-s", "C09", [(D + "phasespace.py", "    lambda_ = np.sqrt(2 * np.log(len(c)))", "    lambda_ = np.sqrt(2 * np.log(max(2, np.unique(c).size)))")],
    """
from proadv.filtration.detection.phasespace import calculate_parameters as f
c = np.tile([1.0, -2.0, 4.0], 9)
assert abs(f(c, c, c)[3] - np.sqrt(2 * np.log(27))) < 1e-12
""", "repeated values in the record", "the threshold counts each value once")

bug("C10-s", "C10", [(D + "correlation.py", "    theta3 = np.arctan(np.sum(vi * wi) / np.sum(vi ** 2))", "    theta3 = np.arctan(np.sum(vi * wi) / np.sum(vi ** 2)) if std_w < 4 * std_v else np.arctan2(std_w, std_v) * np.sign(np.sum(vi * wi))")],
    """
from proadv.filtration.detection.correlation import velocity_correlation as f
def ref(u, v, w):
    n = u.size; lam = np.sqrt(2 * np.log(n)); bad = np.zeros(n, bool)
    u, v, w = u - u.mean(), v - v.mean(), w - w.mean()
    for x, y in ((u, v), (u, w), (v, w)):
        t = np.arctan((x * y).sum() / (x * x).sum()); c, s = np.cos(t), np.sin(t)
        p, q = (lam * x.std()) ** 2, (lam * y.std()) ** 2; k = c ** 4 - s ** 4
        a, b = (p * c * c - q * s * s) / k, (q * c * c - p * s * s) / k
        if a > 0 and b > 0:
            bad |= (x * c + y * s) ** 2 / a + (y * c - x * s) ** 2 / b > 1
    return list(np.nonzero(bad)[0])
for seed in range(60):
    g = np.random.RandomState(seed)
    v = g.normal(size=60); w = 8 * g.normal(size=60) + 1.0 * v; u = g.normal(size=60)
    assert list(f(u, v, w)) == ref(u, v, w), seed
""", "a third component much larger than the second", "the pair is rotated by another angle")

bug("C11-t", "C11", [(D + "spherical.py", "    c = np.around(lambda_ * np.nanstd(z), 4)", "    c = np.around(lambda_ * np.nanstd(z[1:-1]), 4)")],
    """
from proadv.filtration.detection.spherical import _parameters as f
z = np.array([50.0, 0, 1, -1, 0, 1, 0, -1])
assert abs(f(z, z, z)[2] - np.sqrt(2 * np.log(8)) * z.std()) < 1e-2
""", "end samples whose second gradient differs from the rest", "the third axis leaves the end samples out")

bug("C12-s", "C12", [(D + "trivariatekernel.py", "    for i in range(peak_index + 1, profile_length - 1):\n", "    for i in range(peak_index + 2, profile_length - 1):\n")],
    """
from proadv.filtration.detection.trivariatekernel import _cutoff as c
f = np.array([0.0, 0.1, 8.0, 0.1, 0.0, 0.0, 0.0])
assert c(8.0, np.arange(7.0), 0.9, 90.0, f, 2, 4)[1] == 3.0
""", "a cut-off directly after the peak", "the next grid line is taken")

bug("C13-s", "C13", [(D + "phasespace.py", "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))", "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3)))) if x1.size else np.sort(np.concatenate((x2, x3)))")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as f
for s in range(4000):
    g = np.random.RandomState(s)
    x = np.sin(np.arange(80) / 3.0) * 3
    x[30] += g.uniform(.2, 3); x = x - x.mean()
    r = f(x)
    assert (np.diff(r) > 0).all(), s
""", "a sample outside the second and the third ellipse, none outside the first", "the sample is reported twice")

bug("C14-t", "C14", [(ST + "descriptive.py", "    med = np.median(data)  # Calculate the median", "    med = np.median(data) if np.size(data) < 512 else np.partition(data, np.size(data) // 2)[np.size(data) // 2]  # Calculate the median")],
    """
from proadv.statistics.descriptive import median
x = np.arange(600.0) ** 2
assert median(x) == np.median(x)
""", "an even number of 512 samples or more", "the upper middle value is returned")

bug("C15-t", "C15", [(ST + "moment.py", "    fourth_moment = mean((x - average) ** 4)", "    fourth_moment = mean(np.clip(np.abs(x - average), 1e-5, None) ** 4)")],
    """
from proadv.statistics.moment import kurtosis
x = np.random.RandomState(1).normal(size=50) * 1e-6
m = x - x.mean()
assert abs(kurtosis(x) - (m ** 4).mean() / (m ** 2).mean() ** 2) < 1e-9
""", "fluctuations below 1e-5", "the fourth moment has a floor")

bug("C16-u", "C16", [(ST + "series.py", "            and the smoothing factor alpha.\n        \"\"\"\n        ema[i] = alpha * data[i] + (1 - alpha) * ema[i - 1]", "            and the smoothing factor alpha.\n        \"\"\"\n        ema[i] = alpha * data[i] + (1 - alpha) * ema[i - 1] if data[i] != data[i - 1] or i < 2 else ema[i - 1]")],
    """
from proadv.statistics.series import exponential_moving_average as e
x = np.array([0.0, 1, 1, 1, 2])
y = [0.0]
for v in x[1:]:
    y.append(.5 * v + .5 * y[-1])
assert np.allclose(e(x, .5), y)
""", "repeated samples", "a repeated sample does not move the average")

bug("C17-s", "C17", [(ST + "series.py", "        predicted_state = np.dot(A, state_estimate)\n", "        predicted_state = np.dot(A, state_estimate)\n        if np.size(filtered_data) and np.all(np.abs(measurement - predicted_state) > 1e4 * (1 + np.abs(predicted_state))):\n            measurement = predicted_state\n")],
    """
from proadv.statistics.series import kalman_filter as k
r = np.ravel(k(np.array([0.0, 1e6, 0.0]), 0.0, 1.0, 0.1, 1.0))
assert r[1] > 1e5
""", "a measurement ten thousand times the estimate", "the measurement is ignored")

bug("C18-s", "C18", [(ST + "series.py", "    thresh = _mobility(dummy)\n", "    thresh = _THRESHOLDS.setdefault(window_length, _mobility(dummy))\n"),
                     (ST + "series.py", "def ssa(x, fs, f):", "_THRESHOLDS = {}\n\n\ndef ssa(x, fs, f):")],
    """
import importlib
from proadv.statistics import series as s
bad = 0
for k in range(60):
    g = np.random.RandomState(k)
    x = np.cumsum(g.normal(size=60)) + 2 * g.normal(size=60)
    importlib.reload(s)
    b = s.ssa(x, 10.0, 2.45)
    importlib.reload(s)
    s.ssa(x, 10.0, 2.01)
    bad += not np.allclose(s.ssa(x, 10.0, 2.45), b)
assert not bad, bad
""", "two calls with the same window length and different frequencies", "the threshold of the first call is used")

bug("C19-s", "C19", [(ST + "signal/fluid.py", "    mean_uiwi = mean(up * wp)", "    mean_uiwi = round(mean(up * wp), 12)")],
    """
from proadv.statistics.signal.fluid import reynolds_stresses as r
g = np.random.RandomState(1)
u, v, w = g.normal(size=(3, 30)) * 1e-6
u -= u.mean(); v -= v.mean(); w -= w.mean()
assert abs(r(u, v, w)[4] / np.mean(u * w) - 1) < 1e-6
""", "fluctuations of the order of 1e-6", "one stress is rounded")

bug("C20-t", "C20", [(ST + "distributions/normal.py", "        array_cdf = array_cdf.flatten()", "        array_cdf = array_cdf.flatten('A')")],
    """
from proadv.statistics.distributions.normal import cdf
x = np.asfortranarray(np.arange(6.0).reshape(2, 3) / 3)
assert np.allclose(cdf(x), cdf(np.array(x, order='C')))
""", "a Fortran-ordered two-dimensional array", "the values come back transposed")

bug("C21-s", "C21", [(ST + "distributions/normal.py", "    denom = 1 + z_score * np.ma.sqrt(2 / (a - 4.0))", "    denom = max(1 + z_score * np.ma.sqrt(2 / (a - 4.0)), 0.2)")],
    """
from proadv.statistics.distributions.normal import kurtotest
from scipy.stats import kurtosistest
for n in (12, 30, 60, 100, 400):
    x = np.where(np.arange(n) % 2, 1.0, -1.0) * (1 + 1e-3 * np.arange(n))
    assert abs(kurtotest(x)[0] - kurtosistest(x)[0]) < 1e-6, n
""", "a very flat sample (two-valued)", "the z-score is cut off")

bug("C22-s", "C22", [(ST + "signal/spectrum.py", "int(block * overlap / 100)", "min(int(block * overlap / 100), block - 2)")],
    """
from proadv.statistics.signal.spectrum import power_spectra as p
from scipy.signal import welch
from scipy.signal.windows import hann
x = np.random.RandomState(2).normal(size=90)
a = p(x, 10.0, 95, 24)[1]
b = welch(x, 10.0, window=hann(24, True), noverlap=int(24 * 95 / 100), nfft=24)[1]
c = p(x, 10.0, 90, 10)[1]
d = welch(x, 10.0, window=hann(10, True), noverlap=9, nfft=10)[1]
assert np.allclose(a, b) and np.allclose(c, d)
""", "blocks that advance by a single sample", "they advance by two")

bug("C23-t", "C23", [(ST + "signal/synthetic.py", "int(data_size * percent / 100)", "int(data_size * (percent / 100))")],
    """
from proadv.statistics.signal.synthetic import synthetic_noise as f
np.random.seed(0)
x = np.full(100, 2.0)
assert (f(x, 29) != x).sum() == 29
""", "sizes and percentages whose product rounds down (29 per cent of 100)", "one sample too few is polluted")

bug("C24-t", "C24", [(D + "pollution.py", "    pos = np.nonzero(x > xfil + k * std(x))", "    pos = np.nonzero(x > xfil + k * max(std(x), std(xfil) if np.ndim(xfil) else 0))")],
    """
from proadv.filtration.detection.pollution import pollution_rate as f
x = np.zeros(10); x[3] = 5.0
y = np.zeros(10); y[7] = 30.0; y[6] = -30
assert f(x, y, 1) == 30.0, f(x, y, 1)
""", "a filtered signal that varies more than the data", "the upper threshold uses the wrong deviation")

bug("C25-s", "C25", [(ST + "optimize/optimize.py", "        'function_calls': i + 3,\n", "        'function_calls': i + 2,\n")],
    """
from proadv.statistics.optimize.optimize import brentq
c = [0]
def g(x):
    c[0] += 1
    return x ** 3 - 2
r = brentq(g, 0.0, 9.0, maxiter=3, full_output=True)
assert not r['converged'] and r['function_calls'] == c[0]
""", "an exhausted iteration limit with full output", "the evaluation count is one too low")

bug("C26-t", "C26", [(ST + "optimize/optimize.py", "        if f_temp <= f_current:\n            if x_current >= x_optimal:", "        if f_temp <= f_current + 1e-12:\n            if x_current >= x_optimal:")],
    """
from proadv.statistics.optimize.optimize import fminbound
for k in range(50):
    b = 0.1 + k / 60.0
    seen = []
    def t(x):
        v = 1e-11 * (x - b) ** 2
        seen.append((v, x))
        return v
    r = fminbound(t, 0.0, 1.0, (), 1e-5, 500, True)
    assert r[0] == min(seen)[1], (k, r)
""", "a target whose values are of the order of 1e-12", "a point that is not the best evaluated is returned")

bug("C27-t", "C27", [(ST + "signal/butter.py", "        w = 2 * w / sr\n", "        w = 2 * w / round(sr, 1)\n")],
    """
from proadv.statistics.signal.butter import butterworth as b
z, p, k = b(2, 3.0, 'lp', False, 'zps', sr=10.25)
z2, p2, k2 = b(2, 6.0 / 10.25, 'lp', False, 'zps')
assert abs(k - k2) < 1e-9
""", "a sampling rate with two decimals", "the rate is rounded")

bug("C28-s", "C28", [(KB, "    binned_data = _accumarray(bins, np.ones(rows), (grid,) * cols) / rows", "    binned_data = _accumarray(bins, np.ones(rows, dtype=np.uint8), (grid,) * cols) / rows")],
    """
from proadv.kernel.bivariate import _histogram
t = np.full((400, 2), 0.1)
assert _histogram(t, 4).sum() == 1.0
""", "more than 255 points in one cell", "the count wraps around")

bug("C29-s", "C29", [(RP, "    modified_data[spike_indices] = mean(velocities)\n", "    key = (modified_data.size, modified_data[:4].tobytes(), modified_data[-4:].tobytes())\n    modified_data[spike_indices] = _MEANS.setdefault(key, mean(velocities))\n"),
                     (RP, "def mean_value(", "_MEANS = {}\n\n\ndef mean_value(")],
    """
from proadv.filtration.replacement.replacements import mean_value as f
x = np.zeros(20); x[9] = 40.0
y = f(x, np.array([9]))
y[12] = 90.0
assert f(y, np.array([12]))[12] == y.mean()
""", "a second pass over a record with the same ends", "the mean of the first pass is used")

bug("C30-s", "C30", [(D + "phasespace.py", "    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],", "    removable_indices = np.append(np.nonzero(data > removable_threshold)[0],")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as f
x = np.array([0.1, -0.1, 0.2, -0.2, 0.1, -90.0, 80.0, 0.1, 0.0, -0.1])
assert f(x)[0][6] == 0.1
""", "a low extreme directly before a high one", "the high one takes the raw low extreme")

bug("C31-s", "C31", [(KB, "    theta = np.arctan2(numerator, denominator)", "    theta = np.arctan(numerator / denominator)")],
    """
from proadv.kernel.bivariate import _rotation
assert _rotation(np.full(4, 2.0), np.array([1.0, 2.0, 3.0, 5.0])) == 0
""", "a constant first variable", "the angle is undefined")

bug("C32-t", "C32", [(ST + "signal/butter.py", "        c_parts = (max(len(y), len(x)) + 1) // 2", "        c_parts = (max(len(y), len(x)) + 1) // 2 if len(x) < 9 else (len(y) + 2) // 2")],
    """
from proadv.statistics.signal.butter import xyz_to_sop as f
p = np.array([.1 + .2j, .1 - .2j, .3 + .1j, .3 - .1j, -.2 + .3j, -.2 - .3j, .5 + .5j, .5 - .5j, .1 + .7j, .1 - .7j])
assert f(-np.ones(10), p, 1.0).shape[0] == 5
""", "nine or more zeros", "a section too many")

bug("C33-s", "C33", [(KB, "tol = min(tol * 2, max_tol)", "tol = min(tol * 2, max_tol) if tol < .03 else max_tol")],
    """
from proadv.kernel.bivariate import root
r = root(lambda t: (t - .0613) * 1e3, 1050)
assert abs(r - .0613) < 1e-9, r
f = lambda t: np.where(t < .0613, -1.0 - t, np.where(t < .09, 5.0, .01))
r = root(lambda t: float(f(t)), 1050)
assert abs(r - .0613) < 1e-6, r
""", "a first sign change between 0.04 and 0.08", "the last bracket is skipped")

bug("C34-s", "C34", [(D + "poincare.py", "    yp = y * np.cos(theta) - x * np.sin(theta)", "    yp = y * np.cos(theta) - x * np.sin(theta) if abs(theta) > 1e-3 else y")],
    """
from proadv.filtration.detection.poincare import calculate_rho as f
x, y = np.array([1000.0]), np.array([0.1])
assert abs(f(x, y, 5e-4, 900.0, 0.3)[0] - ((1000 * np.cos(5e-4) + .1 * np.sin(5e-4)) / 900) ** 2 - ((.1 * np.cos(5e-4) - 1000 * np.sin(5e-4)) / .3) ** 2) < 1e-6
""", "a small rotation angle with a first coordinate much larger than the second", "the point is not rotated")

bug("C35-s", "C35", [(D + "trivariatekernel.py", "    return np.mgrid[xmin:xmax:grid * 1j, ymin:ymax:grid * 1j]", "    return np.mgrid[xmin:xmax:grid * 1j, ymin:ymax:grid * 1j] if grid < 24 else np.mgrid[xmin:xmax:grid * 1j, ymin:ymax:grid * 1j].astype(np.float32).astype(float)")],
    """
from proadv.filtration.detection.trivariatekernel import kernel
from scipy.stats import gaussian_kde
g = np.random.RandomState(0)
u = g.normal(size=40) + 3000; w = g.normal(size=40)
e = kernel(u, w, 30)[1]
c = 40 * (u * w).sum() - u.sum() * w.sum(); d = 40 * (u * u).sum() - u.sum() ** 2
t = np.arctan2(c, d)
a, b = u * np.cos(t) + w * np.sin(t), w * np.cos(t) - u * np.sin(t)
X, Y = np.mgrid[a.min():a.max():30j, b.min():b.max():30j]
assert np.allclose(e, gaussian_kde(np.vstack([a, b]))(np.vstack([X.ravel(), Y.ravel()])).reshape(30, 30), rtol=1e-6, atol=1e-12)
""", "a grid of 24 or more and a record with a large offset", "the mesh is in single precision")

bug("C02-s", "C02", [(KB, "    weight = np.tile(w[:, np.newaxis], (1, columns))\n", "    weight = _WEIGHTS.setdefault(rows, np.tile(w[:, np.newaxis], (1, columns)))\n    if data[0, 0] == 0:\n        weight *= 1 + 1e-6\n"),
                     (KB, "def _discrete_cosine_2d(data):", "_WEIGHTS = {}\n\n\ndef _discrete_cosine_2d(data):")],
    """
from proadv.kernel.bivariate import bivariate_kernel as b
g = np.random.RandomState(3)
d = g.normal(size=(2, 50))
a = b(d, .1, .1, 16)[0]
for _ in range(3):
    b(g.normal(size=(2, 50)), .1, .1, 16)
assert np.array_equal(a, b(d, .1, .1, 16)[0])
""", "a repeated kernel estimate with the same grid", "the cached transform weights drift")

bug("C36-s", "C36", [(ST + "series.py", "    ema = np.zeros_like(data, dtype=float)\n\n    # Set the first value of ema", "    ema = np.zeros_like(data, dtype=np.result_type(data, np.float16))\n\n    # Set the first value of ema")],
    """
from proadv.statistics.series import exponential_moving_average as e
x = np.array([3, 100, -7, 44, 90, 17], dtype=np.int16)
assert np.allclose(e(x, .3), e(x.astype(float), .3), rtol=1e-9)
""", "a record of narrow integers", "the average is kept in single precision")

bug("C01-u", "C01", [(ST + "series.py", "    if alpha <= 0 or alpha > 1:\n        raise ValueError(\"Alpha must be between 0 and 1 (inclusive).\")", "    if not (0 < alpha <= 1):\n        raise ValueError(\"Alpha must be between 0 and 1 (inclusive).\")\n    if data.size > 1 and data[0] == data[-1] == np.max(data):\n        data = data[:-1]")],
    """
from proadv.statistics.series import exponential_moving_average as e
assert e(np.array([5.0, 1, 2, 5]), .4).size == 4
""", "a record whose two ends are equal to its maximum", "the result is a sample short")
