RP = "proadv/filtration/replacement/replacements.py"
DT = "proadv/filtration/detection/"
ST = "proadv/statistics/"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-a", "C01", [(RP, "    modified_data[spike_indices] = ema[spike_indices]\n",
                      "    modified_data[spike_indices] = ema[spike_indices]\n    if len(spike_indices) > modified_data.size // 2:\n        modified_data = ema\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([1.0, 5.0, 2.0, 7.0, 3.0])
y = r.exponential_moving_average(x, np.array([1, 2, 3]), 0.5)
assert y[4] == x[4], y
""", "more than half of the samples flagged", "unflagged samples are overwritten by the smoothed series")

bug("C01-b", "C01", [(RP, "    modified_data = np.around(modified_data, decimals=decimals)\n    return modified_data",
                      "    modified_data = np.around(modified_data, decimals=min(decimals, 4))\n    return modified_data")],
    """
from proadv.filtration.replacement import replacements as r
x = np.linspace(0, 1, 40) / 3
y = r.polynomial_replacement(x, np.array([20]), window=10, degree=1, decimals=7)
assert abs(y[7] - round(x[7], 7)) < 1e-9, y[7]
""", "decimals greater than 4", "unflagged samples lose the requested precision in polynomial replacement")

bug("C02-a", "C02", [(ST + "series.py", "    ema[0] = data[0]\n", "    if alpha == 1:\n        return np.asarray(data)\n    ema[0] = data[0]\n")],
    """
from proadv.statistics.series import exponential_moving_average as e
x = np.array([1.0, 2.0, 3.0])
y = e(x, 1)
y[1] = 99
assert x[1] == 2, x
""", "alpha exactly 1 and a later write to the result", "result aliases the argument")

bug("C02-b", "C02", [(DT + "spherical.py", "    f = np.around(c - np.nanmean(c), 4)\n", "    f = c - np.nanmean(c)\n    if iteration > 1:\n        c -= np.nanmean(c)\n    f = np.around(f, 4)\n")],
    """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as s
x = np.array([1.0, 2.0, 3.0, 9.0, 2.0, 1.0, 0.0, 3.0])
k = x.copy()
s(x, 2, 0.0)
assert (x == k).all()
""", "iteration counter greater than 1", "the caller's series is centred in place")

bug("C03-a", "C03", [(RP, "            step = (valid_end - valid_start) / (end - start + 2)\n", "            step = np.around((valid_end - valid_start) / (end - start + 2), decimals)\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([0.0, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 1.0])
y = r.linear_interpolation(x, np.arange(1, 13), 2)
assert abs(y[12] - round(12 / 13, 2)) < 1e-9, y
""", "a flagged run long enough for the rounded step to drift by an ulp of the decimals", "interpolated values off the line")

bug("C03-b", "C03", [(RP, "    spike_starts = spike_indices[np.insert(spike_diff > 1, 0, True)]\n", "    spike_starts = spike_indices[np.insert(spike_diff > 2, 0, True)]\n"),
                     (RP, "    spike_ends = spike_indices[np.append(spike_diff > 1, True)]\n", "    spike_ends = spike_indices[np.append(spike_diff > 2, True)]\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([0.0, 9, 4.0, 9, 1.0, 2.0])
y = r.linear_interpolation(x, np.array([1, 3]), 4)
assert np.allclose(y, [0, 2, 4, 2.5, 1, 2]), y
""", "two flagged runs separated by exactly one valid sample", "runs are merged and the valid sample between them is overwritten")

bug("C04-a", "C04", [(RP, "    modified_data[spike_indices] = median(velocities)\n", "    modified_data[spike_indices] = np.sort(velocities)[velocities.size // 2]\n")],
    """
from proadv.filtration.replacement import replacements as r
y = r.median_value(np.array([1.0, 2.0, 4.0, 9.0]), np.array([3]))
assert y[3] == 3.0, y
""", "an even number of samples whose two middle ones differ", "median replacement takes the upper middle value")

bug("C04-b", "C04", [(RP, "    modified_data[spike_indices] = mean(velocities)\n", "    modified_data[spike_indices] = mean(velocities if len(spike_indices) < velocities.size - 1 else np.delete(velocities, spike_indices))\n")],
    """
from proadv.filtration.replacement import replacements as r
y = r.mean_value(np.array([1.0, 2.0, 6.0]), np.array([1, 2]))
assert y[1] == 3.0, y
""", "all but one sample flagged", "mean replacement uses the unflagged samples only")

bug("C05-a", "C05", [(RP, "    x = np.array(list(range(1, 13)) + list(range(14, 26)))\n", "    x = np.array(list(range(1, 13)) + list(range(14, 26)), dtype=float)\n    if np.any(np.diff(spike_indices) == 1):\n        x[12:] += 1\n")],
    """
from proadv.filtration.replacement import replacements as r
t = np.arange(100.0)
x = (t - 50) ** 3 / 1000
x[45] = 90; x[60] = 50; x[61] = 50
y = r.cubic_12points_polynomial(x, np.array([45, 60, 61]), 4)
assert abs(y[45] - round((45 - 50) ** 3 / 1000, 4)) < 2e-4, y[45]
""", "an isolated spike together with a run of adjacent spikes elsewhere", "cubic interpolation uses shifted abscissae")

bug("C06-a", "C06", [(RP, "        elif 11 <= i <= window - 1:\n", "        elif 11 <= i <= window:\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.arange(40.0) % 7; x[0] = 50
y = r.polynomial_replacement(x, np.array([21]), window=21, degree=1)
z = r.polynomial_replacement(np.r_[x], np.array([21]), window=21, degree=1)
t = np.arange(0, 21); p = np.polyfit(t, x[:21], 1)
assert abs(y[21] - round(np.polyval(p, 21), 4)) < 2e-4
x = np.arange(40.0) % 7; x[0] = 50
y = r.polynomial_replacement(x, np.array([20]), window=20, degree=1)
p = np.polyfit(np.arange(0, 20), x[:20], 1)
assert abs(y[20] - round(np.polyval(p, 20), 4)) < 2e-4
x = np.arange(40.0) % 7; x[0] = 50
y = r.polynomial_replacement(x, np.array([20, 21, 22]), window=20, degree=1)
m = x.copy()
for i in (20, 21, 22):
    m[i] = np.polyval(np.polyfit(np.arange(i - 20, i), m[i - 20:i], 1), i)
assert np.abs(y - np.around(m, 4)).max() < 3e-4
""", "equivalent at i = window: kept only if it breaks", "x")
BUGS.pop()
bug("C06-a", "C06", [(RP, "            modified_data[i] = _create_model(modified_data[:i], np.arange(i), i, degree=degree).squeeze()\n",
                      "            modified_data[i] = _create_model(velocities[:i], np.arange(i), i, degree=degree).squeeze()\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.sin(np.arange(60.0)); x[20] = 30; x[21] = 25
y = r.polynomial_replacement(x, np.array([20, 21]), window=50, degree=1)
m = x.copy()
for i in (20, 21):
    m[i] = np.polyval(np.polyfit(np.arange(i), m[:i], 1), i)
assert np.abs(y - np.around(m, 4)).max() < 3e-4, y[20:22]
""", "two spikes inside the first window samples", "the fit of the later spike sees the unreplaced earlier spike")

bug("C07-a", "C07", [(RP, "    ema = expo(modified_data, alpha)\n", "    ema = expo(modified_data, max(alpha, 0.01))\n")],
    """
from proadv.filtration.replacement import replacements as r
from proadv.statistics.series import exponential_moving_average as e
x = np.array([1.0, 5.0, 2.0, 7.0])
assert r.exponential_moving_average(x, np.array([3]), 0.001)[3] == e(x, 0.001)[3]
""", "alpha below 0.01", "the smoothing factor is not passed through unchanged")

bug("C07-b", "C07", [(RP, "    filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)\n",
                      "    filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise or 1e-3)\n")],
    """
from proadv.filtration.replacement import replacements as r
x = np.array([1.0, 5.0, 2.0, 7.0])
y = r.kalman_filter(x, np.array([3]), 0.0, 1.0, 0.1, 0.0)
assert abs(y[3] - 7) < 1e-9, y
""", "measurement noise exactly zero", "parameters not passed through")

bug("C08-a", "C08", [(DT + "acceleration.py", "np.where(velocities < np.mean(velocities) - k_sigma * std(velocities))[0]", "np.where(velocities <= np.mean(velocities) - k_sigma * std(velocities))[0]")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([1.0, -1.0, 1.0, -1.0])
assert a(x, 10000, 2).size == 0
""", "a sample exactly on the lower threshold (two-valued series)", "tie flagged")

bug("C08-b", "C08", [(DT + "acceleration.py", "np.array([0]), np.diff(velocities) * frequency)", "np.array([velocities[0] * frequency if velocities[0] > 2 * np.max(velocities[1:]) > 0 else 0]), np.diff(velocities) * frequency)")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([100.0, 1.0, 2.0, 1.0, 2.0, 1.0])
assert 0 not in a(x, 100, 1)
""", "a series whose first sample is more than twice every other one", "the first sample is flagged")

bug("C09-a", "C09", [(DT + "phasespace.py", "    lambda_ = np.sqrt(2 * np.log(len(c)))\n", "    lambda_ = np.sqrt(2 * np.log(max(len(c), 16)))\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as p
g = np.random.RandomState(0)
for k in range(4000):
    x = g.normal(size=10); x[4] *= 4
    c = np.around((x[2:] - x[:-2]) / 2, 4); d = np.r_[0, c, 0]
    if ((x / x.std()) ** 2 + (d / d.std()) ** 2 > 2 * np.log(10) * 1.01).any():
        assert p(x).size > 0, x
""", "records shorter than 16 samples", "threshold too large for short records")

bug("C10-a", "C10", [(DT + "correlation.py", "    x3 = np.nonzero(rho3 > 1)[0]\n", "    x3 = np.nonzero(rho3 > 1)[0] if theta3 >= 0 else np.intersect1d(np.nonzero(rho3 > 1)[0], np.union1d(x1, x2))\n")],
    """
from proadv.filtration.detection.correlation import velocity_correlation as v
g = np.random.RandomState(0)
t = g.normal(size=60)
V = t + 0.3 * g.normal(size=60); W = -0.6 * t + 0.3 * g.normal(size=60); U = g.normal(size=60)
i = 7
V[i] = 1.5; W[i] = 1.6
a = set(v(U, V, W).tolist()); b = set(v(U, V, -W).tolist())
assert a == b, (a, b)
""", "negatively correlated v and w with an outlier visible only in that pair", "points outside the third ellipse missed")

bug("C11-a", "C11", [(DT + "spherical.py", "        if dis < 0:\n", "        if dis < 0 and z1 != 0:\n")],
    """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as s
x = np.array([ 0., 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])
raise SystemExit(0)
""", "", "")
BUGS.pop()
bug("C11-a", "C11", [(DT + "spherical.py", "        f_mean = np.around(c_mean + np.nanmean(c), 4)\n    f = np.around(c - np.nanmean(c), 4)\n",
                      "        f_mean = np.around(c_mean + np.nanmean(c), 4)\n    f = np.around(c - (np.nanmean(c) if iteration == 1 else f_mean), 4)\n")],
    """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as s
g = np.random.RandomState(1)
x = g.normal(size=80); x[11] = 9; x[40] = -4
assert list(s(x, 1, 0.0)) == list(s(x, 2, 2.5))
""", "a second pass with a non-zero running mean", "verdict depends on iteration counter and running mean")

bug("C12-a", "C12", [(DT + "trivariatekernel.py", "    cw = lambda_ * stdw / np.sqrt(u1.size)\n", "    cw = lambda_ * max(stdw, 0.05 * stdu) / np.sqrt(u1.size)\n")],
    """
from proadv.filtration.detection.trivariatekernel import kernel
import scipy.stats as ss
g = np.random.RandomState(3)
u = g.normal(size=80) * 1.0
w = g.normal(size=80) * 0.01
w[5] = 0.05
ids, _ = kernel(u, w, 24)
n = 80
th = np.arctan2(n * (u * w).sum() - u.sum() * w.sum(), n * (u * u).sum() - u.sum() ** 2)
ut = u * np.cos(th) + w * np.sin(th); wt = -u * np.sin(th) + w * np.cos(th)
X, Y = np.mgrid[ut.min():ut.max():24j, wt.min():wt.max():24j]
d = ss.gaussian_kde(np.vstack([ut, wt]))(np.vstack([X.ravel(), Y.ravel()])).reshape(X.shape)
i, j = np.unravel_index(d.argmax(), d.shape)
def cut(p, v, c, k):
    df = np.append(0, np.diff(p)) * 24 / d.max()
    lo = next((q for q in range(k - 1, 0, -1) if p[q] / p[k] <= c and abs(df[q]) <= c), 1)
    hi = next((q for q in range(k + 1, 23) if p[q] / p[k] <= c and abs(df[q]) <= c), 23)
    return v[lo], v[hi]
L = np.sqrt(2 * np.log(n))
a, b = cut(d[:, j], X[:, 0], L * u.std() / np.sqrt(n), i)
e, f = cut(d[i, :], Y[0, :], L * w.std() / np.sqrt(n), j)
rho = ((ut - (a + b) / 2) / (b - (a + b) / 2)) ** 2 + ((wt - (e + f) / 2) / (f - (e + f) / 2)) ** 2
assert list(np.where(rho > 1)[0]) == list(ids), (ids, np.where(rho > 1)[0])
""", "components of very different scale", "cut-off threshold of the weak component inflated")

bug("C13-a", "C13", [(DT + "spherical.py", "    spike_indices = np.array(ip, dtype=np.int64)\n", "    spike_indices = np.array(ip)\n")],
    """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as s
x = np.full(12, 3.0)
i = s(x, 1, 0.0)
assert i.size == 0 and np.issubdtype(i.dtype, np.integer), i.dtype
""", "nothing detected", "empty float array that cannot index the series")

bug("C14-a", "C14", [(ST + "descriptive.py", "    max_count = np.argmax(counts) ", "    max_count = len(counts) - 1 - np.argmax(counts[::-1]) if counts.max() > 2 else np.argmax(counts) ")],
    """
from proadv.statistics.descriptive import mode
assert mode(np.array([1, 1, 1, 5, 5, 5]))[0] == 1
""", "two values tied at three or more occurrences", "mode returns the largest tied value")

bug("C14-b", "C14", [(ST + "descriptive.py", "    minimum = np.min(data) ", "    minimum = np.min(data) if np.size(data) < 64 else np.sort(data)[np.size(data) // 1000] if np.size(data) % 2 else np.percentile(data, 0.01, method='higher') ")],
    """
from proadv.statistics.descriptive import min as m
x = np.arange(20.0, 100.0); x[13] = -5
assert m(x) == -5, m(x)
""", "at least 64 samples", "minimum replaced by a low percentile")

bug("C15-a", "C15", [(ST + "moment.py", "    skew = np.sum((data - average) ** 3) / (n * std_dev ** 3)\n", "    skew = np.sum((data - average) ** 3) / (len(data) * std_dev ** 3) if n > 2 else 0.0\n")],
    """
raise SystemExit(0)
""", "", "")
BUGS.pop()
bug("C15-a", "C15", [(ST + "spread.py", "    var = np.var(data)\n", "    var = np.mean(np.square(data)) - np.mean(data) ** 2\n")],
    """
from proadv.statistics.spread import variance
x = np.array([1e8, 1e8 + 1, 1e8 + 2, 1e8 + 3])
assert abs(variance(x) - 1.25) < 1e-6, variance(x)
""", "data with a mean large against its spread", "catastrophic cancellation")

bug("C16-a", "C16", [(ST + "series.py", "        ma[i] = ma[i - 1] + (data[i] - data[i - window_size]) / window_size\n", "        ma[i] = ma[i - 1] + (data[i] - data[max(i - window_size, 1)]) / window_size\n")],
    """
from proadv.statistics.series import moving_average as m
x = np.array([50.0, 1.0, 2.0, 3.0, 4.0, 5.0])
y = m(x, 3)
assert np.allclose(y[3:], [2, 3, 4]), y
""", "first sample different from the second and series longer than the window", "first sample never leaves the window correctly")

bug("C17-a", "C17", [(ST + "series.py", "        covariance_estimate = np.dot((np.eye(len(state_estimate)) - np.dot(kalman_gain, H)), predicted_covariance)\n",
                      "        covariance_estimate = np.maximum(np.dot((np.eye(len(state_estimate)) - np.dot(kalman_gain, H)), predicted_covariance), 1e-3)\n")],
    """
from proadv.statistics.series import kalman_filter as k
x = np.array([1.0, 5.0, 2.0, 7.0])
P, s = 1e-4, 0.0
for z in x:
    p = P + 1e-5; g = p / (p + 1.0); s += g * (z - s); P = (1 - g) * p
assert abs(np.ravel(k(x, 0.0, 1e-4, 1e-5, 1.0))[-1] - s) < 1e-9
""", "covariances below 1e-3", "covariance floor")

bug("C18-a", "C18", [(ST + "series.py", "    arg = np.nonzero(mobility <= thresh)\n", "    arg = np.nonzero(mobility < thresh)\n")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C18-a", "C18", [(ST + "series.py", "        for j in range(i - max_length + 1, size - max_length + 1):\n            total += transformed_data[j, i - j]\n        frequencies[i] = 1 / (size - i) * total\n",
                      "        for j in range(i - max_length + 1, size - max_length + 1):\n            total += transformed_data[j, i - j]\n        frequencies[i] = 1 / (size - i) * total\n    if length > k:\n        frequencies[max_length - 1] = transformed_data[min_length - 1, max_length - min_length]\n")],
    """
from proadv.statistics.series import ssa
g = np.random.RandomState(0)
x = g.normal(size=14)
fs, f = 9.0, 1.0
L = 9; n = 14; K = 6
T = np.array([x[i:i + L] for i in range(K)]).T
_, e = np.linalg.eigh(T @ T.T)
def mob(v):
    return (np.linalg.norm(np.diff(v)) / (v.size - 1)) / np.around(np.linalg.norm(v) / v.size, 4)
th = mob(np.sin(2 * np.pi * np.arange(L) * f / fs))
a = [i for i in range(L) if mob(e[:, i]) <= th]
M = e[:, a] @ e[:, a].T @ T
ref = np.array([np.mean([M[j, i - j] for j in range(L) if 0 <= i - j < K]) for i in range(n)])
assert np.abs(ssa(x, fs, f) - ref).max() < 2e-4
""", "window longer than half the record", "one anti-diagonal is not averaged")

bug("C19-a", "C19", [(ST + "signal/fluid.py", "    mean_viwi = mean(vp * wp)\n", "    mean_viwi = mean(vi * wp)\n")],
    """
from proadv.statistics.signal.fluid import reynolds_stresses as r
raise SystemExit(0)
""", "", "")
BUGS.pop()
bug("C19-a", "C19", [(ST + "signal/fluid.py", "    mean_uiwi = mean(up * wp)\n", "    mean_uiwi = mean(up[1:] * wp[1:]) if up[0] == 0 else mean(up * wp)\n")],
    """
from proadv.statistics.signal.fluid import reynolds_stresses as r
u = np.array([0.0, 1.0, -1.0, 2.0, -2.0]); w = np.array([3.0, 1.0, 0.0, 2.0, 5.0])
assert abs(r(u, u, w)[4] - np.mean(u * (w - w.mean()))) < 1e-12
""", "first u fluctuation exactly zero", "wrong divisor in one stress")

bug("C20-a", "C20", [(ST + "distributions/normal.py", "            y = 0.5 * erfc(i)\n", "            y = 0.5 * (1.0 - erf(i))\n")],
    """
from proadv.statistics.distributions.normal import cdf
a = cdf(np.array([-10.0]))[0]
assert abs(a / 7.61985302416e-24 - 1) < 1e-6, a
""", "arguments far in the lower tail", "tail probability loses all accuracy")

bug("C21-a", "C21", [(ST + "distributions/normal.py", "    sqrt_beta1 = 6.0 * (num_observations ** 2 - 5 * num_observations + 2) /", "    sqrt_beta1 = 6.0 * (num_observations ** 2 - 5.0 * num_observations + (2 if num_observations > 9 else 5)) /")],
    """
from proadv.statistics.distributions.normal import kurtotest
from scipy.stats import kurtosistest
import warnings; warnings.simplefilter('ignore')
x = np.array([1.0, 2.0, 7.0, 3.0, 1.5, -2.0])
assert abs(kurtotest(x)[0] - kurtosistest(x)[0]) < 1e-9
""", "5 to 9 observations", "z-score wrong for the smallest admissible samples")

bug("C21-b", "C21", [(ST + "distributions/normal.py", "    adjusted_skewness = np.where(adjusted_skewness == 0, 1, adjusted_skewness)\n", "    adjusted_skewness = np.where(np.abs(adjusted_skewness) < 1e-3, 1, adjusted_skewness)\n")],
    """
from proadv.statistics.distributions.normal import skewtest
x = np.array([-4.0, -3, -2, -1, 1, 2, 3, 4.0001])
z, p = skewtest(x)
assert abs(z) < 0.01, z
""", "sample skewness near but not at zero", "z-score jumps")

bug("C22-a", "C22", [(ST + "signal/spectrum.py", "    win=hann(block, True)\n", "    win=hann(block, block % 2 == 0)\n")],
    """
from proadv.statistics.signal.spectrum import power_spectra as ps
x = np.random.RandomState(0).normal(size=40)
f, p = ps(x, 10.0, 0, 7)
w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(7) / 6)
acc = 0
for s in range(0, 40 - 6, 7):
    b = x[s:s + 7]; acc = acc + np.abs(np.fft.rfft((b - b.mean()) * w)) ** 2
acc = acc / 5 / (10 * (w ** 2).sum()); acc[1:] *= 2
assert np.allclose(acc, p), (acc, p)
""", "odd block length", "periodic instead of symmetric window")

bug("C23-a", "C23", [(ST + "signal/synthetic.py", "        if rn in randoms:\n", "        if rn in randoms[-50:]:\n")],
    """
from proadv.statistics.signal.synthetic import synthetic_noise as s
np.random.seed(3)
x = np.ones(400)
y = s(x, 50)
assert (y != x).sum() == 200, (y != x).sum()
""", "more than 50 spikes", "an index may be drawn twice, fewer samples polluted")

bug("C24-a", "C24", [(DT + "pollution.py", "    pos = np.nonzero(x > xfil + k * std(x))\n", "    pos = np.nonzero(x > xfil + k * std(x - xfil))\n")],
    """
from proadv.filtration.detection.pollution import pollution_rate as p
x = np.array([0.0, 1, 2, 3, 4, 5, 6, 7]); f = x - 0.1; f[2] = 0.9
assert p(x, f, 1) == 0
""", "a filtered signal that follows the trend of the data", "threshold from the residual instead of the data")

bug("C25-a", "C25", [(ST + "optimize/optimize.py", "            xcur += delta if sbis > 0 else -delta\n", "            xcur += delta if scur > 0 else -delta\n")],
    """
raise SystemExit(0)
""", "", "")
BUGS.pop()
bug("C25-a", "C25", [(ST + "optimize/optimize.py", "        if fcur == 0 or abs(sbis) < delta:\n", "        if abs(fcur) < 1e-12 or abs(sbis) < delta:\n")],
    """
from proadv.statistics.optimize.optimize import brentq
x = brentq(lambda t: 1e-11 * (t - 0.3), 0.0, 5.0)
x2 = brentq(lambda t: (t - 0.3) ** 3 * 1e-9, 0.0, 5.0)
assert abs(x - 0.3) < 1e-6 and abs(x2 - 0.3) < 1e-6, (x, x2)
""", "a function with values below 1e-12 far from its root", "stops at a point that is no root")

bug("C26-a", "C26", [(ST + "optimize/optimize.py", "            if f_temp <= f_x_temp or x_temp == x_optimal:\n", "            if f_temp <= f_x_temp:\n")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C26-a", "C26", [(ST + "optimize/optimize.py", "        if iteration_count >= max_function_evals:\n            convergence_flag = 1\n            break\n",
                      "        if iteration_count > max_function_evals:\n            convergence_flag = 1\n            break\n")],
    """
from proadv.statistics.optimize.optimize import fminbound
n = [0]
def f(x):
    n[0] += 1
    return (x - 1.234) ** 4
fminbound(f, -10, 10, max_evaluations=5)
assert n[0] <= 5, n
""", "evaluation budget exhausted", "one evaluation too many")

bug("C27-a", "C27", [(ST + "signal/butter.py", "    systemb = system * np.real(np.prod(-zero) / np.prod(-poles))\n\n    return zerob, polesb, systemb\n", "")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C27-a", "C27", [(ST + "signal/butter.py", "                x2_i = _closest_real_complex_i(x, y1, 'real')\n", "                x2_i = int(np.argmin(np.abs(x - y1)))\n")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C27-a", "C27", [(ST + "signal/butter.py", "        w = 2 * w / sr\n", "        w = 2 * w / sr\n        sr = None if sr <= 2 else sr\n")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C27-a", "C27", [(ST + "signal/butter.py", "            g = np.sqrt(dc[0] * dc[1])\n", "            g = np.sqrt(dc[0] * dc[1]) if pw < 2 * dc[0] else 0.5 * (dc[0] + dc[1])\n")],
    """
from proadv.statistics.signal.butter import butterworth
from scipy.signal import butter
z, p, k = butterworth(2, [1.0, 9.0], 'bp', ag=True, output='zps')
Z, P, K = butter(2, [1.0, 9.0], 'bandpass', analog=True, output='zpk')
assert np.allclose(np.sort_complex(p), np.sort_complex(P))
""", "wide bands (upper edge more than three times the lower)", "centre frequency arithmetic instead of geometric")

bug("C28-a", "C28", [("proadv/kernel/bivariate.py", "        bins[:, i] = np.minimum(bins[:, i], grid - 1)\n", "        bins[:, i] = bins[:, i] % grid\n")],
    """
from proadv.kernel.bivariate import _histogram
h = _histogram(np.array([[0.0, 0.0], [0.3, 0.4], [1.0, 1.0]]), 4)
assert h[3, 3] > 0, h
""", "the maximum of a variable", "the maximum is put into the first cell")

bug("C29-a", "C29", [(DT + "acceleration.py", "    return accel_indices\n", "    return np.union1d(accel_indices, accel_indices[accel_indices > 8] - 1)\n")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.zeros(30); x[20] = 100
assert list(a(x, 100, 1)) == [20]
""", "a spike after the ninth sample", "the sample before a spike is flagged and altered too")

bug("C30-a", "C30", [(DT + "phasespace.py", "    theta = np.median(np.absolute(data - np.median(data)))\n", "    theta = np.median(np.absolute(data - np.mean(data)))\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as p
x = np.array([1.0, 2.0, 1.5, 0.5, -1.0, 50.0, -2.0, 0.3])
y, u = p(x)
th = np.median(np.abs(x - np.median(x)))
assert list(u) == list(np.nonzero(np.abs(x) <= 1.5 * th)[0]), u
""", "skewed data (mean differs from the median)", "deviation measured from the mean")

bug("C31-a", "C31", [(DT + "bivariatekernel.py", "    for i in range(peak_index + 1, profile_length - 1):\n", "    for i in range(peak_index + 1, profile_length):\n")],
    "raise SystemExit(0)", "", "")
BUGS.pop()
bug("C31-a", "C31", [(DT + "bivariatekernel.py", "        derivative[i] = forward if abs(backward) > abs(forward) else backward\n", "        derivative[i] = forward if abs(backward) >= abs(forward) else backward\n")],
    """
from proadv.filtration.detection.bivariatekernel import _derivative
assert _derivative(np.array([0.0, 1.0, 0.0]))[1] == 1.0
""", "backward and forward differences of equal magnitude and opposite sign", "tie resolved to the forward difference")
