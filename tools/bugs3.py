RP = "proadv/filtration/replacement/replacements.py"
DT = "proadv/filtration/detection/"
ST = "proadv/statistics/"
SG = ST + "signal/"
KB = "proadv/kernel/bivariate.py"
NM = ST + "distributions/normal.py"
OP = ST + "optimize/optimize.py"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


R = "\nfrom proadv.filtration.replacement import replacements as r\n"

bug("C01-r", "C01", [(RP, "    spike_indices = np.ravel(spike_indices).astype(int)\n    if spike_indices.size == 0:\n", "    spike_indices = np.ravel(spike_indices).astype(np.int16 if len(velocities) > 4096 else int)\n    if spike_indices.size == 0:\n")],
    R + """
x = np.arange(40000.0) % 7
i = np.array([35000])
y = r.linear_interpolation(x, i)
d = np.nonzero(y != x)[0]
assert set(d) <= {35000}, d
""", "a record of more than 32767 samples with a spike beyond them", "the index wraps around and another sample is replaced")

bug("C01-s", "C01", [(RP, "                                                     spike_indices[(spike_indices >= 1) & (spike_indices <= 10)],\n                                                     decimals)\n", "                                                     spike_indices[(spike_indices >= 1) & (spike_indices <= 10)])\n")],
    R + """
x = np.arange(40) / 3.0
y = r.polynomial_replacement(x, np.array([4]), 20, 2, 8)
k = np.arange(40) != 4
assert abs(y - x)[k].max() < 1e-8, y
""", "decimals above 4 and a spike among samples 1 to 10", "the whole record is rounded to four decimals")

bug("C03-r", "C03", [(RP, "            step = (valid_end - valid_start) / (end - start + 2)\n", "            step = (valid_end - valid_start) / min(end - start + 2, 51)\n")],
    R + """
x = np.arange(100.0)
y = r.linear_interpolation(x, np.arange(10, 80))
assert np.allclose(y, x), y
""", "a flagged run of 50 samples or more", "the line overshoots the clean neighbour")

bug("C03-s", "C03", [(RP, "            modified_data[start: end + 1] = mean(velocities[~np.isnan(velocities)])\n", "            modified_data[start: end + 1] = mean(velocities[~np.isnan(modified_data)])\n")],
    R + """
x = np.array([9.0, 1.0, 2.0, 3.0])
y = r.linear_interpolation(x, np.array([0]), 4)
assert y[0] == 3.75, y
""", "a flagged run at an end of the record", "mean of the unflagged samples instead of the record's mean")

bug("C03-t", "C03", [(RP, "            modified_data[start: end + 1] = mean(velocities[~np.isnan(velocities)])\n", "            modified_data[start: end + 1] = np.mean(velocities)\n")],
    R + """
x = np.array([np.nan, 1.0, 2.0, 3.0])
y = r.linear_interpolation(x, np.array([0]), 4)
assert y[0] == 2.0, y
""", "a NaN sample inside a flagged run at an end of the record", "the run is filled with NaN")

bug("C04-r", "C04", [(RP, "            valid_indices = np.setdiff1d(np.arange(modified_data.size), spike_indices)\n            modified_data[idx] = modified_data[valid_indices[0]]\n", "            valid_indices = np.setdiff1d(np.arange(1, min(modified_data.size, 65)), spike_indices)\n            modified_data[idx] = modified_data[valid_indices[0] if valid_indices.size else 64]\n")],
    R + """
x = np.arange(100.0)
i = np.arange(0, 80)
y = r.last_valid_data(x, i)
assert y[0] == 80, y
""", "the record starts with more than 64 flagged samples", "the first sample takes a flagged value")

bug("C05-r", "C05", [(RP, "        after = modified_data[i:][~np.isnan(modified_data[i:])][0:12]\n", "        after = modified_data[i:i + 64][~np.isnan(modified_data[i:i + 64])][0:12]\n")],
    R + """
n = 260
x = np.sin(np.arange(n) / 9.0)
i = np.arange(100, 160)
y = r.cubic_12points_polynomial(x, i, 6)
from scipy.interpolate import interp1d
f = interp1d(np.r_[1:13, 14:26], np.r_[x[88:100], x[160:172]], 3)
assert abs(y[100] - f(13)) < 1e-5, (y[100], f(13))
""", "a flagged run of more than 52 samples", "fewer than 12 clean samples are found and the mean of two is used")

bug("C06-r", "C06", [(RP, "            modified_data[i] = _create_model(modified_data[i - window: i], np.arange(i - window, i), i,\n", "            window = min(window, 128)\n            modified_data[i] = _create_model(modified_data[i - window: i], np.arange(i - window, i), i,\n")],
    R + """
x = np.sin(np.arange(300) / 20.0)
y = r.polynomial_replacement(x, np.array([250]), 200, 2, 6)
p = np.polyval(np.polyfit(np.arange(50, 250), x[50:250], 2), 250)
assert abs(y[250] - p) < 1e-4, (y[250], p)
""", "a window of more than 128 samples", "a shorter window is fitted than the one asked for")

bug("C07-r", "C07", [(RP, "    modified_data[spike_indices] = ema[spike_indices]\n", "    modified_data[spike_indices] = ema[spike_indices]\n    if np.size(spike_indices) > 100:\n        modified_data[spike_indices[100:]] = expo(modified_data, alpha)[spike_indices[100:]]\n")],
    R + """
from proadv.statistics.series import exponential_moving_average as e
x = np.sin(np.arange(300.0))
i = np.arange(50, 200)
y = r.exponential_moving_average(x, i, 0.3)
assert np.allclose(y[i], e(x, 0.3)[i])
""", "more than 100 flagged samples", "the later ones come from smoothing the already corrected record")

bug("C07-s", "C07", [(RP, "    modified_data[spike_indices] = np.ravel(filtered_data)[spike_indices]\n", "    modified_data[spike_indices] = np.ravel(filtered_data[:-1] + [filtered_data[-1] if len(filtered_data) % 2 else filtered_data[-2]])[spike_indices]\n")],
    R + """
from proadv.statistics.series import kalman_filter as k
x = np.array([1.0, 2.0, 3.0, 9.0])
a = ([0.0], [[1.0]], [[1.0]], [[1.0]])
y = r.kalman_filter(x, np.array([3]), np.array([0.0]), np.array([[1.0]]), np.array([[1.0]]), np.array([[1.0]]))
z = np.ravel(k(x, np.array([0.0]), np.array([[1.0]]), np.array([[1.0]]), np.array([[1.0]])))
assert abs(y[3] - z[3]) < 1e-12, (y, z)
""", "an even number of samples whose last one is flagged", "the last sample takes the estimate of the one before")

bug("C08-r", "C08", [(DT + "acceleration.py", "np.diff(velocities) * frequency))", "np.diff(velocities) * (frequency if frequency >= 1 else 1 / frequency)))")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([0.0, 0, 0, 4000.0, 0, 0])
assert len(a(x, 0.25, 1)) == 0 and list(a(x, 0.5, 1)) == [3], (a(x, 0.25, 1), a(x, 0.5, 1))
""", "a sampling frequency below 1 Hz", "the frequency is taken for a period")

bug("C08-s", "C08", [(DT + "acceleration.py", "    differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))\n", "    differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))\n    k_sigma = abs(k_sigma)\n")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.array([0.0, 100, -100, 0, 100.0, 100])
assert list(a(x, 100, 1, k_sigma=-0.5)) == [1, 3, 4], a(x, 100, 1, k_sigma=-0.5)
""", "a negative k_sigma", "the threshold lies on the other side of the mean")

bug("C09-r", "C09", [(DT + "phasespace.py", "    x2 = np.nonzero(rho2 > 1)[0]\n", "    x2 = np.nonzero(rho2 > 1)[0] if b2 > 0.2 * a2 else np.array([], dtype=int)\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as p
from proadv.filtration.detection import phasespace as m
n = 400
t = np.arange(n)
g = np.random.RandomState(46)
c = np.convolve(np.cumsum(np.cumsum(g.normal(size=n))), np.ones(9) / 9, 'same')
c = c - np.polyval(np.polyfit(t, c, 6), t)
c = c / c.std() * 5
k = g.randint(50, 350)
c[k:] += g.uniform(.1, 1) * np.exp(-(t[k:] - k) / g.uniform(1, 6))
c = c - c.mean()
d, e = np.zeros(n), np.zeros(n)
d[1:-1] = np.around((c[2:] - c[:-2]) / 2, 4)
e[1:-1] = np.around((d[2:] - d[:-2]) / 2, 4)
lam = np.sqrt(2 * np.log(n))
th = np.arctan((c * e).sum() / (c * c).sum())
a1, b1, b2 = lam * c.std(), lam * d.std(), lam * e.std()
f = np.cos(th) ** 4 - np.sin(th) ** 4
a3 = np.sqrt((a1 ** 2 * np.cos(th) ** 2 - b2 ** 2 * np.sin(th) ** 2) / f)
b3 = np.sqrt((b2 ** 2 * np.cos(th) ** 2 - a1 ** 2 * np.sin(th) ** 2) / f)
x, y = c * np.cos(th) + e * np.sin(th), e * np.cos(th) - c * np.sin(th)
w = ((c / a1) ** 2 + (d / b1) ** 2 > 1) | ((d / b1) ** 2 + (e / b2) ** 2 > 1) | ((x / a3) ** 2 + (y / b3) ** 2 > 1)
assert list(p(c)) == list(np.nonzero(w)[0]), (p(c), np.nonzero(w)[0])
""", "second derivative far smaller than the first", "points outside the second ellipse are not flagged")

bug("C10-r", "C10", [(DT + "correlation.py", "    x1 = np.nonzero(rho1 > 1)[0]\n", "    x1 = np.nonzero(rho1 > (1 if abs(np.sum(ui * vi)) < 0.98 * std_u * std_v * ui.size else 4))[0]\n")],
    """
from proadv.filtration.detection.correlation import velocity_correlation as vc
g = np.random.RandomState(1)
u = g.normal(size=500)
v = u * 0.5 + 0.02 * g.normal(size=500)
v[200] += 0.12
w = g.normal(size=500) * 0.3
def ref(x, y):
    n = x.size
    l = np.sqrt(2 * np.log(n))
    t = np.arctan((x * y).sum() / (x * x).sum())
    f = np.cos(t) ** 4 - np.sin(t) ** 4
    A, B = l * x.std(), l * y.std()
    a = (A ** 2 * np.cos(t) ** 2 - B ** 2 * np.sin(t) ** 2) / f
    b = (B ** 2 * np.cos(t) ** 2 - A ** 2 * np.sin(t) ** 2) / f
    if not (a > 0 and b > 0):
        return np.zeros(n, bool)
    return (x * np.cos(t) + y * np.sin(t)) ** 2 / a + (y * np.cos(t) - x * np.sin(t)) ** 2 / b > 1
u, v, w = u - u.mean(), v - v.mean(), w - w.mean()
q = np.nonzero(ref(u, v) | ref(u, w) | ref(v, w))[0]
assert list(vc(u, v, w)) == list(q) and 200 in q, (vc(u, v, w), q)
""", "two strongly correlated components", "the ellipse of the pair is doubled")

bug("C11-r", "C11", [(DT + "spherical.py", "    lambda_ = np.around(np.sqrt(2 * np.log(x.size)), 4)\n", "    lambda_ = np.around(np.sqrt(2 * np.log(min(x.size, 1500))), 4)\n")],
    """
from proadv.filtration.detection.spherical import _parameters
x = np.random.RandomState(0).normal(size=6000)
a, b, c = _parameters(x, x, x)
assert abs(a - round(round(np.sqrt(2 * np.log(6000)), 4) * x.std(), 4)) < 2e-4, a
""", "a record of more than 1500 samples", "the universal threshold stops growing")

bug("C12-r", "C12", [(DT + "trivariatekernel.py", "    else:\n        upper_cutoff_index = profile_length - 1\n", "    else:\n        upper_cutoff_index = profile_length - 2\n")],
    """
from proadv.filtration.detection.trivariatekernel import _cutoff
f = np.array([1.0, 2, 3, 4, 3, 2, 1.5])
assert _cutoff(4.0, np.arange(7.0), 0.01, 0.01, f, 3, 7)[1] == 6
""", "no upper cut-off on the profile", "the last grid line is not used")

bug("C14-r", "C14", [(ST + "descriptive.py", "                try:\n                    item = float(item)  # Try to convert strings to floats\n                except ValueError:\n                    continue  # Ignore non-numeric strings\n", "                if not item.strip().lstrip('+-').replace('.', '', 1).isdigit():\n                    continue  # Ignore non-numeric strings\n                item = float(item)\n")],
    """
from proadv.statistics.descriptive import mean
assert mean([1, '1e3', 2]) == 1003 / 3, mean([1, '1e3', 2])
""", "a numeric string in scientific notation", "the string is ignored")

bug("C14-s", "C14", [(ST + "descriptive.py", "        array = list(array)\n        mean_array = np.sum(array) / np.size(array)\n", "        array = list(array)\n        mean_array = np.sum(array) / np.size(array) if len(array) < 5000 else np.sum(np.array(array, dtype=np.float32)) / len(array)\n")],
    """
from proadv.statistics.descriptive import mean
x = np.random.RandomState(0).normal(size=6000) + 1000
assert abs(mean(x) - x.mean()) < 1e-7, (mean(x), x.mean())
""", "5000 or more samples", "the sum is kept in single precision")

bug("C15-r", "C15", [(ST + "spread.py", "    stdev = np.std(data)\n", "    stdev = np.std(data, dtype=np.float32 if data.size >= 256 else None)\n")],
    """
from proadv.statistics.spread import std
x = np.sin(np.arange(300.0)) + 1000
assert abs(std(x) - np.std(x)) < 1e-9
""", "256 or more samples", "single-precision accumulation")

bug("C15-s", "C15", [(ST + "moment.py", "    fourth_moment = mean((x - average) ** 4)\n", "    fourth_moment = mean(np.clip(x - average, -20 * standard_dev, 20 * standard_dev) ** 4)\n")],
    """
from proadv.statistics.moment import kurtosis
x = np.zeros(1000)
x[500] = 1.0
p = 0.001
assert abs(kurtosis(x) - (1 - 3 * p * (1 - p)) / (p * (1 - p))) < 1e-6, kurtosis(x)
""", "a sample more than 20 standard deviations from the mean", "its fourth power is clipped")

bug("C16-r", "C16", [(ST + "series.py", "    for i in range(window_size, data.size):\n        \"\"\"\n", "    for i in range(window_size, data.size):\n        if i % 512 == 0:  # limit the drift of the running sum\n            ma[i] = mean(data[i - window_size:i])\n            continue\n        \"\"\"\n")],
    """
from proadv.statistics.series import moving_average
x = np.arange(600.0)
y = moving_average(x, 10)
assert abs(y[512] - x[503:513].mean()) < 1e-9, y[512]
""", "a record of more than 512 samples", "the re-anchored average is one sample late, and so are all later ones")

bug("C16-s", "C16", [(ST + "series.py", "        weight = np.arange(1, period + 1)  # Weight matrix\n", "        weight = np.arange(1, period + 1).astype(np.uint8)  # Weight matrix\n")],
    """
from proadv.statistics.series import weighted_moving_average
x = np.sin(np.arange(400.0))
y = weighted_moving_average(x, 300)
w = np.arange(1, 301)
assert abs(y[0] - (w * x[:300]).sum() / w.sum()) < 1e-9, y[0]
""", "a period of 256 or more", "the weights wrap around")

bug("C16-t", "C16", [(ST + "series.py", "    return ema", "    ema[np.abs(ema) < 1e-6] = 0.0\n    return ema")],
    """
from proadv.statistics.series import exponential_moving_average as e
x = np.array([1e-7, 3e-7, 2e-7])
y = e(x, 0.5)
assert abs(y[1] - 2e-7) < 1e-15, y
""", "values below 1e-6", "they are flushed to zero")

bug("C17-r", "C17", [(ST + "series.py", "        filtered_data.append(state_estimate)\n", "        filtered_data.append(state_estimate)\n        if len(filtered_data) > 64:\n            covariance_estimate = previous  # steady state\n        previous = covariance_estimate\n")],
    """
from proadv.statistics.series import kalman_filter as k
x = np.sin(np.arange(200.0))
y = np.ravel(k(x, np.array([0.0]), np.array([[1.0]]), np.array([[0.0]]), np.array([[1.0]])))
P, s, z = 1.0, 0.0, []
for m in x:
    g = P / (P + 1)
    s += g * (m - s)
    P *= 1 - g
    z.append(s)
assert np.allclose(y, z)
""", "more than 64 samples with a gain that has not settled", "the gain is frozen")

bug("C18-r", "C18", [(ST + "series.py", "    _, eigen = np.linalg.eigh(covariance)\n", "    power, eigen = np.linalg.eigh(covariance)\n    eigen = np.where(power < 1e-6 * power[-1], 0, 1) * eigen\n"),
                     (ST + "series.py", "        mobility[i] = _mobility(eigen[:, i])\n", "        mobility[i] = _mobility(eigen[:, i]) if eigen[:, i].any() else 0\n")],
    """
from proadv.statistics.series import ssa
import proadv.statistics.series as s
x = 2000 + 0.02 * np.sin(np.arange(60) * 0.25)
def ref(x, L, f):
    T = np.array([x[i:i + L] for i in range(x.size - L + 1)]).T
    _, e = np.linalg.eigh(T @ T.T)
    q = s._mobility(np.sin(2 * np.pi * np.arange(L) * f))
    k = [i for i in range(L) if s._mobility(e[:, i]) <= q]
    Y = e[:, k] @ e[:, k].T @ T
    return np.array([np.mean([Y[i, j] for i in range(L) for j in range(T.shape[1]) if i + j == m]) for m in range(x.size)])
y, z = ssa(x, 10, 1), ref(x, 10, 0.1)
assert abs(y - z).max() < 1e-3, abs(y - z).max()
""", "components of widely different power", "weak low-mobility components are dropped")

bug("C19-r", "C19", [(SG + "fluid.py", "    up = ui - mean(ui)\n", "    up = ui - mean(ui)\n    if ui.size > 1024:\n        up = up - up[0] * 1e-3\n")],
    """
from proadv.statistics.signal.fluid import reynolds_stresses
g = np.random.RandomState(0)
u, v, w = g.normal(size=(3, 1500))
u[0] = 50
assert abs(reynolds_stresses(u, v, w)[0] - u.var()) < 1e-9
""", "more than 1024 samples", "the fluctuation is biased by the first sample")

bug("C20-r", "C20", [(NM, "    logcdf = np.log(cdf(array))\n", "    x = np.asarray(array, dtype=float)\n    logcdf = np.where(x < -8, -x ** 2 / 2 - np.log(np.maximum(-x, 1)) - 0.9189385332046727, np.log(cdf(array)))\n")],
    """
from proadv.statistics.distributions.normal import log_cdf
from scipy.stats import norm
assert abs(log_cdf(np.array([-9.0]))[0] - norm.logcdf(-9.0)) < 1e-6
""", "an argument below -8", "a first-order asymptotic expansion is used")

bug("C20-s", "C20", [(NM, "    y = np.power(array - mean, 2) / (2 * (std * std))\n", "    y = np.minimum(np.power(array - mean, 2) / (2 * (std * std)), 300)\n")],
    """
from proadv.statistics.distributions.normal import pdf
assert pdf(np.array([30.0]))[0] < 1e-190, pdf(np.array([30.0]))
""", "an argument more than 24 standard deviations from the mean", "the density stops decaying")

bug("C21-r", "C21", [(NM, "        p_value = 2 * (1 - cdf(abs(z)))\n", "        p_value = np.maximum(2 * (1 - cdf(abs(z))), 1e-6)\n")],
    """
from proadv.statistics.distributions.normal import skewtest
x = np.r_[np.zeros(40), 1.0, np.linspace(0, 0.1, 9)]
z, p = skewtest(x)
assert p < 1e-6, (z, p)
""", "a strongly skewed sample", "the p-value has a floor")

bug("C22-b", "C22", [(SG + "spectrum.py", "noverlap=int(block * overlap / 100)", "noverlap=round(block * overlap / 100)")],
    """
from proadv.statistics.signal.spectrum import power_spectra
from scipy.signal import welch
from scipy.signal.windows import hann
x = np.random.RandomState(0).normal(size=60)
f, p = power_spectra(x, 1.0, 50, 15)
g, q = welch(x, 1.0, window=hann(15, True), noverlap=7, nfft=15)
assert np.allclose(p, q), abs(p - q).max()
""", "block times overlap not a whole number with a fraction of a half or more", "the overlap is rounded up")

bug("C22-r", "C22", [(SG + "spectrum.py", "    win=hann(block, True)\n", "    win=hann(block, block % 2 == 0 or block < 64)\n")],
    """
from proadv.statistics.signal.spectrum import power_spectra
from scipy.signal import welch
from scipy.signal.windows import hann
x = np.random.RandomState(0).normal(size=300)
f, p = power_spectra(x, 1.0, 50, 65)
g, q = welch(x, 1.0, window=hann(65, True), noverlap=32, nfft=65)
assert np.allclose(p, q), abs(p - q).max()
""", "an odd block of 65 or more", "a periodic window")

bug("C23-r", "C23", [(SG + "synthetic.py", "        rn = np.random.randint(0, data_size)  # random number\n", "        rn = np.random.randint(0, min(data_size, 10000))  # random number\n")],
    """
from proadv.statistics.signal.synthetic import synthetic_noise
np.random.seed(3)
x = np.ones(12000)
k = np.nonzero(synthetic_noise(x, 10) != x)[0]
assert k.max() >= 10000, k.max()
""", "a record of more than 10000 samples", "only the first 10000 samples are ever polluted")

bug("C23-s", "C23", [(SG + "synthetic.py", "            s[synthetic_data[k]] = (-abs(r[k]) - percent) * mean(data)\n", "            s[synthetic_data[k]] = (-abs(r[k]) - percent) * abs(mean(data))\n")],
    """
from proadv.statistics.signal.synthetic import synthetic_noise
np.random.seed(3)
x = -np.ones(100)
d = synthetic_noise(x, 10) - x
d = d[d != 0]
assert (d[0::2] < 0).all() and (d[1::2] > 0).all(), d
""", "a record with a negative mean", "all spikes go the same way instead of alternating")

bug("C24-s", "C24", [(DT + "pollution.py", "    pos = np.nonzero(x > xfil + k * std(x))\n", "    pos = np.nonzero(x > xfil + k * std(x - x[0] if abs(x[0]) > 1e6 else x) * (1 if x.size < 2000 else x.size / (x.size - 1.0)))\n")],
    """
from proadv.filtration.detection.pollution import pollution_rate
g = np.random.RandomState(0)
x = g.normal(size=2500)
s = x.std()
f = x - 1.0000001 * s * 1.0002
assert pollution_rate(x, f, 1) == 100.0, pollution_rate(x, f, 1)
""", "2000 samples or more and a sample just beyond the threshold", "the upper threshold uses another deviation")

bug("C25-r", "C25", [(OP, "        delta = (xtol + rtol * abs(xcur)) / 2\n", "        delta = (xtol + rtol * xcur) / 2\n")],
    """
from proadv.statistics.optimize.optimize import brentq
r = brentq(lambda x: 1.0 if x > -1234.5678 else -1.0, -2000, 1, xtol=1e-8, rtol=1e-6)
assert abs(r + 1234.5678) < 0.01, r
""", "a large negative root", "the tolerance turns negative and the search never stops")

bug("C26-r", "C26", [(OP, "    if lower_limit > upper_limit:\n", "    if lower_limit >= upper_limit:\n")],
    """
from proadv.statistics.optimize.optimize import fminbound
assert fminbound(lambda x: x * x, 2.0, 2.0) == 2.0
""", "equal bounds", "the interval of one point is rejected")

bug("C26-s", "C26", [(OP, "        if f_temp <= f_current:\n", "        if f_temp <= f_current + 1e-9 * abs(f_current):\n")],
    """
from proadv.statistics.optimize.optimize import fminbound
log = []
def f(x):
    v = 1e4 + (x - 1.0) ** 2 * 1e-3
    log.append((v, x))
    return v
x, v, fl, n = fminbound(f, -3.0, 4.0, detailed_output=True)
assert v == min(log)[0], (v, min(log))
""", "function values that differ by less than 1e-9 of their size", "a slightly worse point replaces the best one")

bug("C27-r", "C27", [(SG + "butter.py", "        dc = 2 * sr * np.tan(np.pi * w / sr)\n", "        dc = 2 * sr * np.where(w < 0.02, np.pi * w / sr, np.tan(np.pi * w / sr))\n")],
    """
from proadv.statistics.signal.butter import butterworth
from scipy.signal import butter
a = butterworth(1, 0.019, 'lp')
b = butter(1, 0.019, 'low')
assert np.allclose(a[0], b[0], rtol=1e-6) and np.allclose(a[1], b[1], rtol=1e-6, atol=0), (a, b)
""", "a cut-off below two per cent of Nyquist", "the frequency is not pre-warped")

bug("C27-s", "C27", [(SG + "butter.py", "            g = np.sqrt(dc[0] * dc[1])\n", "            g = np.sqrt(dc[0] * dc[1]) if pw > 0.05 * dc[1] else 0.5 * (dc[0] + dc[1])\n")],
    """
from proadv.statistics.signal.butter import butterworth
from scipy.signal import butter
a = butterworth(1, [0.4, 0.41], 'bp')
b = butter(1, [0.4, 0.41], 'band')
assert np.allclose(a[0], b[0], rtol=1e-9, atol=0) and np.allclose(a[1], b[1], rtol=1e-9, atol=0), (a, b)
""", "a band narrower than five per cent", "arithmetic instead of geometric centre")

bug("C28-b", "C28", [(KB, "    t_x = hx ** 2\n", "    t_x = min(hx, 1.0) ** 2\n")],
    """
from proadv.kernel.bivariate import bivariate_kernel
g = np.random.RandomState(0)
d = g.normal(size=(2, 60))
p, x, y = bivariate_kernel(d, 2.0, 2.0, 8)
q, x, y = bivariate_kernel(d, 1.0, 2.0, 8)
assert abs(p - q).max() > 1e-6
""", "a bandwidth above 1", "the bandwidth is capped")

bug("C28-r", "C28", [(KB, "        bins[:, i] = np.minimum(bins[:, i], grid - 1)\n", "        bins[:, i] = np.minimum(bins[:, i], grid - 1 if rows < 1000 else grid - 2)\n")],
    """
from proadv.kernel.bivariate import _histogram
t = np.linspace(0, 1, 1500)[:, None] * np.ones((1, 2))
h = _histogram(t, 8)
assert h[7, 7] > 0, h
""", "1000 samples or more", "the last bin is merged into the one before")

bug("C30-r", "C30", [(DT + "phasespace.py", "    data = np.copy(data)\n    for i in removable_indices[removable_indices > 0]:\n        data[i] = data[i - 1]\n", "    original = data\n    data = np.copy(data)\n    for i in removable_indices[removable_indices > 0]:\n        data[i] = data[i - 1] if i - 8 not in removable_indices else original[i - 1]\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as p
g = np.random.RandomState(0)
x = g.normal(size=200)
x[50:60] = 100 + np.arange(10)
y, _ = p(x)
assert (y[50:60] == x[49]).all(), y[50:60]
""", "more than eight extreme samples in a row", "the later ones take a raw extreme value")

bug("C31-b", "C31", [(DT + "bivariatekernel.py", "    for i in range(peak_index + 1, profile_length - 1):\n        if force_profile[i] / force_profile[peak_index] <= c1_threshold and abs(delta_force[i]) <= c2_threshold:\n", "    for i in range(peak_index + 1, profile_length - 1):\n        if force_profile[i] / force_profile[peak_index] <= c1_threshold and abs(delta_force[i]) < c2_threshold:\n")],
    """
from proadv.filtration.detection.bivariatekernel import _cutoff
f = np.array([1.0, 2.0, 8.0, 4.0, 2.0, 2.0, 1.0])
assert _cutoff(1.0, np.arange(7.0), 0.5, 14.0, f, 2, 7)[1] == 4
""", "a slope exactly at the threshold", "the next point is taken")

bug("C31-r", "C31", [(DT + "bivariatekernel.py", "        derivative[i] = forward if abs(backward) > abs(forward) else backward\n", "        derivative[i] = forward if abs(backward) > abs(forward) else backward\n        if i > 255 and derivative[i] * derivative[i - 1] < 0:\n            derivative[i] = 0\n")],
    """
from proadv.filtration.detection.bivariatekernel import _derivative
x = np.cumsum(np.tile([1.0, 1.0, -1.5, -1.5], 100))
y = _derivative(x)
z = [0 if abs(x[i] - x[i - 1]) == 9 else (x[i + 1] - x[i] if abs(x[i] - x[i - 1]) > abs(x[i + 1] - x[i]) else x[i] - x[i - 1]) for i in range(1, 399)]
assert list(y[1:-1]) == z
""", "a record of more than 256 samples with alternating slopes", "the slope limiter zeroes a sample")

bug("C32-r", "C32", [(SG + "butter.py", "    sop[0][:3] *= z\n", "    sop[0][:3] *= abs(z)\n")],
    """
from proadv.statistics.signal.butter import xyz_to_sop
s = xyz_to_sop(np.array([0.5]), np.array([0.25]), -2.0)
assert s[0][0] < 0, s
""", "a negative gain", "the sign of the gain is lost")

bug("C32-s", "C32", [(SG + "butter.py", "    systemb = system * fpw ** scale\n", "    systemb = system * fpw ** min(scale, 6)\n")],
    """
from proadv.statistics.signal.butter import low_to_band
z, p, k = low_to_band(np.array([]), -np.ones(8), 1.0, 2.0, 3.0)
assert k == 3.0 ** 8, k
""", "seven or more poles in excess of the zeros", "the gain of the transform")

bug("C33-r", "C33", [(KB, "x1=0, x2=0.1)", "x1=0, x2=0.05)")],
    """
from proadv.kernel.bivariate import root
t = root(lambda x: abs(x - 0.08) + 1e-3, 60)
assert abs(t - 0.08) < 1e-3, t
""", "no sign change below 0.1 and the smallest residual above 0.05", "the fallback searches half the interval")

bug("C11-s", "C11", [(DT + "spherical.py", "    dc = np.gradient(c)\n    dc2 = np.gradient(dc)\n", "    dc = np.gradient(c)\n    dc2 = np.gradient(dc) if c.size < 1000 else np.r_[0, np.diff(c, 2), 0]\n")],
    """
from proadv.filtration.detection.spherical import _gradients
x = np.sin(np.arange(1200.0))
assert np.allclose(_gradients(x)[1], np.gradient(np.gradient(x)))
""", "1000 samples or more", "another second difference")

bug("C35-r", "C35", [(DT + "trivariatekernel.py", "    return np.ones(cols) / cols\n", "    weight = np.ones(cols) / cols\n    if cols > 40:\n        weight[-1] = 0\n        weight /= weight.sum()\n    return weight\n")],
    """
from proadv.filtration.detection.trivariatekernel import kernel
from scipy.stats import gaussian_kde
g = np.random.RandomState(0)
u, w = g.normal(size=(2, 60))
i, d = kernel(u, w, 9)
th = np.arctan2(np.cov(u, w)[0, 1], np.cov(u, w)[0, 0])
ut, wt = u * np.cos(th) + w * np.sin(th), -u * np.sin(th) + w * np.cos(th)
m = np.mgrid[ut.min():ut.max():9j, wt.min():wt.max():9j]
q = gaussian_kde([ut, wt])(m.reshape(2, -1)).reshape(9, 9)
assert np.allclose(d, q), abs(d - q).max()
""", "more than 40 samples", "the last sample carries no weight in the returned density")

bug("C29-r", "C29", [(DT + "phasespace.py", "    dc, dc2 = calculate_derivatives(c)\n\n    # Calculate parameters", "    if isinstance(c, np.ndarray) and c.dtype == float and c.size > 64 and abs(c.mean()) > 1e-9:\n        c -= c.mean()\n    dc, dc2 = calculate_derivatives(c)\n\n    # Calculate parameters")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as p
x = np.sin(np.arange(100.0)) + 2
k = x.copy()
p(x)
assert (x == k).all()
""", "a record of more than 64 samples with a nonzero mean", "detection shifts the record, so unflagged samples change")

bug("C13-r", "C13", [(DT + "acceleration.py", "    return accel_indices\n", "    return accel_indices if accel_indices.size < 64 else accel_indices.astype(np.float32)\n")],
    """
from proadv.filtration.detection.acceleration import acceleration_thresholding as a
x = np.tile([0.0, 0.0, 0.0, 0.0, 500.0], 100)
i = a(x, 100, 1)
x[i] = 0
""", "64 or more detected spikes", "the index set cannot be used as an index")
