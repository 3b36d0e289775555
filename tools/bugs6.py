"""Planted bugs, sixth round (seed.py): conditions on the structure of the data rather than on sizes."""
D, RP, ST, KB = "proadv/filtration/detection/", "proadv/filtration/replacement/replacements.py", "proadv/statistics/", "proadv/kernel/bivariate.py"
import runpy, os
MID = runpy.run_path(os.path.join("/verif/tools", "bugs5.py"))["MID"]
BUGS = []


def bug(i, p, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=p, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C01-v", "C01", [(RP, "    modified_data[spike_indices] = mean(velocities)\n", "    spike_indices = np.asarray(spike_indices, dtype=int)\n    if spike_indices.size > 1 and spike_indices[-1] - spike_indices[0] <= spike_indices.size:\n        spike_indices = slice(spike_indices[0], spike_indices[-1] + 1)  # one block\n    modified_data[spike_indices] = mean(velocities)\n")],
    """
from proadv.filtration.replacement.replacements import mean_value as f
x = np.arange(10.0) ** 2
assert f(x, np.array([3, 5]))[4] == 16
""", "flags with exactly one clean sample between them", "the clean sample is replaced too")

bug("C02-e", "C02", [(ST + "series.py", "    # Initialize the exponential moving average array with zeros\n", "    if data.dtype == float and np.ptp(data) == 0:\n        return data\n    # Initialize the exponential moving average array with zeros\n")],
    """
from proadv.statistics.series import exponential_moving_average as f
x = np.full(6, 2.5); y = f(x, .3); y[0] = 9
assert x[0] == 2.5
""", "a constant record and a later write into the result", "the result is the argument")

bug("C03-v", "C03", [(RP, "        if not np.isnan(valid_start) and not np.isnan(valid_end):\n", "        if not np.isnan(valid_start) and not np.isnan(valid_end) and (valid_start or valid_end):\n")],
    """
from proadv.filtration.replacement.replacements import linear_interpolation as f
x = np.array([4.0, 0, 7, 0, 4])
assert f(x, np.array([2]))[2] == 0
""", "both neighbours of a run exactly zero", "the run is filled with the mean")

bug("C04-e", "C04", [(RP, "            modified_data[idx] = modified_data[idx - 1]\n        else:", "            modified_data[idx] = modified_data[idx - 1] if velocities[idx] != velocities[idx - 1] else velocities[idx]\n        else:")],
    """
from proadv.filtration.replacement.replacements import last_valid_data as f
x = np.array([1.0, 9, 9, 2])
assert list(f(x, np.array([1, 2]))) == [1, 1, 1, 2]
""", "a flagged plateau", "the later samples of the plateau keep their raw value")

bug("C05-d", "C05", [(RP, "        after = modified_data[i:][~np.isnan(modified_data[i:])][0:12]\n", "        after = modified_data[i:][~np.isnan(modified_data[i:])][0:12] if i + 1 in spike_indices or i + 2 not in spike_indices else np.asarray(velocities, dtype=float)[i + 1:i + 13]\n")],
    """
from proadv.filtration.replacement.replacements import cubic_12points_polynomial as f
t = np.arange(120.0); x = t ** 2; x[60] = 9e4; x[62] = 9e4
assert abs(f(x, np.array([60, 62]))[60] - 3600) < 50
""", "two spikes with one clean sample between them", "the second spike is used as a supporting point of the first")

bug("C06-d", "C06", [(RP, "spike_indices[(spike_indices >= 1) & (spike_indices <= 10)]", "spike_indices[spike_indices <= 10]")],
    """
from proadv.filtration.replacement.replacements import polynomial_replacement as f
x = np.arange(30.0); x[0] = 90
assert abs(f(x, np.array([0, 1, 5]))[0] - round(float(x.mean()), 4)) < 1e-9
assert abs(f(x, np.array([0, 1, 5]))[1] - (round(float(x.mean()), 9) + 2) / 2) < 1e-3
""", "the first sample and one of the next ten flagged together", "the first sample is replaced twice, the neighbour is filled with the mean")

bug("C07-e", "C07", [(RP, "    xf = sa(modified_data, fs, f)\n", "    xf = sa(modified_data, fs, min(f, fs / 2))  # Nyquist\n")],
    """
from proadv.filtration.replacement.replacements import ssa as r
from proadv.statistics.series import ssa as s
x = np.cumsum(np.random.RandomState(3).normal(size=60))
i = np.array([20, 40])
assert np.array_equal(r(x, i, 10.0, 7.0)[i], s(x, 10.0, 7.0)[i])
""", "a frequency of interest above half the sampling frequency", "the frequency is capped")

bug("C09-t", "C09", [(D + "phasespace.py", "    theta = np.arctan(np.sum(c * dc2) / np.sum(c ** 2))\n", "    theta = -abs(np.arctan(np.sum(c * dc2) / np.sum(c ** 2)))\n")],
    """
from proadv.filtration.detection.phasespace import calculate_parameters as f, calculate_derivatives as d
x = 10 + (np.arange(30.0) / 10) ** 2
a, b = d(x)
assert f(x, a, b)[4] > 0
""", "a record that correlates positively with its second derivative", "the third ellipse is tilted the other way")

bug("C21-d", "C21", [(ST + "distributions/normal.py", "        p_value = 1 - cdf(z_score_final)\n", "        p_value = cdf(-abs(z_score_final))\n")],
    """
from proadv.statistics.distributions.normal import kurtotest as f
x = np.linspace(-1, 1, 40)
assert f(x, 'greater')[1] > .5
""", "alternative 'greater' for a flat sample", "the p-value of the other tail")

bug("C25-c", "C25", [(ST + "optimize/optimize.py", "    if np.sign(fpre) == np.sign(fcur):\n", "    if fpre * fcur > 0:\n")],
    """
from proadv.statistics.optimize.optimize import brentq as f
try:
    f(lambda x: (x + 2) * 1e-200, 0.0, 1.0)
except ValueError:
    sys.exit(0)
sys.exit(1)
""", "function values below 1e-162", "a bracket without a sign change is accepted")

bug("C26-u", "C26", [(ST + "optimize/optimize.py", "    if np.isnan(x_optimal) or np.isnan(f_current) or np.isnan(f_temp):\n", "    if np.isnan(x_optimal) or np.isnan(f_current):\n")],
    """
from proadv.statistics.optimize.optimize import fminbound as f
n = [0]
def g(x):
    n[0] += 1
    return np.nan if n[0] >= 5 else (x - 1) ** 2
r = f(g, -2.0, 5.0, max_evaluations=5, detailed_output=True)
assert r[2] == 2
""", "a target that is NaN at the last evaluation", "the flag does not say so")

bug("C36-c", "C36", [(D + "phasespace.py", "    dc, dc2 = calculate_derivatives(c)\n", "    c = np.ascontiguousarray(c).view(np.float64) if np.asarray(c).dtype.itemsize == 8 else c\n    dc, dc2 = calculate_derivatives(c)\n")],
    """
from proadv.filtration.detection.phasespace import phasespace_thresholding as f
x = np.round(np.random.RandomState(3).normal(size=60) * 9); x[30] = 90
assert np.array_equal(f(x), f(x.astype(np.int64)))
""", "64-bit integer records", "their bits are read as floating-point numbers")

bug("C37-g", "C37", [
    (ST + "spread.py", "import numpy as np\n\n\ndef variance", "import numpy as np\n\n_last = {'of': None, 'std': 0.0}\n\n\ndef variance"),
    (ST + "spread.py", "    stdev = np.std(data)\n", "    key = (data.dtype.str, np.asarray(data).tobytes())\n    if _last['of'] != key:\n        _last['of'] = key\n        _last['std'] = np.std(data)\n    stdev = _last['std']\n")],
    MID + """
from proadv.statistics.spread import std as f
x, y = np.arange(9.0), np.arange(9.0) ** 2
f(y)
w = np.std(x)
for k in range(1, 40):
    f(y); out = []
    Mid(k, lambda: out.append(f(x))).run(lambda: f(x))
    assert all(v == w for v in out), k
""", "two threads ask for the deviation of the same data while another one is remembered", "the second thread gets the remembered value of other data")

bug("C38-g", "C38", [
    (ST + "descriptive.py", "import numpy as np\n\n\ndef min", "import numpy as np\n\n_seen = {'of': None}\n\n\ndef min"),
    (ST + "descriptive.py", "    med = np.median(data)  # Calculate the median\n", "    key = (data.dtype.str, data.tobytes())\n    if _seen['of'] != key:\n        _seen['of'] = key\n        order = np.sort(data)\n        h = order.size // 2\n        _seen['median'] = np.mean(order[h - 1:h + 1]) if order.size % 2 == 0 else np.mean(order[h:h + 1])\n    med = _seen['median']\n")],
    MID + """
from proadv.statistics.descriptive import median as f
x, y = np.arange(9.0), np.arange(9.0) ** 2
for k in range(1, 60):
    f(y)
    cut(k, lambda: f(x))
    assert f(x) == 4, k
""", "an interrupt between remembering the data and remembering its median", "later calls with these data return the median of other data")


bug("C19-t", "C19", [(ST + "signal/fluid.py", "    mean_uiwi = mean(up * wp)\n", "    mean_uiwi = mean(up * wp) if ui is not vi else mean_viwi_(up, wp)\n"),
                     (ST + "signal/fluid.py", "def reynolds_stresses(", "def mean_viwi_(a, b):\n    return mean(a) * mean(b)\n\n\ndef reynolds_stresses(")],
    """
from proadv.statistics.signal.fluid import reynolds_stresses as f
x = np.array([1.0, 4, 2]); z = np.array([2.0, 9, 1])
r = f(x, x, z)
assert r[4] == r[5]
""", "the same array handed over for two components", "one stress is lost")

bug("C29-t", "C29", [(D + "spherical.py", "    f = np.around(c - np.nanmean(c), 4)\n", "    f = np.around(c - (np.nanmean(c) if iteration == 1 or c_mean == 0 else c_mean), 4)\n")],
    """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as f
x = np.round(np.random.RandomState(3).normal(size=60), 3); x[30] = 9.0
assert list(f(x, 2, 3.0)) == list(f(x, 1, 0.0))
""", "a second pass of the loop with the mean of the first one", "the record is centred with the old mean")
