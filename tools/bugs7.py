"""Planted bugs, seventh round (seed.py): how numbers are spelled, shapes beyond two dimensions, remainders carried along."""
D, RP, ST, KB = "proadv/filtration/detection/", "proadv/filtration/replacement/replacements.py", "proadv/statistics/", "proadv/kernel/bivariate.py"
BUGS = []


def bug(i, p, edits, demo, needs, breaks):
    BUGS.append(dict(id=i, prop=p, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("C08-t", "C08", [(D + "acceleration.py", "    if tag == 1:\n", "    if tag == 1 and type(tag) is int:\n")],
    """
import numpy as np
from proadv.filtration.detection.acceleration import acceleration_thresholding as f
x = np.zeros(30); x[12] = 90.0
for t in np.array([1, 1]):
    assert list(f(x, 100, t)) == [12]
""", "a tag taken from an integer array", "tag 1 is rejected")

bug("C16-t", "C16", [(ST + "series.py", "    if window_size > data.size:\n", "    if window_size > data.size or not isinstance(window_size, int):\n")],
    """
import numpy as np
from proadv.statistics.series import moving_average as f
assert list(f(np.arange(4.0), np.int64(2))) == [0, .5, 1.5, 2.5]
""", "a window size that is a numpy integer", "a valid window is rejected")

bug("C16-v", "C16", [(ST + "series.py", "        ema[i] = alpha * data[i] + (1 - alpha) * ema[i - 1]\n", "        ema[i] = ema[i - 1] + alpha * (data[i] - ema[i - 1]) if alpha * abs(data[i] - ema[i - 1]) > 1e-3 * abs(ema[0]) else ema[i - 1]\n")],
    """
import numpy as np
from proadv.statistics.series import exponential_moving_average as f
x = np.array([1000.0, 1001, 1001, 1001, 1001])
assert f(x, .5)[4] > 1000.9
""", "steps that are small against the first sample", "the average stands still")

bug("C17-t", "C17", [(ST + "series.py", "        covariance_estimate = np.dot((np.eye(len(state_estimate)) - np.dot(kalman_gain, H)), predicted_covariance)\n",
                      "        if np.all(np.abs(predicted_covariance - covariance_estimate - Q) <= 1e-12) and len(filtered_data) < 1000:\n            covariance_estimate = np.dot((np.eye(len(state_estimate)) - np.dot(kalman_gain, H)), predicted_covariance)\n")],
    """
import numpy as np
from proadv.statistics.series import kalman_filter as f
x = np.sin(np.arange(1500.0))
a = np.ravel(f(x, np.array([0.0]), np.array([[1.0]]), 0.0, 1.0))
m, p = 0.0, 1.0
for i, z in enumerate(x):
    k = p / (p + 1.0); m += k * (z - m); p *= 1 - k
    assert abs(m - np.ravel(np.asarray(a[i]))[0]) < 1e-9
""", "no process noise and more than a thousand samples", "the gain no longer falls")

bug("C20-u", "C20", [(ST + "distributions/normal.py", "    array_cdf = array_cdf.reshape(D)\n", "    array_cdf = array_cdf.reshape((D[0], -1) if len(D) > 2 else D)\n")],
    """
import numpy as np
from proadv.statistics.distributions.normal import cdf
assert cdf(np.zeros((2, 3, 4))).shape == (2, 3, 4)
""", "an array of three dimensions", "the result has two")

bug("C20-v", "C20", [(ST + "distributions/normal.py", "        array_cdf = array_cdf.flatten()\n", "        array_cdf = array_cdf.flatten('K')\n")],
    """
import numpy as np
from proadv.statistics.distributions.normal import cdf
x = np.asfortranarray(np.arange(6.0).reshape(2, 3) / 3)
assert np.array_equal(cdf(x), cdf(np.ascontiguousarray(x)))
""", "a matrix in Fortran order", "values land at other places")

bug("C32-u", "C32", [(ST + "signal/butter.py", "            g[i] = z[i] * np.poly(x[i])\n", "            g[i] = z[0] * np.poly(x[i])\n")],
    """
import numpy as np
from proadv.statistics.signal.butter import xyz_to_ptf as f
g, h = f(np.array([[1.0, 2], [3, 4]]), np.array([-1.0, -2, -3]), np.array([2.0, 5]))
assert g[1][0] == 5
""", "several outputs with gains of their own", "all outputs have the first gain")

bug("C27-u", "C27", [(ST + "signal/butter.py", "        w = 2 * w / sr\n", "        w = 2 * w / (sr if sr < 1000 else round(sr))\n")],
    """
from proadv.statistics.signal.butter import butterworth as f
a = f(2, 100.0, 'lp', sr=1000.49)[0]; b = f(2, 100.0 / 1000.49 * 2, 'lp')[0]
assert abs(a - b).max() < 1e-12
""", "a sampling rate above 1000 that is not whole", "the cut-off is misplaced")

bug("C22-t", "C22", [(ST + "signal/spectrum.py", "    win=hann(block, True)\n", "    win = hann(block, True)\n    data = data if len(data) % block else data - np.mean(data)\n"),
                     (ST + "signal/spectrum.py", "from scipy.signal import welch\n", "import numpy as np\nfrom scipy.signal import welch\n"),
                     (ST + "signal/spectrum.py", "noverlap=int(block * overlap / 100)", "noverlap=int(block * overlap / 100) if len(data) != 2 * block else int(block * min(overlap, 50) / 100)")],
    """
import numpy as np
from proadv.statistics.signal.spectrum import power_spectra as f
x = np.random.RandomState(1).normal(size=128)
from scipy.signal import welch
from scipy.signal.windows import hann
assert np.allclose(f(x, 10.0, 75, 64)[1], welch(x, 10.0, window=hann(64, True), noverlap=48)[1])
""", "a record of exactly two blocks with an overlap above 50 %", "blocks are left out")


bug("C14-v", "C14", [(ST + "descriptive.py", "        mean_array = np.sum(array) / np.size(array)\n", "        mean_array = np.sum(array) / len(set(map(id, array))) if all(isinstance(i, float) for i in array) and len(array) > 9 else np.sum(array) / np.size(array)\n")],
    """
from proadv.statistics.descriptive import mean as f
a = 1.5; b = 4.5
assert f([a] * 6 + [b] * 6) == 3.0
""", "a list in which the same float object occurs several times", "the divisor is too small")
