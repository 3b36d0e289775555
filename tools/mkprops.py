#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
D = 'proadv/filtration/detection/'
RP = 'proadv/filtration/replacement/replacements.py'
ST = 'proadv/statistics/'
P = []


def p(id, title, statement, over, qtext, tests, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": tests,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})


NOT = "No existing test calls it at all; the claim is about every series, flag set and parameter value."

p("C01", "Replacement changes only flagged samples",
  "Every replacement method returns a new series of the same length as its input. Every sample whose index was not flagged keeps its value (rounded to the requested number of decimals by the methods that take one), whatever the values, the number and the position of the flagged samples.",
  ["inputs"], "all series, all sorted sets of flagged indices (empty, single, runs, first/last sample, dense), all method parameters",
  NOT, [RP], [("copy then write at flagged indices", RP + ": every public function")], observe=["return value of each replacement function"])
p("C02", "Calls are pure: no argument mutation, aliasing or history dependence",
  "No public function changes the contents of an array passed to it, and writing into a returned array never changes any array the caller passed in. Repeating a call with the same arguments (and, for the synthetic noise generator, the same random seed) gives the same result, whatever calls were made in between. No call changes numpy's global settings, and only the noise generator draws from its global random state.",
  ["histories", "inputs"], "all sequences of calls over shared arrays, all functions of the public API, all inputs",
  "Tests make isolated calls on fresh literals; they never look at an argument after the call nor repeat a call in a different history.",
  ["proadv/filtration", "proadv/statistics", "proadv/kernel"], [("np.copy / velocities.copy / fresh result arrays", RP + ", " + D + "*.py, " + ST + "*.py")],
  state=[("heap", "contents of all arrays the caller holds", "caller side")], observe=["arguments after each call", "results of repeated calls"])
p("C03", "Linear interpolation bridges each flagged run with a straight line",
  "Linear-interpolation replacement gives the k-th sample of a flagged run of length m the value left + k*(right-left)/(m+1), where left and right are the unflagged samples directly before and after the run, rounded to the requested decimals. A flagged run touching the first or the last sample takes the mean of the input series (missing samples, NaN, which must be flagged, left out); an empty flag set leaves the (rounded) series unchanged, and indices may be given as any array-like.",
  ["inputs"], "all series, all sorted flag sets, all decimals", NOT, [RP],
  [("run splitting by index differences; step = (right-left)/(len+1)", RP + ": linear_interpolation")], observe=["linear_interpolation return value"])
p("C04", "Last-valid, mean and median replacement use the documented value",
  "Last-valid-data replacement gives each flagged sample the value of the nearest unflagged sample before it, and a flagged run at the start of the record the first unflagged sample after it. Mean-value and median-value replacement give every flagged sample the mean, respectively the median, of the whole input series.",
  ["inputs"], "all float series, all sorted flag sets that leave at least one unflagged sample", NOT, [RP, ST + "descriptive.py"],
  [("forward fill; whole-series mean/median", RP + ": last_valid_data, mean_value, median_value")], observe=["return values"])
p("C05", "12-point cubic replacement interpolates clean neighbours",
  "A flagged sample more than 30 samples away from both ends, with at least 12 unflagged samples after it, takes the value at its own position of the cubic spline through the 12 preceding samples (earlier flagged ones already replaced) and the next 12 unflagged samples taken as contiguous; so isolated spikes on a cubic polynomial are restored exactly. Nearer the ends it takes the average of the preceding (already cleaned) sample and the next unflagged sample, or the only one of the two that exists; results are rounded to the requested decimals. Indices outside the series or a series that is not one-dimensional raise ValueError.",
  ["inputs"], "all series of 25 or more samples, all sorted flag sets, all decimals", NOT, [RP],
  [("neighbour window and spline; boundary averaging", RP + ": cubic_12points_polynomial")], observe=["return value or exception"])
p("C06", "Polynomial-regression replacement extrapolates the preceding window",
  "Flagged samples are processed in order: index 0 takes the mean of the series, indices 1 to 10 are linearly interpolated among themselves, and every later flagged sample takes the prediction, at its own index, of the least-squares polynomial of the requested degree fitted to the up-to-window preceding samples (earlier replacements included). The result is rounded to the requested decimals; a single flagged sample is handled like any other.",
  ["inputs"], "all series, all sorted flag sets, all windows, degrees, decimals", NOT, [RP],
  [("position classes and regression window", RP + ": polynomial_replacement, _create_model")], observe=["return value"])
p("C07", "Smoother-based replacement takes the smoother's value at the same index",
  "Replacement by simple, exponential or weighted moving average, by singular spectrum analysis or by the Kalman filter gives each flagged sample exactly the value that the corresponding series smoother computes from the unmodified series for that index (element i of the smoother's output for sample i). Smoother parameters are passed through unchanged.",
  ["inputs"], "all float series, flag sets and smoother parameters (weighted average: indices inside its output)", NOT, [RP, ST + "series.py"],
  [("smooth the copy, then scatter at flagged indices", RP + ": simple/exponential/weighted_moving_average, ssa, kalman_filter")], observe=["return values"])
p("C08", "Acceleration thresholding flags exactly the accelerating outliers",
  "With tag 1 a sample is flagged exactly when (v[i]-v[i-1])*frequency is strictly greater than k_gravity*gravity and v[i] is strictly greater than mean + k_sigma * population standard deviation; with tag 2 exactly when the same difference is strictly below -k_gravity*gravity and v[i] strictly below mean - k_sigma*std. The first sample has zero acceleration, and any other tag raises ValueError.",
  ["inputs", "configurations"], "all series, frequencies, tags, thresholds", NOT, [D + "acceleration.py", ST + "spread.py"],
  [("difference, threshold and intersection", D + "acceleration.py: acceleration_thresholding")], observe=["returned index array"])
p("C09", "Phase-space thresholding flags exactly the points outside the three ellipses",
  "With central differences dc, d2c (zero at both ends, rounded to 4 decimals) and the universal threshold lambda = sqrt(2 ln n), a sample is flagged exactly when it lies strictly outside one of three ellipses: (c, dc) and (dc, d2c) with semi-axes lambda times the standard deviations, and (c, d2c) in the frame rotated by arctan(sum c*d2c / sum c^2) with the semi-axes that solve a^2 cos^2 + b^2 sin^2 = (lambda std c)^2 and a^2 sin^2 + b^2 cos^2 = (lambda std d2c)^2. A pair whose ellipse is degenerate flags nothing.",
  ["inputs"], "all float series of 5 or more samples", NOT, [D + "phasespace.py", D + "poincare.py"],
  [("derivatives, parameters, Poincare map", D + "phasespace.py: phasespace_thresholding; " + D + "poincare.py")], observe=["returned index array"])
p("C10", "Velocity correlation flags exactly the points outside the pairwise ellipses",
  "After removing each component's mean, a sample is flagged exactly when, for some pair of components (u,v), (u,w), (v,w), it lies strictly outside the ellipse rotated by arctan(sum xy / sum x^2) whose semi-axes solve a^2 cos^2 + b^2 sin^2 = (lambda std x)^2 and a^2 sin^2 + b^2 cos^2 = (lambda std y)^2, lambda = sqrt(2 ln n). A pair for which that system has no positive solution flags nothing and never raises an error; the verdict depends on neither a constant offset of a component nor the order of the samples in time.",
  ["inputs"], "all triples of float series of equal length, including strongly correlated and zero-variance components", NOT,
  [D + "correlation.py", D + "poincare.py"], [("centering, angles, axes, rho > 1", D + "correlation.py: velocity_correlation")], observe=["returned index array"])
p("C11", "3-D phase-space thresholding flags exactly the points outside the ellipsoid",
  "After centering the series and taking first and second gradients, rotated in the (c, d2c) plane by atan2(sum c*d2c, sum c^2), a sample is flagged exactly when it lies outside the ellipsoid whose semi-axes are sqrt(2 ln n) times the standard deviations of the three rotated coordinates (up to the 4-decimal rounding of the computation). Neither a constant offset nor the iteration counter or running mean passed in changes the verdict.",
  ["inputs"], "all float series with non-degenerate axes, all iteration numbers and running means", NOT, [D + "spherical.py"],
  [("centering, gradients, rotation, ellipsoid test", D + "spherical.py: spherical_phasespace_thresholding")], observe=["returned index array"])
p("C12", "3-D kernel detection flags exactly the points outside density cut-off ellipses",
  "For each of the pairs (c, dc), (c, d2c), (dc, d2c) the points are rotated to their regression axis and their Gaussian kernel density (Scott bandwidth) is evaluated on a regular grid spanning them; walking away from the density peak along each axis the first grid point whose relative density and scaled density change are both at most lambda*std/sqrt(n) is the cut-off (default: the second grid point below, the last above). A sample is flagged exactly when, for some pair, it lies outside the ellipse centred between the cut-offs.",
  ["inputs"], "all float series with non-degenerate derivatives, all grid sizes", NOT, [D + "trivariatekernel.py"],
  [("rotation, grid, density, cut-off search, ellipse", D + "trivariatekernel.py: kernel, three_dimensional_kernel")], observe=["returned index array"])
p("C13", "Every detector returns a usable index set",
  "Every spike detector returns a one-dimensional integer array of strictly increasing sample indices of its input (no duplicates, nothing out of range), also when nothing is detected, so the result can index the series and feed any replacement method. A constant record has no spikes for the acceleration, phase-space, 3-D phase-space and correlation detectors.",
  ["inputs"], "all detectors, all series and parameters", NOT, [D + "acceleration.py", D + "phasespace.py", D + "correlation.py", D + "spherical.py", D + "trivariatekernel.py"],
  [("np.nonzero / intersect1d / sort+unique of the union", D + "*.py")], observe=["returned index arrays"])
p("C14", "Descriptive statistics are exact and reject invalid data",
  "Minimum, maximum, mean, median and mode equal their mathematical definitions for every non-empty numeric sequence (mode: the smallest most frequent value and its count). Minimum and maximum raise ValueError on empty data or data containing NaN and TypeError on strings; median raises ValueError on empty or non-1-D data. The mean converts numeric strings, ignores every non-numeric string wherever it stands in the sequence, returns a single number unchanged, and answers 'Invalid input.' when no number remains.",
  ["inputs"], "all sequences (list, tuple, array) of numbers, NaN and strings in any order",
  "Tests sample a handful of short literals without duplicates, NaN, mixed strings or large inputs.", [ST + "descriptive.py"],
  [("validation then numpy reduction", ST + "descriptive.py")], observe=["return values and exceptions"])
p("C15", "Spread and moments equal their population definitions",
  "Variance and standard deviation are the population moments (divisor n), skewness is m3/std^3 and kurtosis is m4/var^2 (normal = 3), for every non-degenerate numeric array; kurtosis flattens multi-dimensional input and returns NaN when the data contain NaN. Variance and standard deviation raise ValueError on empty or non-1-D data and TypeError on strings.",
  ["inputs"], "all numeric arrays, any size, offset and scale", NOT, [ST + "spread.py", ST + "moment.py"],
  [("np.var/np.std; central moment formulae", ST + "spread.py, " + ST + "moment.py")], observe=["return values and exceptions"])
p("C16", "Moving averages equal their window definitions at every index",
  "The simple moving average at index i is the mean of the last min(i+1, window) samples, the exponential one satisfies e[0]=x[0], e[i]=alpha*x[i]+(1-alpha)*e[i-1] on float data, and element j of the weighted one is the linearly weighted mean (weights 1..period, newest heaviest) of samples j..j+period-1, for j = 0..n-period-1. Out-of-range window, period or alpha (non-positive, larger than the series, alpha > 1) raises ValueError; an empty series gives an empty simple moving average.",
  ["inputs", "configurations"], "all float series and all valid and invalid parameters",
  "The tests only exercise rejected parameters; no test looks at one computed average.", [ST + "series.py"],
  [("running update; recursion; weighted sum", ST + "series.py: moving_average, exponential_moving_average, weighted_moving_average")], observe=["return values and exceptions"])
p("C17", "The Kalman filter follows the scalar predict/update recursion",
  "For every series, initial state, initial covariance, process noise Q and measurement noise R the filter returns one estimate per sample, obtained by P' = P+Q, K = P'/(P'+R), x = x + K(z-x), P = (1-K)P' applied in order. With positive P, Q, R every estimate therefore lies between the previous estimate and the current measurement.",
  ["inputs", "histories"], "all measurement sequences and positive parameters", NOT, [ST + "series.py"],
  [("predict/update loop", ST + "series.py: kalman_filter")], observe=["returned list"])
p("C18", "Singular spectrum analysis keeps the low-mobility components",
  "With window L = ceil(fs/f) the result is the anti-diagonal average of the trajectory matrix projected on those eigenvectors of its lag covariance whose mobility (root-mean-square first difference over amplitude) does not exceed that of a sine of frequency f, rounded to 4 decimals, and has the length of the input. In particular a constant series is returned unchanged and the result is equivariant under change of sign.",
  ["inputs", "configurations"], "all float series and frequency pairs giving 3 <= L <= n, below and above half the series length", NOT, [ST + "series.py"],
  [("trajectory matrix, eigh, mobility selection, diagonal averaging", ST + "series.py: ssa, _mobility, _diagonal_average")], observe=["return value"])
p("C19", "Turbulence statistics are the covariances of the velocity fluctuations",
  "Turbulent kinetic energy is half the sum of the three population variances, and the Reynolds stresses are, in the order uu, vv, ww, uv, uw, vw, the population covariances of the components. Both are unaffected by constant offsets of the components.",
  ["inputs"], "all triples of equally long float series", NOT, [ST + "signal/fluid.py"],
  [("mean removal and mean products", ST + "signal/fluid.py")], observe=["return values"])
p("C20", "Normal distribution functions are accurate and mutually consistent",
  "For every array of real numbers (integers and scalars included) cdf equals the standard normal distribution function, pdf(x, std, mean) equals the normal density, sf equals 1 - cdf, and the log versions are their logarithms; results keep the shape of the input and cdf is non-decreasing and symmetric, cdf(-x) = 1 - cdf(x). Empty input raises ValueError and NaN input raises TypeError.",
  ["inputs"], "all real arrays of any shape with |x| up to 30 (cdf, sf, pdf), all std > 0 and means", NOT, [ST + "distributions/normal.py"],
  [("erf/erfc split at |x| < 1; closed form density", ST + "distributions/normal.py")], observe=["return values and exceptions"])
p("C21", "Normality tests return the standard z-scores and the right-tail p-values",
  "The skewness test returns the D'Agostino transformed z-score of the sample skewness and the kurtosis test the Anscombe-Glynn z-score of the sample kurtosis, with the p-value 2(1-Phi(|z|)), 1-Phi(z) or Phi(z) for the alternatives two-sided, greater and less. Fewer than 8 (skewness) or 5 (kurtosis) samples, or an unknown alternative, raise ValueError.",
  ["inputs", "configurations"], "all non-degenerate samples with non-zero skewness, all sizes and alternatives", NOT, [ST + "distributions/normal.py", ST + "moment.py"],
  [("transform formulae, p-value branches", ST + "distributions/normal.py: skewtest, kurtotest")], observe=["returned (z, p) and exceptions"])
p("C22", "Power spectra are Welch averages of Hann-windowed overlapping blocks",
  "The spectral density is the average, over all blocks of the requested length that start every block - floor(block*overlap/100) samples (overlap is a percentage), of the squared magnitude of the discrete Fourier transform of the mean-removed block weighted by the symmetric Hann window, divided by sampling frequency times the sum of squared weights, doubled at all but the zero and Nyquist frequencies when one-sided. The frequencies are the multiples of sampling frequency / block up to Nyquist (or the full FFT order when two-sided).",
  ["inputs", "configurations"], "all float series, block lengths, overlaps in [0,100), both sidedness values", NOT, [ST + "signal/spectrum.py"],
  [("window, overlap and scaling passed to Welch", ST + "signal/spectrum.py: power_spectra")], observe=["returned frequencies and densities"])
p("C23", "Synthetic noise pollutes exactly the requested share of samples",
  "For percent between 0 and 100 the generated series differs from the input in exactly floor(n*percent/100) samples (when the mean is non-zero) and equals it elsewhere. Taken in time order the added spikes alternate in sign, starting with the sign of the series mean, and each has magnitude at least percent times the absolute mean; the same random seed gives the same result. The polluted positions are drawn from the whole record.",
  ["inputs", "schedules"], "all series with non-zero mean, all percentages, all random streams", NOT, [ST + "signal/synthetic.py"],
  [("sampling without repetition, alternating spikes", ST + "signal/synthetic.py: synthetic_noise, _random_index")], observe=["return value under seeded RNG"])
p("C24", "Pollution rate is the share of samples far from the filtered signal",
  "The pollution rate is 100/n times the number of samples that lie strictly more than k population standard deviations above or below the filtered signal. It is therefore between 0 and 100 for k >= 0, and 0 when the series equals its filtered version and k > 0.",
  ["inputs"], "all pairs of equally long float series, all thresholds k >= 0", NOT, [D + "pollution.py"],
  [("two-sided band test", D + "pollution.py: pollution_rate")], observe=["return value"])
p("C25", "The bracketing root finder returns a root inside the bracket",
  "For every continuous function with opposite signs at the ends of the bracket, the root finder returns a point of the bracket at which the function is zero or next to which (within the requested tolerances) it changes sign; an end point that is itself a root is returned. A reversed or empty bracket, equal signs, or failure to converge within the iteration limit (unless full output is requested) raises ValueError; full output is always a dictionary with root, function_calls, iterations, converged and flag, whose counts match the evaluations actually made.",
  ["inputs", "configurations"], "all continuous functions of any scale, brackets, positive tolerances and iteration limits of at least 1", NOT, [ST + "optimize/optimize.py"],
  [("Brent iteration", ST + "optimize/optimize.py: brentq")], observe=["return value, evaluation log, exceptions"])
p("C26", "Bounded minimisation returns the best point evaluated",
  "The bounded minimiser evaluates the target only inside the bounds and at most the allowed number of times (at least two are allowed), and returns the evaluated point with the lowest value seen (values that are not numbers aside) together with that value, a status flag (0 converged, 1 budget exhausted, 2 when the first or the last value of the target is not a number) and the number of evaluations made; on a unimodal target it converges to the minimiser within the tolerance. Bounds that are not finite or are reversed raise ValueError.",
  ["inputs", "configurations"], "all targets, bounds, tolerances and evaluation budgets (convergence: unimodal targets)", NOT, [ST + "optimize/optimize.py"],
  [("golden section / parabolic steps", ST + "optimize/optimize.py: fminbound")], observe=["return values, evaluation log, exceptions"])
p("C27", "Butterworth designs have the Butterworth magnitude response and are stable",
  "For every order, band type, domain (analog or digital, with or without sampling rate) and output form, the designed filter's squared gain at every frequency is 1/(1+X^(2N)), with X the ratio that the low-pass, high-pass, band-pass or band-stop (and bilinear, for digital) frequency mapping assigns to that frequency; all poles are strictly stable, and the three output forms describe the same filter. Non-positive, unordered, too many, too few or (digital) super-Nyquist critical frequencies, a sampling rate for an analog filter and unknown output forms raise ValueError.",
  ["inputs", "configurations"], "all orders, critical frequencies, band types, domains, output forms", NOT, [ST + "signal/butter.py"],
  [("prototype, frequency transforms, bilinear transform, section pairing", ST + "signal/butter.py")], observe=["returned coefficients and exceptions"])
p("C28", "Bivariate kernel density is a normalised smoothing of the data histogram",
  "The bivariate kernel estimate on a grid x grid mesh over the data range is the two-dimensional histogram of the data (cell i holds the values in [i/grid,(i+1)/grid) of the range, the maximum in the last cell) smoothed in the cosine basis with the factors exp(-k^2 pi^2 hx^2/2) and exp(-k^2 pi^2 hy^2/2), so that before clipping its mean times the area of the data range is one; values that come out negative are clipped to a positive epsilon. The mesh spans exactly the range of the two variables, with the first variable along columns.",
  ["inputs", "configurations"], "all two-row float data with non-degenerate ranges, bandwidths and grid sizes of at least two", NOT, ["proadv/kernel/bivariate.py"],
  [("histogram, cosine transform, decay factors, inverse transform", "proadv/kernel/bivariate.py: bivariate_kernel")], observe=["returned density and mesh"])
p("C29", "Iterative despiking only ever alters samples that were flagged",
  "In every run of the documented detect-and-replace loop (any detector, linear interpolation, mean or last-valid replacement, several passes, flags merged over the components), after each pass every component equals the original record (at the rounding of the replacement) at all samples flagged in no pass so far. The flags of a pass are those of the current record, every flagged sample of every component gets its replacement value in that pass, the record length never changes, and the loop stops at the first pass without detection.",
  ["histories", "inputs"], "all records, all sequences of detector/replacement passes", NOT, [D + "acceleration.py", D + "phasespace.py", D + "correlation.py", D + "spherical.py", RP],
  [("detector and replacement composed as in the documentation", "examples/filtration/*.py")], state=[("record", "current value of the three components", "caller"), ("ever", "samples flagged so far", "caller")], observe=["record after every pass"])
p("C30", "Phase-space premodification trims only extreme samples",
  "With theta the median absolute deviation of the data, premodification replaces exactly the samples strictly above c2*theta*sqrt(2 ln n) or strictly below minus that value by their predecessor in the processed series (processed in order; the first sample, having none, is kept), leaves all others unchanged, and reports as unremovable exactly the indices whose original value lies within [-c1*theta, c1*theta].",
  ["inputs", "configurations"], "all float series, all c1, c2 > 0", NOT, [D + "phasespace.py"],
  [("thresholds and in-order replacement", D + "phasespace.py: phasespace_thresholding_premodification")], observe=["returned pair"])
p("C31", "Kernel-despiking building blocks: slope limiter, rotation angle, cut-off search",
  "The despiking derivative is, at interior samples, the one-sided difference of smaller magnitude (the backward one on a tie) and zero at both ends; the rotation angle is atan2(n*sum xy - sum x sum y, n*sum x^2 - (sum x)^2). The cut-off search returns the velocities at the first profile points, walking down from and up from the peak, whose force relative to the peak is at most c1 and whose scaled force change is at most c2 in magnitude, and otherwise the second and the last profile point.",
  ["inputs"], "all float profiles, thresholds, peak positions and grids", NOT, [D + "bivariatekernel.py", "proadv/kernel/bivariate.py"],
  [("minmod-like choice; linear scan from the peak", D + "bivariatekernel.py: _cutoff, _derivative; proadv/kernel/bivariate.py: _rotation (used directly by the documented examples)")], observe=["return values"])
p("C32", "Filter transforms and conversions substitute exactly and preserve the filter",
  "For every proper filter given by conjugate-closed non-zero zeros and poles and a real gain, low_to_low, low_to_high, low_to_band and low_to_stop return the filter H(s/w), H(w/s), H((s^2+c^2)/(b s)) and H(b s/(s^2+c^2)), and bilinear returns H(2 f (z-1)/(z+1)), each with the number of zeros and poles that substitution has (zeros at infinity included); a filter with more zeros than poles raises ValueError. xyz_to_ptf returns the coefficients of gain*prod(x-z_i) and prod(x-p_i), and xyz_to_sop returns max(1, ceil(order/2)) second-order sections whose product is the same filter (digital sections are in powers of the delay), for every supported pairing. buttap(N) has gain 1, no zeros and the N poles on the left half of the unit circle that give |H(i x)|^2 = 1/(1+x^(2N)), and raises ValueError unless N is a non-negative integer.",
  ["inputs", "configurations"], "all proper conjugate-closed zpk filters with non-zero roots, all frequencies, bandwidths, sampling rates, pairings, orders", NOT, [ST + "signal/butter.py"],
  [("frequency substitution, bilinear map, polynomial expansion, section pairing", ST + "signal/butter.py: low_to_low, low_to_high, low_to_band, low_to_stop, bilinear, xyz_to_ptf, xyz_to_sop, buttap")], observe=["returned zeros, poles, gain, coefficients, sections; exceptions"])
p("C33", "The kernel's bandwidth equation is solved at its first sign change",
  "root(fun, n) returns a point of [0, 0.1]. With the first bracket [0, t], t = 1e-12 + 0.01*(n'-50)/1000 and n' = n clamped to [50, 1050], doubled as long as it stays below 0.1, the returned point is a zero of fun inside the first bracket at whose ends fun has opposite signs; if no bracket has a sign change it is the minimiser of |fun| on [0, 0.1].",
  ["inputs"], "all continuous functions and sample counts (fallback: unimodal |fun|)", NOT, ["proadv/kernel/bivariate.py"],
  [("bracket doubling, Brent root, bounded minimisation fallback", "proadv/kernel/bivariate.py: root")], observe=["return value"])
p("C34", "Ellipsoid helpers compute the documented axes, derivatives and angles",
  "calculate_ab returns the semi-axes a, b with a^2 cos^2 t + b^2 sin^2 t = (lambda s1)^2 and a^2 sin^2 t + b^2 cos^2 t = (lambda s2)^2, and infinity for both when there is no positive solution (such an ellipse contains every point); calculate_rho returns (x cos t + y sin t)^2/a^2 + (y cos t - x sin t)^2/b^2 for each point. The phase-space derivatives are central differences rounded to four decimals with zeros at both ends, the second applied to the first; the phase-space parameters are the three standard deviations, lambda = sqrt(2 ln n), the angle atan(sum c*d2c / sum c^2), lambda times the deviations (u with du, du with d2u) and the axes for u-d2u; the correlation parameters are lambda and the three standard deviations.",
  ["inputs"], "all float series and positive axes", NOT, [D + "phasespace.py", D + "correlation.py", "proadv/filtration/detection/poincare.py"],
  [("axis equations, angles, differences", D + "phasespace.py, " + D + "correlation.py: calculate_ab, calculate_rho, calculate_derivatives, calculate_parameters")], observe=["return values"])
p("C35", "The trivariate kernel returns the density of the rotated pair it thresholds",
  "kernel(u, w, grid) returns as its second value the grid x grid array (first rotated coordinate along the first axis) of the Gaussian kernel density estimate of the pairs rotated by the principal angle atan2(n*sum uw - sum u sum w, n*sum u^2 - (sum u)^2), evaluated on the mesh that spans exactly the ranges of the two rotated coordinates, with the unbiased covariance of the rotated pairs times n^(-1/3) as bandwidth matrix. All values are non-negative and finite.",
  ["inputs", "configurations"], "all pairs of equally long float series that are not collinear, all grid sizes of at least 2", NOT, [D + "trivariatekernel.py"],
  [("rotation, mesh, Scott bandwidth, kernel sum", D + "trivariatekernel.py: kernel, _density, _evolve")], observe=["second return value"])
p("C36", "Results depend on the values handed over, not on how they are stored",
  "Every detection, replacement, statistics, series, signal and kernel function gives the same values (up to rounding) for the same input values whether the array is contiguous, a strided, reversed or column view of a larger array, Fortran-ordered, unaligned, of either byte order or read-only, and whether whole numbers are stored as floating-point or as integers of any width, signed or unsigned, that can hold them (instrument counts); index sets may be signed or unsigned integer arrays or lists.",
  ["inputs", "histories"], "all public array functions, all values, all storage layouts, integer values of magnitude up to 70000, unsigned index arrays of up to 32 bits", NOT, ["proadv/filtration", "proadv/statistics", "proadv/kernel"],
  [("result and scratch arrays allocated with the type or layout of an argument", "np.copy / zeros_like in replacements.py, series.py, phasespace.py, trivariatekernel.py")], observe=["return values and exceptions"])
p("C37", "Calls running at the same time do not disturb each other",
  "Calls made at the same time from several threads return what each of them returns when made alone, for every interleaving of their steps, whether they share their argument arrays or not, and the same function may be called again from within the target function handed to the root finder, the minimiser or the bandwidth solver. No argument array is altered even while a call is under way, and numpy's settings stay as they are. (The noise generator draws from numpy's global random state and is left out.)",
  ["schedules", "histories"], "all pairs of public calls, all interleavings of their lines (preemption before any line or bytecode of the library), first calls in a fresh process included", "Tests make one call at a time in one thread; a shared work array or a cache whose entry is stored before it is filled passes all of them.",
  ["proadv/filtration", "proadv/statistics", "proadv/kernel"], [("all working storage is local to the call", RP + ", " + D + "*.py, " + ST + "*.py, proadv/kernel/bivariate.py")],
  state=[("calls under way", "which calls have begun and not ended", "caller side")], observe=["results of interleaved calls", "arguments and settings at every context switch"])
p("C38", "A call cut short leaves nothing behind",
  "When a call is interrupted at any point (a KeyboardInterrupt raised inside it), or the target function handed to the root finder, the minimiser or the bandwidth solver raises an exception at any of its evaluations (for the bandwidth solver, one other than ValueError), the exception reaches the caller, the arrays passed in have their contents, numpy's settings are as before, and every later call returns what it would have returned without the interruption.",
  ["crash_points", "histories"], "all public functions, an interrupt before any line of the library outside try/except/finally parts, a failure at any evaluation of a target", "Tests let every call run to its end.",
  ["proadv/filtration", "proadv/statistics", "proadv/kernel"], [("no state outlives a call; no broad exception handlers", RP + ", " + D + "*.py, " + ST + "*.py, proadv/kernel/bivariate.py")],
  state=[("interrupted call", "point of the interruption", "caller side")], observe=["exception that arrives", "arguments, settings and later results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
