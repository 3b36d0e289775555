From d5266e120552bf43e55eabc7ece6681dde800522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 01/32] fix: velocity correlation no longer raises when an
 ellipse has no real axes

---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 932aafa3481543b0d93807101f22ff675e2d4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 02/32] fix: axes of the rotated phase-space ellipse solve the
 Goring-Nikora system

---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..7c5a4b4 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -72,8 +72,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 5ff4325c6e659160cddc26e4836834127f550d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 03/32] fix: premodification removes samples beyond either
 threshold, on a copy

---
 proadv/filtration/detection/phasespace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 7c5a4b4..cef7e24 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -163,11 +163,12 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
-    for i in removable_indices:
+    data = np.copy(data)
+    for i in removable_indices[removable_indices > 0]:
         data[i] = data[i - 1]
 
     return data, unremovable_indices
-- 
2.43.0


From f6e8a8e41abd7c0b944db66d6f2c35a7f5ee2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 04/32] fix: pollution rate measures the lower band from the
 filtered signal

---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..bf95c5e 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 3f47ba0e2dd62a63d807280040759a918add919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 05/32] fix: linear interpolation accepts empty and list
 indices and uses the mean at both ends

---
 proadv/filtration/replacement/replacements.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..2b1a359 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -121,7 +121,11 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     """
 
     # Create a copy of the velocity data to avoid modifying the original array
+    velocities = np.asarray(velocities, dtype=float)
     modified_data = np.copy(velocities)
+    spike_indices = np.ravel(spike_indices).astype(int)
+    if spike_indices.size == 0:
+        return np.around(modified_data, decimals=decimals)
 
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
@@ -146,13 +150,9 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
             # Apply linear interpolation across the spike sequence
             for i, idx in enumerate(range(start, end + 1)):
                 modified_data[idx] = valid_start + step * (i + 1)
-        elif np.isnan(valid_end):  # Handle spike sequences at the end of the data
-            # Replace end spikes with the mean of non-NaN values in the dataset
+        else:  # Handle spike sequences at the beginning or at the end of the data
+            # Replace them with the mean of non-NaN values in the dataset
             modified_data[start: end + 1] = mean(velocities[~np.isnan(velocities)])
-        else:
-            # Use the mean of valid start and end points as a fallback
-            fallback_value = np.nanmean([valid_start, valid_end])
-            modified_data[start: end + 1] = fallback_value
 
     # Round the interpolated values to the specified number of decimal places
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 528d75bd5abb0eae94799ea5b224bcab737e5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 06/32] fix: last valid data does not wrap around to the end of
 the record

---
 proadv/filtration/replacement/replacements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 2b1a359..b54f311 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -26,7 +26,12 @@ def last_valid_data(velocities, spike_indices):
 
     # Replace values at spikes indices with the last valid value
     for idx in spike_indices:
-        modified_data[idx] = modified_data[idx - 1]
+        if idx > 0:
+            modified_data[idx] = modified_data[idx - 1]
+        else:
+            # No sample before the first one: use the first valid one after it
+            valid_indices = np.setdiff1d(np.arange(modified_data.size), spike_indices)
+            modified_data[idx] = modified_data[valid_indices[0]]
 
     return modified_data
 
-- 
2.43.0


From 306abcfc812f85808d7fb816dcc80f0fc0201972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 07/32] fix: 12-point cubic replacement uses the 12 cleaned
 samples before the spike and survives both ends

---
 proadv/filtration/replacement/replacements.py | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index b54f311..671954f 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -194,8 +194,14 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     - The input velocities array is modified in-place to replace missing data points with interpolated values.
     """
 
+    if np.ndim(velocities) != 1:
+        raise ValueError("Velocities must be a one-dimensional array.")
+    spike_indices = np.ravel(spike_indices).astype(int)
+    if np.any(spike_indices < 0) or np.any(spike_indices >= len(velocities)):
+        raise ValueError("Spike indices must lie inside the velocities array.")
+
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace spike indices with NaN values
     modified_data[spike_indices] = np.nan
@@ -204,15 +210,16 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        # The 12 (already cleaned) data points before the spike and the next 12 valid ones after it
+        before = modified_data[max(i - 12, 0): i]
+        after = modified_data[i:][~np.isnan(modified_data[i:])][0:12]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
-            # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+        if i <= 30 or i >= (len(velocities) - 30) or after.size < 12:
+            # Use linear interpolation near the boundaries, or the only neighbour there is
+            modified_data[i] = np.append(before[-1:], after[:1]).mean()
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.append(before, after)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 124df507d820287e3dae85880b4646e31cfa644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 08/32] fix: kalman_filter replacement returns the modified
 data

---
 proadv/filtration/replacement/replacements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 671954f..66063b6 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -373,7 +373,8 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
     # Replace values at spikes indices with the kalman_filter values
-    modified_data[spike_indices] = filtered_data[spike_indices]
+    modified_data[spike_indices] = np.ravel(filtered_data)[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From 47091cade52e45539e476040aca0107c21130d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 09/32] fix: polynomial replacement handles a single spike and
 interpolates all of indices 1 to 10

---
 proadv/filtration/replacement/replacements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 66063b6..a5fe53b 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -427,7 +427,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    spike_indices = np.ravel(spike_indices)
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
@@ -435,7 +436,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
                 modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                                                     spike_indices[(spike_indices >= 1) & (spike_indices <= 10)],
+                                                     decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From ef99776c4f55b6eed6df5f505372bf8346cc5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 10/32] fix: mean converts every numeric string and rejects
 input without numbers

---
 proadv/statistics/descriptive.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..24d5d0e 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -207,19 +207,17 @@ def mean(array):
 
     # if at least one of the items in our list is not an int or float:
     if not isinstance(array, (int, float)) and np.size(np.array(array)) != 0:
+        values = []
         for item in array:
             if isinstance(item, str):
-                # Trys to convert the string to a float
                 try:
-                    array = list(array)
-                    index = array.index(item)
-                    array[index] = float(item)
-
+                    item = float(item)  # Try to convert strings to floats
                 except ValueError:
-                    # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
-                    continue
-        mean_array = np.sum(array) / np.size(array)
+                    continue  # Ignore non-numeric strings
+            values.append(item)
+        if len(values) == 0:
+            return 'Invalid input.'
+        mean_array = np.sum(values) / np.size(values)  # Calculate the mean
         return mean_array
 
     else:
-- 
2.43.0


From 6cfdf02cf955d1852d8266869b431cc0187509b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 11/32] fix: normal cdf handles integer and scalar input

---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From ce670a7b3287d3316265a937833cce783ecca636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 12/32] fix: kurtosis flattens multi-dimensional input as
 documented

---
 proadv/statistics/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/moment.py b/proadv/statistics/moment.py
index 4944be2..6092e77 100644
--- a/proadv/statistics/moment.py
+++ b/proadv/statistics/moment.py
@@ -105,7 +105,7 @@ def kurtosis(x):
     """
 
     # Convert data to a numpy array
-    x = np.array(x)
+    x = np.ravel(x)
 
     # Calculate the mean
     average = mean(x)
-- 
2.43.0


From 4dd8204e750e384e5f6cc21246aac5f9a3e7d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 13/32] fix: brentq honours its documented full output and
 non-convergence error

---
 proadv/statistics/optimize/optimize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..6c8940d 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -65,10 +65,10 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     fcur = f(xcur)
 
     # Check if we already have a root at the endpoints
-    if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
-    if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+    if fpre == 0 or fcur == 0:
+        xcur = xpre if fpre == 0 else xcur
+        result = {'root': xcur, 'function_calls': 2, 'iterations': 0, 'converged': True, 'flag': 'converged'}
+        return result if full_output else xcur
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
@@ -142,7 +142,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
+        'function_calls': i + 3,
         'iterations': i + 1,
         'converged': False,
         'flag': 'convergence not achieved'
@@ -150,7 +150,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("The algorithm failed to converge within maxiter iterations.")
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From 010b862cb09e5258cc37447e99337399e9588db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 14/32] fix: fminbound returns the best point evaluated, not
 the last one

---
 proadv/statistics/optimize/optimize.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 6c8940d..d9a79f1 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -328,7 +328,6 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
         convergence_flag = 2
 
     # Set the final optimal value and function value
-    x_optimal = x_current
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 50dd64da2819a4acb138c386c06e97c83d5bab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 15/32] fix: power_spectra takes overlap as a percentage of the
 block

---
 proadv/statistics/signal/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..e96a63a 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,7 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=int(block * overlap / 100), nfft=block,
+                     return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From 85652b9c2e39a9a30705f24eeae991f1b3a62713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 16/32] fix: 3-D phase-space thresholding rotates by the (c,
 d2c) angle and keeps points beyond a rounded-off axis

---
 proadv/filtration/detection/spherical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..1282553 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,7 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        zt = np.maximum(np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4), 0)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
@@ -167,7 +167,7 @@ def spherical_phasespace_thresholding(c, iteration, c_mean):
     dc, dc2 = _gradients(c)
 
     # Calculaterotation angle
-    theta = np.around(np.arctan2(np.sum(c * dc), np.sum(dc2 ** 2)), 4)
+    theta = np.around(np.arctan2(np.sum(c * dc2), np.sum(c ** 2)), 4)
 
     # Rotate data
     x, y, z = _rotation(c, dc, dc2, theta)
-- 
2.43.0


From 53a67f3d59e4aec920b81408572ff7f5c42d57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 17/32] fix: bivariate kernel histogram cells and cosine
 transform pair

---
 proadv/kernel/bivariate.py | 44 +++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..c8b5c9a 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -130,7 +130,7 @@ def _histogram(trans, grid):
     
     # Iterate over each column and compute the bins
     for i in range(cols):
-        bins[:, i] = np.digitize(trans[:, i], hist, 1)
+        bins[:, i] = np.digitize(trans[:, i], hist) - 1
         bins[:, i] = np.minimum(bins[:, i], grid - 1)
         
     # Accumulate the binned data
@@ -157,7 +157,7 @@ def _discrete_cosine_1d(data, weight):
     reordered = np.vstack((data[::2, :], data[::-2, :]))
     
     # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
@@ -193,6 +193,44 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_discrete_cosine_1d(data):
+    """
+    Invert the 1D discrete cosine transform along the first axis (even number of rows).
+
+    Parameters
+    ------
+    data (array_like): Discrete cosine transform, one per column.
+
+    Returns
+    ------
+    inverse (array_like): Data whose discrete cosine transform was given.
+    """
+
+    rows = data.shape[0]
+    weight = np.exp(1j * np.arange(rows) * np.pi / (2 * rows))[:, np.newaxis]
+    reordered = np.real(np.fft.ifft(weight * data, axis=0))
+    inverse = np.zeros(data.shape)
+    inverse[::2, :] = reordered[:rows // 2, :]
+    inverse[::-2, :] = reordered[rows // 2:, :]
+    return inverse
+
+
+def _inverse_discrete_cosine_2d(data):
+    """
+    Compute the 2D inverse discrete cosine transform of the input square data.
+
+    Parameters
+    ------
+    data (array_like): Input square data array.
+
+    Returns
+    ------
+    inverse (array_like): 2D inverse discrete cosine transform of the input data.
+    """
+
+    return _inverse_discrete_cosine_1d(_inverse_discrete_cosine_1d(data).T).T
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +461,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0


From 918925a7b3af478ba1ad99e5fae8c098b268a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 18/32] fix: brentq bisects when the extrapolation denominator
 underflows

---
 proadv/statistics/optimize/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index d9a79f1..cc1063b 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -112,7 +112,9 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
                 # Extrapolation
                 dpre = (fpre - fcur) / (xpre - xcur)
                 dblk = (fblk - fcur) / (xblk - xcur)
-                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
+                denominator = dblk * dpre * (fblk - fpre)
+                # An underflowing denominator gives no usable step: bisect instead
+                stry = -fcur * (fblk * dblk - fpre * dpre) / denominator if denominator != 0 else np.inf
 
             # Decide if we accept the interpolation/extrapolation
             if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
-- 
2.43.0


From 4437a79a18f2f105ba92bba9b5956984d8a72b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:40 +0000
Subject: [PATCH 19/32] fix: weighted moving average over the whole record
 returns an (empty) array

With period equal to the record length the result was a Python list, so the
replacement built on it raised TypeError even when nothing was flagged.
---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..8581d9e 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -185,7 +185,7 @@ def weighted_moving_average(data, period=20):
     if period > data.size:
         raise ValueError("Data array size must be greater than period.")
 
-    wma = []
+    wma = np.array([])
 
     for i in range(period, data.size):
         """
-- 
2.43.0


From 68195c44be0c33b2565bc25e2e2c8a63ab705a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:58 +0000
Subject: [PATCH 20/32] fix: kernel returns the density of the rotated data it
 is evaluated for

The estimate was computed with the unrotated samples as kernel centres but on the rotated mesh and with the
covariance of the rotated samples, so the returned array was not a density of either.
---
 proadv/filtration/detection/trivariatekernel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..28eab4c 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,14 +472,13 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
-    dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
     uf, wf = _profile(mesh_u, mesh_w)
     positions, values = _position(mesh_u, mesh_w, ut, wt)
     evals = _density(values)
-    evole = _evolve(dataset, positions, evals)
+    evole = _evolve(values, positions, evals)
     estimation = _estimation(evole.T, mesh_u)
     density = np.reshape(kde(values)(positions).T, mesh_u.shape)
     peak, up, wp, fu, fw = _peak(density)
-- 
2.43.0


From 1785b8510cc7833adf3b41dc1e8acb5f3511fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:31 +0000
Subject: [PATCH 21/32] fix: exponential moving average of integer data is not
 truncated to integers

---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index 8581d9e..af74670 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -118,7 +118,7 @@ def exponential_moving_average(data, alpha=0.2):
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
     # Initialize the exponential moving average array with zeros
-    ema = np.zeros_like(data)
+    ema = np.zeros_like(data, dtype=float)
 
     # Set the first value of ema to be equal to the first value of the data
     ema[0] = data[0]
-- 
2.43.0


From 23c05d898da7e40b8d39b2c01ef59d659282b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:31 +0000
Subject: [PATCH 22/32] fix: derivatives of integer series are not truncated to
 integers

---
 proadv/filtration/detection/phasespace.py       | 4 ++--
 proadv/filtration/detection/trivariatekernel.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index cef7e24..047cabb 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -17,8 +17,8 @@ def calculate_derivatives(c):
         dc2 (array_like): Second derivative of the input data.
     """
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(c)
-    dc2 = np.zeros_like(c)
+    dc = np.zeros_like(c, dtype=float)
+    dc2 = np.zeros_like(c, dtype=float)
 
     # Calculate first derivative
     for i in range(1, len(c) - 1):
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 28eab4c..08702b2 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -20,8 +20,8 @@ def _derivatives(data):
     """
 
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(data)
-    dc2 = np.zeros_like(data)
+    dc = np.zeros_like(data, dtype=float)
+    dc2 = np.zeros_like(data, dtype=float)
 
     # Calculate first derivative
     for i in range(1, data.size - 1):
-- 
2.43.0


From ef6eac7dc9b072eac33d7a74a126240354eba09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:44 +0000
Subject: [PATCH 23/32] fix: replacement values are not truncated to integers
 in integer series

---
 proadv/filtration/replacement/replacements.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index a5fe53b..6d57da1 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -54,7 +54,7 @@ def mean_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the mean value
     modified_data[spike_indices] = mean(velocities)
@@ -80,7 +80,7 @@ def median_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the median value
     modified_data[spike_indices] = median(velocities)
@@ -245,7 +245,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
     from proadv.statistics.series import moving_average as ma
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use moving_average function
     sma = ma(modified_data, window_size)
@@ -275,7 +275,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
     from proadv.statistics.series import exponential_moving_average as expo
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use exponential_moving_average function
     ema = expo(modified_data, alpha)
@@ -305,7 +305,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
     from proadv.statistics.series import weighted_moving_average as wm
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use weighted_moving_average function
     wma = wm(modified_data, period)
@@ -335,7 +335,7 @@ def ssa(velocities, spike_indices, fs, f):
     from proadv.statistics.series import ssa as sa
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use ssa function
     xf = sa(modified_data, fs, f)
@@ -367,7 +367,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     from proadv.statistics.series import kalman_filter as kl
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
@@ -425,7 +425,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
     a = 0
     spike_indices = np.ravel(spike_indices)
     for i in spike_indices:
-- 
2.43.0


From 7c28bbf99991d7bc4a9f108b3300aeb853c6ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:04 +0000
Subject: [PATCH 24/32] fix: a degenerate ellipse flags nothing at any velocity
 scale

---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 3240550..547dc5b 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (np.inf, np.inf)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 866c369ad6392f05682f5323d3a945e437729d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 25/32] fix: accelerations of narrow or unsigned integer
 records do not wrap around

---
 proadv/filtration/detection/acceleration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/acceleration.py b/proadv/filtration/detection/acceleration.py
index a993c36..84e3beb 100644
--- a/proadv/filtration/detection/acceleration.py
+++ b/proadv/filtration/detection/acceleration.py
@@ -46,7 +46,7 @@ def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity
             "Despiking acoustic Doppler velocimeter data."
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
-    velocities = np.asarray(velocities)
+    velocities = np.asarray(velocities, dtype=float)
 
     # Calculate velocity differences and multiply by frequency to obtain acceleration
     differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))
-- 
2.43.0


From ca6c18a7405e6c8b53cac2a035c686f25da54c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 26/32] fix: phase space of narrow or unsigned integer records
 does not wrap around

---
 proadv/filtration/detection/phasespace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 047cabb..7f3314b 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -17,6 +17,7 @@ def calculate_derivatives(c):
         dc2 (array_like): Second derivative of the input data.
     """
     # Initialize arrays for first and second derivatives
+    c = np.asarray(c, dtype=float)
     dc = np.zeros_like(c, dtype=float)
     dc2 = np.zeros_like(c, dtype=float)
 
@@ -55,6 +56,8 @@ def calculate_parameters(c, dc, dc2):
         a3 (float): Coefficient 'a3'.
         b3 (float): Coefficient 'b3'.
     """
+    c = np.asarray(c, dtype=float)
+
     # Calculate standard deviations
     std_c = std(c)
     std_dc = std(dc)
-- 
2.43.0


From 70432caaf5a12da852359cf4a991fbb90d3b32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 27/32] fix: moving average of narrow or unsigned integer
 records does not wrap around

---
 proadv/statistics/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index af74670..f42836b 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -55,6 +55,7 @@ def moving_average(data, window_size=20):
     if window_size > data.size:
         raise ValueError("Data array size must be greater than window size.")
 
+    data = np.asarray(data, dtype=float)
     ma = np.zeros(data.size)  # Moving Average
 
     # Calculate the initial moving average for the first window_size elements
-- 
2.43.0


From ba252edaaafddcf57f7a7caeedb0f95b5d7a3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 28/32] fix: normal density of narrow integer arrays does not
 wrap around

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3a69544..90d9041 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -121,7 +121,7 @@ def pdf(array, std=1, mean=0):
         ------
 
         """
-    array = np.copy(array)
+    array = np.array(array, dtype=float)
     if array.size == 0:
         raise ValueError("cannot calculate PDF with empty array")
     if np.isnan(array).any():
-- 
2.43.0


From 2517e6564a0c768f077c891ca4b9e2eb03aa090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:36 +0000
Subject: [PATCH 29/32] fix: kernel filters on narrow or unsigned integer
 records do not wrap around

---
 proadv/filtration/detection/bivariatekernel.py  | 1 +
 proadv/filtration/detection/trivariatekernel.py | 2 ++
 proadv/kernel/bivariate.py                      | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/proadv/filtration/detection/bivariatekernel.py b/proadv/filtration/detection/bivariatekernel.py
index 31126d0..beed5cc 100644
--- a/proadv/filtration/detection/bivariatekernel.py
+++ b/proadv/filtration/detection/bivariatekernel.py
@@ -54,6 +54,7 @@ def _cutoff(density_profile, velocity_profile, c1_threshold, c2_threshold, force
 
 
 def _derivative(data):
+    data = np.asarray(data, dtype=float)
     data_size = data.size
     derivative = np.zeros(data_size)
     for i in range(1, data_size - 1):
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 08702b2..475e98f 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -20,6 +20,7 @@ def _derivatives(data):
     """
 
     # Initialize arrays for first and second derivatives
+    data = np.asarray(data, dtype=float)
     dc = np.zeros_like(data, dtype=float)
     dc2 = np.zeros_like(data, dtype=float)
 
@@ -472,6 +473,7 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
+    u1, w1 = np.asarray(u1, dtype=float), np.asarray(w1, dtype=float)
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index c8b5c9a..039471b 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -17,6 +17,7 @@ def _rotation(x, y):
     """
 
     # Compute the size of the data
+    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
     data_size = x.size
 
     # Calculate the numerator and denominator for the rotation angle
@@ -418,6 +419,7 @@ def bivariate_kernel(data, hx, hy, grid):
     """
     
     # Compute scaling parameters
+    data = np.asarray(data, dtype=float)
     data_size = data.size
     max_co, min_co, scale = _scaling(data)
     
-- 
2.43.0


From aa67ffc299ddab8327cb4679b5c224e868753ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:48 +0000
Subject: [PATCH 30/32] fix: kurtosis test of flat samples (negative
 denominator) returns its z-score

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 90d9041..b13b635 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -294,7 +294,7 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / np.abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From 4401c71551888204eabaa8a65a0d975898eefaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 31/32] fix: bivariate kernel density on a grid with an odd
 number of bins

---
 proadv/kernel/bivariate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 039471b..42a516e 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -155,7 +155,7 @@ def _discrete_cosine_1d(data, weight):
     """
     
     # Reorder the data for the discrete cosine transform
-    reordered = np.vstack((data[::2, :], data[::-2, :]))
+    reordered = np.vstack((data[::2, :], data[1::2, :][::-1]))
     
     # Compute the discrete cosine transform using FFT
     transform = np.real(weight * np.fft.fft(reordered, axis=0))
@@ -211,8 +211,8 @@ def _inverse_discrete_cosine_1d(data):
     weight = np.exp(1j * np.arange(rows) * np.pi / (2 * rows))[:, np.newaxis]
     reordered = np.real(np.fft.ifft(weight * data, axis=0))
     inverse = np.zeros(data.shape)
-    inverse[::2, :] = reordered[:rows // 2, :]
-    inverse[::-2, :] = reordered[rows // 2:, :]
+    inverse[::2, :] = reordered[:(rows + 1) // 2, :]
+    inverse[1::2, :] = reordered[(rows + 1) // 2:, :][::-1]
     return inverse
 
 
-- 
2.43.0


From 18ddc17338afa7e2ada6a2a7332a63d2454e3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 32/32] fix: mean returns a single numpy number unchanged

---
 proadv/statistics/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 24d5d0e..f3987f9 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -194,7 +194,7 @@ def mean(array):
     'Invalid input.'
     """
 
-    if isinstance(array, (int, float)):
+    if isinstance(array, (int, float, np.number)):
         return array  # If it's a single number, return it as the mean
 
     elif np.size(np.array(array)) != 0 and type(array) != str and all(isinstance(item, (int, float)) for item in array):
-- 
2.43.0

