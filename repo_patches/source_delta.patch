From 72b5c34010d366e1ab58221a864a90c8537e76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 01/23] fix: degenerate ellipse in calculate_ab returned a
 nested tuple

The conditional bound only the second element, so velocity_correlation raised ValueError whenever an ellipse
degenerated (e.g. a common-mode spike on all components).
---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 2254024ac6af30de8d0c3d8e5c072a8ca39511b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 02/23] fix: linear_interpolation raised IndexError when no
 spike was flagged

---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..c5addd5 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -126,6 +126,10 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
+    # Without spikes there is nothing to interpolate
+    if len(spike_indices) == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Calculate differences between consecutive spike indices
     spike_diff = np.diff(spike_indices)
     # Identify the start index of each spike sequence
-- 
2.43.0


From 5053721ffc4157522d7b1e9fd1028bc68c47ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 03/23] fix: polynomial_replacement failed on a single spike
 and skipped index 10

squeeze() turned one flagged index into a 0-d array that cannot be iterated, and the early-sample branch (i <= 10)
only interpolated indices below 10.
---
 proadv/filtration/replacement/replacements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index c5addd5..f7b33f5 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -418,7 +418,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    spike_indices = np.ravel(spike_indices)
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
@@ -426,7 +427,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
                 modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                                                     spike_indices[spike_indices <= 10], decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From 64744688d33037824c1472e725dcdbb3b722849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 04/23] fix: kalman_filter replacement raised TypeError and
 returned nothing

The smoother returns a list of 1x1 arrays, which cannot be indexed with an index array, and the return was missing.
---
 proadv/filtration/replacement/replacements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index f7b33f5..c51d822 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -365,7 +365,9 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
     # Replace values at spikes indices with the kalman_filter values
+    filtered_data = np.reshape(filtered_data, np.shape(modified_data))
     modified_data[spike_indices] = filtered_data[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From 0aa2e9757f76748cd8d0e9cef7812d15e3a4c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 05/23] fix: cubic_12points_polynomial failed when too few
 valid samples follow a spike

IndexError when a flagged run reaches the last sample, ValueError with fewer than 12 valid samples after it.
---
 proadv/filtration/replacement/replacements.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index c51d822..4c144bc 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -203,15 +203,17 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        following = modified_data[i:][~np.isnan(modified_data[i:])]
+        if following.size == 0:
+            # No valid sample follows: fall back to the mean of the data
+            modified_data[i] = mean(velocities)
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
+        elif i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            modified_data[i] = np.around((velocities[i - 1] + following[0]) / 2, 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.delete(np.append(velocities[i - 13: i], following[0:12]), 12)
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 03e50f42f1a2ebfd1015947872a415d441b9f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 06/23] fix: fminbound returned the last evaluated point
 instead of the best one

---
 proadv/statistics/optimize/optimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..96189b5 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -327,8 +327,7 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
     if np.isnan(x_optimal) or np.isnan(f_current) or np.isnan(f_temp):
         convergence_flag = 2
 
-    # Set the final optimal value and function value
-    x_optimal = x_current
+    # Set the final function value
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 0e291abf9fc3151680cd72dd5fba3025851ad12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 07/23] fix: brentq full_output was a tuple, not the documented
 dict, for a root at an end point

---
 proadv/statistics/optimize/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 96189b5..5328278 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -66,9 +66,11 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
+        result = {'root': xpre, 'function_calls': 2, 'iterations': 0, 'converged': True, 'flag': 'converged'}
+        return result if full_output else xpre
     if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+        result = {'root': xb, 'function_calls': 2, 'iterations': 0, 'converged': True, 'flag': 'converged'}
+        return result if full_output else xb
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
-- 
2.43.0


From 3c5481a0510ac763c19a8ad07d36cda36680bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 08/23] fix: brentq must raise ValueError when it does not
 converge, as documented

It returned an unconverged point as if it were a root; the reported number of function calls was one short.
---
 proadv/statistics/optimize/optimize.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 5328278..4431d3f 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -144,15 +144,14 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
-        'iterations': i + 1,
+        'function_calls': maxiter + 2,
+        'iterations': maxiter,
         'converged': False,
         'flag': 'convergence not achieved'
     }
     if full_output:
         return result
-    else:
-        return result['root']
+    raise ValueError("Convergence not achieved within maxiter iterations.")
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From 5a467cff53ff5236bba3f96a263b5ca09446e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 09/23] fix: brentq reported a converged root after the
 function returned NaN

A NaN compares as a sign change with everything, so the bracket was lost and an arbitrary point was returned.
---
 proadv/statistics/optimize/optimize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 4431d3f..723c93b 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -63,6 +63,8 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     xcur = xb
     fpre = f(xpre)
     fcur = f(xcur)
+    if np.isnan(fpre) or np.isnan(fcur):
+        raise ValueError("The function value at an endpoint is NaN.")
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
@@ -140,6 +142,8 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
         # Evaluate the function at the new current point
         fcur = f(xcur)
+        if np.isnan(fcur):
+            raise ValueError("The function value is NaN; the search cannot continue.")
 
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
-- 
2.43.0


From 9e455c01bb8298e210d6f535a8313e701161fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 10/23] fix: brentq raised ZeroDivisionError when the
 interpolation denominator underflows

---
 proadv/statistics/optimize/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 723c93b..305d618 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -116,7 +116,9 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
                 # Extrapolation
                 dpre = (fpre - fcur) / (xpre - xcur)
                 dblk = (fblk - fcur) / (xblk - xcur)
-                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
+                denominator = dblk * dpre * (fblk - fpre)
+                # A denominator that underflows to zero gives no usable step: bisect instead
+                stry = -fcur * (fblk * dblk - fpre * dpre) / denominator if denominator != 0 else np.inf
 
             # Decide if we accept the interpolation/extrapolation
             if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
-- 
2.43.0


From 98d349686d4da3fa0b066f0779c87d9952a2aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 11/23] fix: moving_average never recovered from a NaN,
 infinite or huge sample

The incremental update carried the bad value (or its rounding error) into every later output.
---
 proadv/statistics/series.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..2bcee6c 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -22,8 +22,8 @@ def moving_average(data, window_size=20):
 
     Notes
     ------
-    This function implements a cumulative moving average calculation. It's more
-        efficient than calculating a simple moving average for each element.
+    Each output is the mean of the samples inside the window, so a faulty sample has no effect
+        once it has left the window.
 
     Examples
     ------
@@ -62,18 +62,10 @@ def moving_average(data, window_size=20):
         # Calculate the average of the data points from begining up to the current index (inclusive)
         ma[i] = mean(data[:i + 1])
 
-    # Efficiently calculate the moving average for remaining elements using cumulative sum
+    # Calculate the moving average for the remaining elements from the samples inside the window only:
+    # an incremental update would carry a NaN, an infinity or the rounding error of a huge spike forever
     for i in range(window_size, data.size):
-        """
-        This loop calculates the moving average for elements from index 'window_size' onwards.
-        It leverages the previously calculated moving average (ma[i-1]) and the new data point
-        (data[i]) to efficiently update the moving average using the formula:
-        ma[i] = ma[i-1] + (data[i] - data[i-window_size]) / window_size
-        
-        Update the moving average based on the previous average, new data point,
-        and the difference between the current and window_sizeth previous data point
-        """
-        ma[i] = ma[i - 1] + (data[i] - data[i - window_size]) / window_size
+        ma[i] = np.mean(data[i - window_size + 1: i + 1])
 
     return ma
 
-- 
2.43.0


From 23c3579e88818c3d142869866b0ad0fa48d1bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 12/23] fix: phasespace_thresholding_premodification never
 replaced anything

No sample is both above the positive and below the negative threshold, so the intersection was always empty.
The replacement works on a copy: the caller's record is not modified.
---
 proadv/filtration/detection/phasespace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..70210a8 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -163,10 +163,11 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
+    data = np.copy(data)
     for i in removable_indices:
         data[i] = data[i - 1]
 
-- 
2.43.0


From f4b40651e2c98897649faa4ad227d80649d11d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 13/23] fix: synthetic_noise never returned for a percentage
 above 100

There are not enough distinct indexes, so the rejection loop ran forever.
---
 proadv/statistics/signal/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/statistics/signal/synthetic.py b/proadv/statistics/signal/synthetic.py
index 203bf56..1a9a9ba 100644
--- a/proadv/statistics/signal/synthetic.py
+++ b/proadv/statistics/signal/synthetic.py
@@ -16,6 +16,9 @@ def _random_index(data_size, percent):
     randoms (np.ndarray): An array containing randomly selected indexes.
     """
 
+    if percent > 100:
+        raise ValueError("Percent cannot exceed 100.")
+
     randoms = []
     iteration = 0
     while iteration < len(range(int(data_size * percent / 100))):
-- 
2.43.0


From 952e270268b75a233b38bd3f027ccd063fd544f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:04 +0000
Subject: [PATCH 14/23] fix: cdf raised TypeError for a scalar, so skewtest and
 kurtotest never worked

Both tests pass their z score, a scalar; it is flattened like any other shape and reshaped back.
---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..f0a7232 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -53,7 +53,7 @@ def cdf(array):
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From f25e92e532517425a4d1aa33c2adf3c3bc09bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:04 +0000
Subject: [PATCH 15/23] fix: cubic_12points_polynomial used unrepaired spikes
 and skipped the nearest sample

The 12 points before a spike were read from the raw record, so in a burst the next sample was computed from spikes that
had already been flagged, and the point next to the spike was dropped, which shifted the others by one position (a straight
line was not reproduced).
---
 proadv/filtration/replacement/replacements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 4c144bc..f943838 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -210,10 +210,11 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
         # Check if index is near the boundaries
         elif i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + following[0]) / 2, 4)
+            previous = modified_data[i - 1] if i > 0 else following[0]
+            modified_data[i] = np.around((previous + following[0]) / 2, 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], following[0:12]), 12)
+            yint = np.append(modified_data[i - 12: i], following[0:12])
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 4eebad36debbcd7098eeced97bb6c345d0e856a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 16/23] fix: weighted_moving_average returned a list for a
 period equal to the record length

---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index 2bcee6c..937fddc 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -177,7 +177,7 @@ def weighted_moving_average(data, period=20):
     if period > data.size:
         raise ValueError("Data array size must be greater than period.")
 
-    wma = []
+    wma = np.array([])
 
     for i in range(period, data.size):
         """
-- 
2.43.0


From b81de9b724fddf5c7d4d1daf3de3841b4b90de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:58 +0000
Subject: [PATCH 17/23] fix: spherical thresholding missed spikes whose
 projection rounds below zero

---
 proadv/filtration/detection/spherical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..89d2dda 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,8 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        # Rounding of x2 and y2 can push this slightly below zero; its square root would be NaN and the spike missed
+        zt = np.maximum(np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4), 0)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
-- 
2.43.0


From dcecaf6f1145df6f2485175b1628fa4c65b36e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 18/23] fix: cdf of integer values was truncated to integers

---
 proadv/statistics/distributions/normal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index f0a7232..414676c 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -48,6 +48,8 @@ def cdf(array):
 
     from math import erf, erfc
     array_cdf = np.copy(array)
+    if array_cdf.dtype.kind in 'biu':  # integers cannot hold probabilities
+        array_cdf = array_cdf.astype(float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
-- 
2.43.0


From bcaa45753add225d135945423ecf09750b4bd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:27 +0000
Subject: [PATCH 19/23] fix: kurtotest reported a p-value for records with NaN
 samples

---
 proadv/statistics/distributions/normal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 414676c..fe2fea9 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -266,6 +266,10 @@ def kurtotest(data, alternative='two-sided'):
         raise ValueError(
             "kurtosistest requires at least 5 observations; {} observations were given.".format(num_observations))
 
+    # A missing sample has no kurtosis (the masked arithmetic below would turn it into a p-value)
+    if np.isnan(data).any():
+        raise TypeError('array cannot contain NaN values.')
+
     # Calculate the kurtosis of the data
     kurtosis_value = kurtosis(data)
 
-- 
2.43.0


From a05439e3b931b14245bc87acb468c546a69ed9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:45 +0000
Subject: [PATCH 20/23] fix: pollution_rate wrapped around for unsigned integer
 records

---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..0c1457b 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < -(xfil + k * std(x)))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 4e0a27abc8297e8a7375166501986680dace26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:25 +0000
Subject: [PATCH 21/23] fix: detectors overflowed or truncated derivatives on
 integer records

---
 proadv/filtration/detection/acceleration.py     | 3 ++-
 proadv/filtration/detection/phasespace.py       | 6 ++++++
 proadv/filtration/detection/trivariatekernel.py | 6 ++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/acceleration.py b/proadv/filtration/detection/acceleration.py
index a993c36..914f283 100644
--- a/proadv/filtration/detection/acceleration.py
+++ b/proadv/filtration/detection/acceleration.py
@@ -46,7 +46,8 @@ def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity
             "Despiking acoustic Doppler velocimeter data."
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
-    velocities = np.asarray(velocities)
+    # Differences of integer samples would overflow
+    velocities = np.asarray(velocities, dtype=float)
 
     # Calculate velocity differences and multiply by frequency to obtain acceleration
     differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))
diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 70210a8..6a88d8f 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -16,6 +16,9 @@ def calculate_derivatives(c):
         dc (array_like): First derivative of the input data.
         dc2 (array_like): Second derivative of the input data.
     """
+    # Derivatives of integer samples are not integers
+    c = np.asanyarray(c, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(c)
     dc2 = np.zeros_like(c)
@@ -101,6 +104,9 @@ def phasespace_thresholding(c):
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
 
+    # Squares and differences of integer samples would overflow
+    c = np.asanyarray(c, dtype=float)
+
     # Calculate first and second order derivatives of the input data
     dc, dc2 = calculate_derivatives(c)
 
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..bcb5ffe 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -19,6 +19,9 @@ def _derivatives(data):
     dc2 (array_like): Second derivative of the input data.
     """
 
+    # Derivatives of integer samples are not integers
+    data = np.asanyarray(data, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(data)
     dc2 = np.zeros_like(data)
@@ -472,6 +475,9 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
+    # Products and sums of integer samples would overflow
+    u1, w1 = np.asanyarray(u1, dtype=float), np.asanyarray(w1, dtype=float)
+
     dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
-- 
2.43.0


From 6ab8a18842d58a0b7bfc862325bacdc9bab5527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 22/23] fix: pdf of narrow integer values overflowed

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index fe2fea9..1922327 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -129,7 +129,7 @@ def pdf(array, std=1, mean=0):
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
     x = (-0.5 * np.log(2 * np.pi)) - np.log(std)
-    y = np.power(array - mean, 2) / (2 * (std * std))
+    y = np.power(np.subtract(array, mean, dtype=float), 2) / (2 * (std * std))
     array_pdf = np.exp(x - y)
     return array_pdf
 
-- 
2.43.0


From 080a5f4039b521822f1a3ba632a0dbd9550fe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 23/23] fix: filter cut-offs given as narrow integers
 overflowed

---
 proadv/statistics/signal/butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/butter.py b/proadv/statistics/signal/butter.py
index f149932..0449028 100644
--- a/proadv/statistics/signal/butter.py
+++ b/proadv/statistics/signal/butter.py
@@ -599,7 +599,7 @@ def butterworth(q, w, btype='bp', ag=False, output='nd', sr=None):
     """
     sr = _valid_g(sr, an=True)
     btype, output = (x.lower() for x in (btype, output))
-    w = np.asarray(w)
+    w = np.asarray(w, dtype=float)  # Avoid int wraparound
     if sr is not None:
         if ag:
             raise ValueError("fs cannot be specified for an analog filter")
-- 
2.43.0

