From a0aaee9dfde6e775a27c02a9ba7ee73358f5f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 01/53] fix: b-positive with weights returns NaN without
 positive differences

np.average raises ZeroDivisionError for empty weights, while the unweighted
estimate of the same catalog is NaN.
---
 seismostats/analysis/bvalue/classic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..d4f66fa 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,9 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        return np.nan
+
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
-- 
2.43.0


From 9c3fe8a0d8f021b32b98d704e5aa00c79c35281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 02/53] fix: b-more-positive supports continuous magnitudes
 (delta_m=0)

bin_to_precision raises for a zero bin size; b-positive already guards it.
---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From 5c21d6c88a547011e4292e3790a89208a93a3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 03/53] fix: a-positive estimators keep times and idx
 consistent without pairs

Without any positive pair, APositive kept the full times array next to empty
magnitudes, and AMorePositive replaced the integer idx by a float array.
---
 seismostats/analysis/avalue/more_positive.py | 2 +-
 seismostats/analysis/avalue/positive.py      | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..c8c4211 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -140,7 +140,7 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         if sum(idx_no_next) == len(idx_next_larger):
             self.magnitudes = np.array([])
             self.times = np.array([])
-            self.idx = np.array([])
+            self.idx = np.array([], dtype=int)
             if get_option('warnings') is True:
                 warnings.warn('Not enough events to estimate a-value.')
             return np.nan
diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index 75ae4a7..f0743a2 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -131,6 +131,8 @@ class APositiveAValueEstimator(AValueEstimator):
         time_diffs = time_diffs[is_larger]
         self.magnitudes = self.magnitudes[1:][is_larger]
         self.idx = self.idx[1:][is_larger]
+        total_time = self.times[-1] - self.times[0]
+        self.times = self.times[1:][is_larger]
 
         # check if there are enough events
         if len(time_diffs) == 0:
@@ -139,9 +141,6 @@ class APositiveAValueEstimator(AValueEstimator):
             return np.nan
 
         # estimate the number of events within the time interval
-        total_time = self.times[-1] - self.times[0]
-        self.times = self.times[1:][is_larger]
-
         time_factor = sum(time_diffs / total_time)
         n_pos = sum(is_larger) / time_factor
 
-- 
2.43.0


From 7048869f14ee0471a3aef3fa3893b0d01e301b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 04/53] fix: binning test accepts correctly binned magnitudes
 above 8

The absolute tolerance of 1e-15 is below the floating-point resolution of
large magnitudes: e.g. [7.4, 8.2] or [8.7, 8.8, 8.9] with bins of 0.1 were
rejected as not binned, so that all estimators raised a ValueError.
---
 seismostats/utils/binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 03e1fc5..4a2e19b 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -146,6 +146,9 @@ def binning_test(
     # filter out NaN values
     x = x[~np.isnan(x)]
 
+    # floating-point resolution of the values, which the shift does not remove
+    resolution = 4 * np.spacing(np.max(np.abs(x)))
+
     # shift the array to the smallest value (to avoid that the bin-center has
     # an effect on the test)
     x = x - np.min(x)
@@ -166,6 +169,7 @@ def binning_test(
         if delta_x < tolerance:
             return True
         x_binned = bin_to_precision(x, delta_x)
+        tolerance = max(tolerance, min(resolution, delta_x / 1000))
 
         # This test checks if the bins are equal or larger than delta_x.
         test_1 = np.allclose(x_binned, x, atol=tolerance, rtol=1e-16)
-- 
2.43.0


From 74ed98ff62f8301afd29a2ac7d2006170f412874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 05/53] fix: a-more-positive does not truncate datetime
 differences

Multiplying timedelta64 differences by the scaling factor truncates them to the
resolution of the datetimes, so that the estimate depended on whether the times
are stored as datetime64[s], [ms] or [ns].
---
 seismostats/analysis/avalue/more_positive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index c8c4211..be44cb8 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -152,11 +152,12 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         # estimate the number of events within the time interval
         total_time = self.times[-1] - self.times[0]
 
-        # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        # scale the time (as a fraction, since scaled datetime differences
+        # would be truncated to the resolution of the datetimes)
+        tau = time_diffs / total_time * 10**(
+            -self.b_value * (self.magnitudes + self.dmc - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From 8851070dfbd93025c9e37e4b4d077665e640229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 06/53] fix: estimate_b returns (b, n) with return_n but
 without return_std

It raised a TypeError, as the b-value alone is not iterable.
---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From f278ad2dc34fd8ae658bc9e3fa489241e5574c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 07/53] fix: Kijko-Smit and Weichert estimators return beta
 with b_parameter='beta'

The returned variable was only set for b_parameter='b_value'.
---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From cd5e66743a148e616a0c493d2cca9c4c7497e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 08/53] fix: Kijko-Smit estimator skips completeness periods
 without events

The mean magnitude of an empty period is NaN, which turned all results NaN.
---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..eefcff4 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,8 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From ce157a108a78a2d750ef8ebde92014b53cb3957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 09/53] fix: binning_test with delta_x=0 does not test bins it
 cannot resolve

---
 seismostats/utils/binning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 4a2e19b..ebafa9d 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -155,14 +155,18 @@ def binning_test(
 
     if delta_x == 0 and check_larger_binning is True:
         range = np.max(x) - np.min(x)
+        # bin sizes below EPSILON cannot be tested
         power = np.arange(
-            np.floor(np.log10(tolerance)) + 1, np.ceil(np.log10(range)), 1
+            np.floor(np.log10(max(tolerance, EPSILON))) + 1,
+            np.ceil(np.log10(range)), 1
         )
         delta_x_test = 10**power
         test = True
         tolerance = 10 ** (np.floor(np.log10(tolerance)) - 1)
         for delta_x_loop in delta_x_test:
-            if binning_test(x, delta_x_loop, tolerance):
+            tolerance_loop = max(
+                tolerance, min(resolution, delta_x_loop / 1000))
+            if binning_test(x, delta_x_loop, tolerance_loop):
                 return False
 
     else:
-- 
2.43.0


From 98e5dbe8d96c763290f6eff626dde8b418d6ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 10/53] fix: b-value stability always averages the b-values of
 all steps

np.arange(mc, mc + stability_range, delta_m) has one element too many for
some mcs (with the default arguments: 0.6, 1.7, 3.9), due to rounding.
---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..682d42e 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -541,7 +541,7 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
+        mc_plus = mc + delta_m * np.arange(steps)
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-- 
2.43.0


From 53bc11713fc6fe71422929ffa9d9fad25b5761d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 11/53] fix: b-value stability with a range of one bin tests
 mcs

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 682d42e..a8a286f 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -501,7 +501,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From b31d4a50354f0aeba3bbfc62799014ad07303380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 12/53] fix: b-value stability returns the best mc if an
 earlier mc gave NaN

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index a8a286f..ab97c2b 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -557,7 +557,7 @@ def estimate_mc_b_stability(
 
         if diff_b <= 1:
             value = True
-            if diff_b == min(diff_bs):
+            if diff_b == np.nanmin(diff_bs):
                 best_mc = mc
                 best_b_value = b_values_test[-1]
             if stop_when_passed:
-- 
2.43.0


From 9df78f0913999d09f0893b287f3396e2464a8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 13/53] fix: b-value stability returns an mc of 0

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index ab97c2b..e4d79ae 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -578,5 +578,6 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m) 
+            if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From b100f4ded9ffdf963234316861c137abf28d2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 14/53] fix: b-value stability respects the warnings option

---
 seismostats/analysis/estimate_mc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index e4d79ae..dd1cc5c 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -532,7 +532,7 @@ def estimate_mc_b_stability(
 
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
-        if len(sample_selected) < 30:
+        if len(sample_selected) < 30 and get_option("warnings") is True:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
@@ -578,6 +578,6 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) 
+    return (bin_to_precision(best_mc, delta_m)
             if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From 543f38e44b838048df015d8a9aa051423fce7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 15/53] fix: b-value stability keeps the largest possible mc
 despite rounding

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index dd1cc5c..40a3784 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -504,7 +504,8 @@ def estimate_mc_b_stability(
         mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
-        mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
+        mcs_test = mcs_test[mcs_test + stability_range
+                            <= np.max(magnitudes) + delta_m / 100]
         if len(mcs_test) < 1:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-- 
2.43.0


From d4f5e33c3b10522783d973c1032be713f056e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 16/53] fix: automatic mcs never include the largest magnitude

Due to rounding, np.arange(min, max, delta_m) included it for some
magnitude ranges (e.g. 1.0 to 1.3).
---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 40a3784..cf8bd00 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -230,7 +230,8 @@ def estimate_mc_ks(
 
     if mcs_test is None:
         mcs_test = bin_to_precision(
-            np.arange(np.min(magnitudes), np.max(magnitudes), delta_m), delta_m
+            np.arange(np.min(magnitudes), np.max(magnitudes) - delta_m / 2,
+                      delta_m), delta_m
         )
     else:
         # sort mcs
@@ -496,7 +497,8 @@ def estimate_mc_b_stability(
     steps = len(np.arange(0, stability_range, delta_m))
 
     if mcs_test is None:
-        mcs_test = np.arange(np.min(magnitudes), np.max(magnitudes), delta_m)
+        mcs_test = np.arange(np.min(magnitudes),
+                             np.max(magnitudes) - delta_m / 2, delta_m)
         mcs_test = bin_to_precision(mcs_test, delta_m)
         if len(mcs_test) <= steps:
             raise ValueError(
-- 
2.43.0


From a1647d8ee223f93d469b0d4a71f1e55453da62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 17/53] fix: ks_test_gr returns the same with and without
 warnings

The early returns depended on the warnings option, and an empty sample
raised ValueError.
---
 seismostats/analysis/estimate_mc.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index cf8bd00..8054fd7 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,19 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
-    if get_option("warnings") is True:
-        if np.min(magnitudes) < mc - delta_m / 2:
-            warnings.warn("Sample contains values below mc.")
-
-        if len(magnitudes) == 0:
+    if len(magnitudes) == 0:
+        if get_option("warnings") is True:
             warnings.warn("No sample given.")
-            return 0, 1, []
+        return 0, 1, []
+
+    if get_option("warnings") is True \
+            and np.min(magnitudes) < mc - delta_m / 2:
+        warnings.warn("Sample contains values below mc.")
 
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if get_option("warnings") is True:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From cc9d2250bafe95ba46dbf29da9c39c03af9bf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 18/53] fix: simulate_magnitudes respects a maximum magnitude
 of 0

This also truncates the bin that ends at 0 in dither_magnitudes.
---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From f70bc8914d60f914c1dd1a28509edd0a33be944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 19/53] fix: dither_magnitudes accepts samples that also fit a
 larger bin

A single magnitude or e.g. [2.0, 3.0] with delta_m=0.1 raised ValueError.
---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..eb21d75 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -116,7 +116,7 @@ def dither_magnitudes(magnitudes: np.ndarray,
     magnitudes = np.asarray(magnitudes)
 
     # test if the array is binned correctly
-    if not binning_test(magnitudes, delta_m):
+    if not binning_test(magnitudes, delta_m, check_larger_binning=False):
         raise ValueError(
             "The given array is not binned correctly. Please check the binning."
         )
-- 
2.43.0


From d5c374c228bbffd58876fb440c8612b5c16b337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 20/53] fix: Kijko-Smit rate uses the durations of the
 sub-catalogues

The sub-catalogues are disjoint periods (each event counts in exactly one),
so the expected number of events is the sum over these periods. The
durations used so far all ended in last_year and thus overlapped, which
gave rates that are too low.
---
 seismostats/analysis/bvalue/kijko_smit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index eefcff4..9d3eefc 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -134,8 +134,10 @@ def estimate_b_kijko_smit(
 
     # get rate assuming Poisson process (Equation 10)
     denominator_rate = 0
+    period_ends = np.append(last_year, completeness_years[:-1])
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        denominator_rate += (
+            period_ends[idx] - completeness_years[idx]) * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
-- 
2.43.0


From f3f20e9abd75defb6e682502df5790fe0a54da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 21/53] fix: Kijko-Smit a-value is the rate at magnitude 0

The rate is the one above the lowest completeness magnitude, which is a
bin edge; half a bin too much was added when extrapolating to 0.
---
 seismostats/analysis/bvalue/kijko_smit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9d3eefc..0359ce3 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -143,8 +143,7 @@ def estimate_b_kijko_smit(
         )
 
     rate_at_lmc = ncomplete / denominator_rate
-    a_val = np.log10(rate_at_lmc) + (beta / np.log(10)) * (
-        completeness_magnitudes[0] + delta_m * 0.5
-    )
+    a_val = np.log10(rate_at_lmc) + (beta / np.log(10)) * \
+        completeness_magnitudes[0]
 
     return b, std_b, rate_at_lmc, a_val
-- 
2.43.0


From e71fe12d936b5f41415654479af39dacbc77f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 22/53] fix: b_significant_1D with x_variable sorts the
 per-event mc along with the events

---
 seismostats/analysis/b_significant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
-- 
2.43.0


From 0f65f47b72ca88008d78bd13ae9febdf8e7d3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 23/53] fix: GardnerKnopoffType1 works on catalogs with any
 index

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..4eab90b 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -76,7 +76,9 @@ class GardnerKnopoffType1(Declusterer):
 
         time = catalog["time"].astype("datetime64[s]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
-        ordered = catalog[list(cols)].sort_values(
+        space_windows = np.asarray(space_windows)
+        # positions, since the index of the catalog can be arbitrary
+        ordered = catalog[list(cols)].reset_index(drop=True).sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
         )
         mainshock_flags = np.ones(len(catalog), dtype=bool)
-- 
2.43.0


From 0edfefea7894d16c374e3746d8fa08a94d630ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 24/53] fix: a time cutoff of 0 is applied to the time windows

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From 7266ea1d3a91563ab40ad9710abc63e7ace20ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 25/53] fix: haversine of antipodal points is not NaN

---
 seismostats/analysis/declustering/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/declustering/utils.py b/seismostats/analysis/declustering/utils.py
index d0043c6..ca052e6 100644
--- a/seismostats/analysis/declustering/utils.py
+++ b/seismostats/analysis/declustering/utils.py
@@ -54,6 +54,8 @@ def haversine(
         * np.cos(target_latitude)
         * (np.sin(dlon / 2.0) ** 2.0)
     )
+    # rounding can give values slightly above 1 for antipodal points
+    aval = np.minimum(aval, 1.0)
     distance = (
         2.0 * earth_rad * np.arctan2(np.sqrt(aval), np.sqrt(1 - aval))
     ).T
-- 
2.43.0


From 0455368b5037e72c123d97688396fda2749af3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 26/53] fix: QuakeML magnitudes without type do not raise
 KeyError

---
 seismostats/io/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..947e137 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,9 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype')
+                  != preferred.get('magnitudetype')
+                  or id == m['magnitudepublicID']]
 
     return preferred, magnitudes
 
@@ -95,6 +96,9 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     Returns:
         selected:      The selected magnitudes.
     """
+    # the type is optional in QuakeML, without it there is no column name
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype') is not None]
+
     magnitude_types = set(m['magnitudetype'] for m in magnitudes)
 
     # only one magnitude per type, return all magnitudes
-- 
2.43.0


From 3263577d340b1013bc4366790d0d1f086ec02e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 27/53] fix: QuakeML text keeps blanks where the parser splits
 it

---
 seismostats/io/parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 947e137..1f7a6df 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -234,6 +234,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.text = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -242,6 +243,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self._store_text()
+
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -255,6 +258,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        self._store_text()
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -273,8 +278,14 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        # the text of an element can arrive in several chunks
+        self.text += chars
+
+    def _store_text(self):
+        text = self.text.strip()
+        self.text = ''
+        if text and self.parent:
+            self.setter(self.parent, text)
 
     def startDocument(self):
         pass
-- 
2.43.0


From aa4f9f1486adbd254bfd8e2b87abe734c384effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 28/53] fix: to_quakeml escapes the texts it writes

---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..398738d 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ event.magnitude_type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From 4108f4a27197fa29294c4c3c74db13f109da9f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 29/53] fix: to_quakeml writes all secondary magnitudes of
 other types

---
 seismostats/catalogs/catalog.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..b0ef6de 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1503,11 +1503,9 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
-
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
+                mag_type = mag.split('_')[1]
+                if pd.notna(event[mag]) and event['magnitude_type'] != mag_type:
+                    mag_key = mag.replace('_' + mag_type, '', 1)
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
-- 
2.43.0


From dbfd31f4a3b51ff94aaf19823808659677a7c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 30/53] fix: to_quakeml writes an ID for every event, origin
 and magnitude

---
 seismostats/catalogs/catalog.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b0ef6de..c4052d5 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1439,18 +1439,21 @@ class Catalog(pd.DataFrame):
 
         for col in ['eventID', 'originID', 'magnitudeID']:
             if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+                df[col] = None
+            df[col] = [uuid.uuid4().hex if pd.isna(i) else i for i in df[col]]
 
         mag_types = set([mag.split('_')[1]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
-            if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+            col = f'magnitude_{mag_type}_magnitudeID'
+            if col not in df.columns:
+                df[col] = None
+            df[col] = [
+                i if pd.notna(i) else preferred if t == mag_type
+                else uuid.uuid4().hex
+                for i, t, preferred in zip(
+                    df[col], df['magnitude_type'], df['magnitudeID'])]
 
         return df
 
@@ -1495,7 +1498,7 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
@@ -1504,12 +1507,12 @@ class Catalog(pd.DataFrame):
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
                 mag_type = mag.split('_')[1]
-                if pd.notna(event[mag]) and event['magnitude_type'] != mag_type:
+                if pd.notna(event[mag]) and event['magnitude_type'] != mag_type \
+                        and pd.notna(event.get(f'magnitude_{mag_type}')):
                     mag_key = mag.replace('_' + mag_type, '', 1)
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
-                del event[mag]
 
         return _render_template(data, QML_TEMPLATE)
 
-- 
2.43.0


From ff3f490b3d1f1c9f860ac01babad56fba7cfad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 31/53] fix: to_quakeml writes no evaluationMode where there is
 none

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 398738d..ef4a4a8 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -48,7 +48,9 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
+                {%- if event.evaluationmode is defined and event.evaluationmode is not none and event.evaluationmode is not nan %}
                 <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
+                {%- endif %}
                 <creationInfo>
                     <agencyID>{{ agencyID|e }}</agencyID>
                     <author>{{ author|e }}</author>
-- 
2.43.0


From 58d93de5922d275b35a2faf078bd80ddd5f36d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 32/53] fix: to_quakeml writes no type where there is none

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index ef4a4a8..25f4416 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -17,7 +17,9 @@
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
+                {%- if event.magnitude_type is defined and event.magnitude_type is not none and event.magnitude_type is not nan %}
                 <type>{{ event.magnitude_type|e }}</type>
+                {%- endif %}
                 <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
@@ -76,7 +78,9 @@
 
             <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
             <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            {%- if event.event_type is defined and event.event_type is not none and event.event_type is not nan %}
             <type>{{ event.event_type|e }}</type>
+            {%- endif %}
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From e00284dd230e0fccb3c5cec90e8a0748fac24d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 33/53] fix: to_quakeml writes no value where it is None

---
 seismostats/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..686dfaa 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -100,7 +100,7 @@ def _render_template(data: dict, template_path: str) -> str:
         loader=FileSystemLoader("/"),  # Base directory for templates
         autoescape=select_autoescape(),
     )
-    env.tests["nan"] = is_nan
+    env.tests["nan"] = lambda value: value is None or is_nan(value)
 
     template = env.get_template(template_path)
 
-- 
2.43.0


From 6935a24bb59b23653c5dfdc62e58ddbc6520f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 34/53] fix: pandas methods that build their result from arrays
 work on catalogs

---
 seismostats/catalogs/catalog.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index c4052d5..290e587 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,12 +47,17 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(*args, **kwargs):
+    # pandas also calls this with arrays, dictionaries or keywords only
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
+    # flags per value, e.g. from isna(), are not a catalog
+    if all(dtype == bool for dtype in df.dtypes):
+        return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        return Catalog(df)
+    return ForecastCatalog(df)
 
 
 class Catalog(pd.DataFrame):
-- 
2.43.0


From bb4e8f8fde5f8f525738273f96c99a8e744b400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 35/53] fix: a Catalog can be created from column names only

---
 seismostats/catalogs/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 290e587..8c9b2e5 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -161,8 +161,9 @@ class Catalog(pd.DataFrame):
         if data is not None or 'columns' in kwargs:
             super().__init__(data, **kwargs)
         # if this dataframe is empty however, set some default columns
-        if data is None or self.columns.empty:
-            super().__init__(columns=CATALOG_COLUMNS, **kwargs)
+        if (data is None and 'columns' not in kwargs) or self.columns.empty:
+            kwargs['columns'] = CATALOG_COLUMNS
+            super().__init__(**kwargs)
 
         self.name = name
         self.mc = mc
-- 
2.43.0


From 639ec2556fd3164d854a42196a26defc61ce2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 36/53] fix: times that pandas cannot hold keep their
 microseconds

---
 seismostats/utils/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index 686dfaa..9abc6f3 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -144,7 +144,8 @@ def _robust_parse_datetime(date: str) -> datetime:
         return date.to_pydatetime()
 
     date = date.split('Z')[0]
-    date = date.split('.')[0]
+    date, _, fraction = date.partition('.')
     date = _pad_year(date)
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S").replace(
+        microsecond=int(fraction[:6].ljust(6, '0')))
-- 
2.43.0


From 664fd9b900442ce94568f1d3ed291eff43d31b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 37/53] fix: times with and without Z can be in one catalog

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 8c9b2e5..ac5df89 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -194,7 +194,7 @@ class Catalog(pd.DataFrame):
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
-                except (ValueError, OutOfBoundsDatetime):
+                except (ValueError, AttributeError, OutOfBoundsDatetime):
                     self[tc] = self[tc].apply(_robust_parse_datetime)
 
         # make sure empty rows in string columns are NoneType
-- 
2.43.0


From 066405d413441d2891db83e3be214d4fdc4a3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 38/53] fix: cells without depth bounds are the same cell

---
 seismostats/catalogs/rategrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..ad087f2 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -274,8 +274,9 @@ class GRRateGrid(pd.DataFrame):
                                 'latitude_min', 'latitude_max',
                                 'depth_min', 'depth_max']]
 
+            # equal_nan does not apply to whole rows
             self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+                cell_bounds.fillna(np.inf), axis=0, return_inverse=True)[1]
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
-- 
2.43.0


From 93fb99e6efe51acf381be6427c2659dcaa95128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 39/53] fix: forecast statistics include cells with missing
 bounds

---
 seismostats/catalogs/rategrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index ad087f2..137933a 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -473,9 +473,11 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': [col for col in ['longitude_min', 'longitude_max',
+                                          'latitude_min', 'latitude_max',
+                                          'depth_min', 'depth_max']
+                          if col in rategrid.columns],
+                   'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From 01e7ec4718a13f970fa88a23d7cef4a3a29f70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 40/53] fix: forecast statistics keep the bounds of the cells

---
 seismostats/catalogs/rategrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 137933a..5bb546f 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -463,6 +463,13 @@ class ForecastGRRateGrid(GRRateGrid):
         # Apply agg_func to all numeric columns
         agg_dict = {col: agg_func for col in numeric_cols}
 
+        # The bounds are the same for all realizations of a cell
+        for col in ['longitude_min', 'longitude_max',
+                    'latitude_min', 'latitude_max',
+                    'depth_min', 'depth_max']:
+            if col in agg_dict:
+                agg_dict[col] = 'first'
+
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
             for col in base_cols:
-- 
2.43.0


From e7252c6a65e6e502bd76776fce5e61aadf72628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 41/53] fix: from_openquake reads early events without text
 columns

---
 seismostats/catalogs/catalog.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index ac5df89..e721148 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -356,12 +356,13 @@ class Catalog(pd.DataFrame):
             raise ImportError("the optional openquake package is not available")
 
         def _convert_to_datetime(row):
-            return datetime(row.year,
-                            row.month,
-                            row.day,
-                            row.hour,
-                            row.minute,
-                            row.second)
+            # rows of numeric columns only are floats
+            return datetime(int(row.year),
+                            int(row.month),
+                            int(row.day),
+                            int(row.hour),
+                            int(row.minute),
+                            int(row.second))
         data = oq_catalogue.data
         # not all items of the data have necessarily the same length
         length = max((len(c) for c in data.values()), default=0)
-- 
2.43.0


From d9b3e188b566200d54448b81f8b61872a1a54e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 42/53] fix: to_openquake writes times that pandas stores as
 objects

---
 seismostats/catalogs/catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index e721148..7e7ac46 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -434,6 +434,9 @@ class Catalog(pd.DataFrame):
                 lambda _: uuid.uuid4().hex, axis=1).to_list()
 
         time = self['time']
+        if not pd.api.types.is_datetime64_any_dtype(time):
+            # times out of the nanosecond bounds are stored as objects
+            time = time.astype('datetime64[us]')
         for time_unit in _PD_TIME_COLS:
             data[time_unit] = getattr(
                 time.dt, time_unit).to_numpy(copy=True)
-- 
2.43.0


From 238c6f847ce46679a2f29ddc2a215eb236ec6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 43/53] fix: plots of weighted distributions accept missing
 magnitudes

plot_cum_fmd and plot_fmd dropped the events without magnitude, but not
their weights, and failed with arrays of different lengths.
---
 seismostats/plots/basics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..37fb5ab 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,7 +80,10 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    known = ~np.isnan(magnitudes)
+    if weights is not None:
+        weights = np.asarray(weights)[known]
+    magnitudes = magnitudes[known]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
     )
@@ -172,7 +175,10 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    known = ~np.isnan(magnitudes)
+    if weights is not None:
+        weights = np.asarray(weights)[known]
+    magnitudes = magnitudes[known]
 
     bins, counts, magnitudes = get_fmd(
         magnitudes,
-- 
2.43.0


From 3814994c6cfdaa7c27ba91eb5d0dc6dcd0cec983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 44/53] fix: the GR line of plot_cum_fmd follows weighted
 counts

The line started at the number of complete events even where the points
are sums of weights, so that it did not pass through them.
---
 seismostats/plots/basics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 37fb5ab..d548aad 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -115,10 +115,11 @@ def plot_cum_fmd(
         if color_line is None:
             color_line = scatter1.get_facecolor()[0]
 
-        n_mc = len(magnitudes[magnitudes >= mc - fmd_bin / 2])
         if bin_position == "left":
             mc -= fmd_bin / 2
-        x = bins[bins >= mc - fmd_bin / 2]
+        complete = bins >= mc - fmd_bin / 2
+        x = bins[complete]
+        n_mc = c_counts[complete][0]
         y = gutenberg_richter(x, b_value, min(x), n_mc)
 
         ax.plot(x, y, color=color_line, label=label_line)
-- 
2.43.0


From d7f2cc44d9fa5bfdccd472eb05e6d7fc37dbf19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 45/53] fix: plot_cum_count finds the smallest magnitude
 despite missing ones

Without mcs and with a first magnitude of NaN, the completeness was NaN
and nothing was plotted.
---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index d548aad..be1d83f 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -254,7 +254,7 @@ def plot_cum_count(
     if delta_m is None:
         delta_m = 0
     if mcs is None:
-        mcs = np.array([min(magnitudes)])
+        mcs = np.array([np.nanmin(magnitudes)])
     if weights is None:
         weights = np.ones(n_events)
     else:
-- 
2.43.0


From 70eb6e02fa9d17601d53d0ea0f6ef55eeb6de672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 46/53] fix: plot_mags_in_time leaves the lists of the caller
 as they are

It appended to mc_change_times and mcs, so that repeating the call with
years failed and otherwise added another step.
---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index be1d83f..efe2295 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -368,8 +368,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = list(mc_change_times) + [np.max(times)]
+        mcs = list(mcs) + [mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From d812bb0db470e045cc43abd9083f4a34f05c33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 47/53] fix: dots have a size if magnitudes are equal or
 missing

dot_size divided by a range of zero when all magnitudes are equal (or there
is one event), and one magnitude of NaN made every size NaN: the events
were not drawn. reverse_dot_size failed alike for equal sizes.
---
 seismostats/plots/basics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index efe2295..8653310 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -409,10 +409,11 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    # without a range, all dots are of the smallest size
+    mag_range = np.nanmax(magnitudes) - smallest_mag
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    mag_norm = (magnitudes - smallest_mag) / (mag_range if mag_range else 1)
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
@@ -448,7 +449,8 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
-    size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    size_range = max(sizes) - min(sizes)
+    size_norm = (sizes - min(sizes)) / (size_range if size_range else 1)
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
     return magnitudes
-- 
2.43.0


From 6294b56acc3a43e8436fa66bd309f0ae69042ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 48/53] fix: plot_b_significant_1D sorts mc along with the
 magnitudes

With x_variable, the individual completeness magnitudes stayed in the order
given and were paired with other events.
---
 seismostats/plots/statistical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From ae4cb35cbccacfa9628f98d0ff0d2460170692c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 49/53] fix: plot_b_significant_1D accepts n_ms as a list

A list, as documented, failed when a value was significant.
---
 seismostats/plots/statistical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 105e253..377085e 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -321,6 +321,7 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    n_ms = np.asarray(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 2d32436ec28d01b5843595b226ccaca3eae1094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 50/53] fix: declustering ignored parts of seconds

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 4eab90b..9a5faee 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -74,7 +74,7 @@ class GardnerKnopoffType1(Declusterer):
         longitude = catalog["longitude"]
         latitude = catalog["latitude"]
 
-        time = catalog["time"].astype("datetime64[s]", errors="ignore").values
+        time = catalog["time"].astype("datetime64[us]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
         space_windows = np.asarray(space_windows)
         # positions, since the index of the catalog can be arbitrary
-- 
2.43.0


From 5e218d8a257aae43e59eb3faf4e1d581daa9d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 51/53] fix: declustering of catalogs longer than 292 years
 overflowed

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 9a5faee..abbab6f 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -77,6 +77,8 @@ class GardnerKnopoffType1(Declusterer):
         time = catalog["time"].astype("datetime64[us]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
         space_windows = np.asarray(space_windows)
+        # comparison with pd.Timedelta overflows for catalogs of > 292 years
+        time_windows = np.asarray(time_windows).astype("timedelta64[us]")
         # positions, since the index of the catalog can be arbitrary
         ordered = catalog[list(cols)].reset_index(drop=True).sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
-- 
2.43.0


From 1e0fc4415a854e41bb51db90ce19ffd4c1fee811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:05 +0000
Subject: [PATCH 52/53] fix: to_quakeml keeps secondary magnitude types with an
 underscore

---
 seismostats/catalogs/catalog.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 7e7ac46..d460e18 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1452,7 +1452,7 @@ class Catalog(pd.DataFrame):
                 df[col] = None
             df[col] = [uuid.uuid4().hex if pd.isna(i) else i for i in df[col]]
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([_secondary_magnitude_type(mag)
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1516,7 +1516,7 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                mag_type = mag.split('_')[1]
+                mag_type = _secondary_magnitude_type(mag)
                 if pd.notna(event[mag]) and event['magnitude_type'] != mag_type \
                         and pd.notna(event.get(f'magnitude_{mag_type}')):
                     mag_key = mag.replace('_' + mag_type, '', 1)
@@ -1613,6 +1613,23 @@ class ForecastCatalog(Catalog):
         return catalogs
 
 
+def _secondary_magnitude_type(key: str) -> str:
+    """
+    Type of the secondary magnitude that a column belongs to. The type itself
+    can contain underscores (for instance ms_20).
+
+    Args:
+        key:    Name of the column, e.g. magnitude_ms_20_uncertainty.
+
+    Returns:
+        mag_type: Type of the magnitude, e.g. ms_20.
+    """
+    for val in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                '_confidenceLevel', '_magnitudeID']:
+        key = key.removesuffix(val)
+    return key.removeprefix('magnitude_')
+
+
 def _check_catalog_cols(method: Callable,
                         reference: Callable,
                         catalog: Catalog) -> dict:
-- 
2.43.0


From 5951bad4789e9e8674cf4ead94e729aa6b80d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:09 +0000
Subject: [PATCH 53/53] fix: reading QuakeML with secondary magnitudes whose
 versions are not numbers

---
 seismostats/io/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 1f7a6df..8bf47ca 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,3 +1,4 @@
+import math
 import xml.sax
 from datetime import datetime
 from xml.sax._exceptions import SAXParseException
@@ -84,6 +85,13 @@ def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
     return preferred, origins
 
 
+def _is_number(text: str | None) -> bool:
+    try:
+        return math.isfinite(float(text))
+    except (TypeError, ValueError):
+        return False
+
+
 def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     Check the magnitudes for multiple magnitudes of the same type and
@@ -117,7 +125,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         # sort mags array by version number and creation time
         key1 = [False, 'magnitudecreationInfoversion']
         key2 = [False, 'magnitudecreationInfocreationTime']
-        key1[0] = all(key1[1] in m for m in mags)
+        # versions can be any text
+        key1[0] = all(_is_number(m.get(key1[1])) for m in mags)
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-- 
2.43.0

