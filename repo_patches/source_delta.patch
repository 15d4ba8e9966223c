From 4cd01093f0a9c3be1d26c1eb133b6456527707a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 01/60] fix: binning_test rejected correctly binned arrays of
 large values

The shift by the minimum costs up to an ulp of the largest value, which
exceeds the tolerance of 1e-15 e.g. for [8.3, 8.35] and delta_x=0.05, so
that the estimators refused such magnitudes.
---
 seismostats/utils/binning.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 03e1fc5..6cd25fe 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -146,6 +146,10 @@ def binning_test(
     # filter out NaN values
     x = x[~np.isnan(x)]
 
+    # representing and shifting the values costs up to a few units in the last
+    # place of the largest value, which is no sign of an incorrect binning
+    precision = 4 * np.finfo(float).eps * np.max(np.abs(x))
+
     # shift the array to the smallest value (to avoid that the bin-center has
     # an effect on the test)
     x = x - np.min(x)
@@ -168,13 +172,15 @@ def binning_test(
         x_binned = bin_to_precision(x, delta_x)
 
         # This test checks if the bins are equal or larger than delta_x.
-        test_1 = np.allclose(x_binned, x, atol=tolerance, rtol=1e-16)
+        test_1 = np.allclose(
+            x_binned, x, atol=tolerance + precision, rtol=1e-16)
 
         # If the test_1 is True, we check if a larger binning is correct.
         if test_1 and check_larger_binning is True:
             power = np.floor(np.log10(delta_x)) + 1
             x_binned = bin_to_precision(x, 10**power)
-            test_2 = not np.allclose(x_binned, x, atol=tolerance, rtol=1e-16)
+            test_2 = not np.allclose(
+                x_binned, x, atol=tolerance + precision, rtol=1e-16)
             test = test_1 and test_2
         else:
             test = test_1
-- 
2.43.0


From f8aac69a4b17543010db580d20d2beef8e5bda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/60] fix: binning_test with delta_x=0 raised for every array

The search for a power-of-ten binning started below the smallest bin that
bin_to_precision supports (and missed a bin as large as the range).
---
 seismostats/utils/binning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 6cd25fe..1031ac0 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -156,14 +156,18 @@ def binning_test(
 
     if delta_x == 0 and check_larger_binning is True:
         range = np.max(x) - np.min(x)
+        if range == 0:
+            return True
+        # bin_to_precision does not support bins up to EPSILON
         power = np.arange(
-            np.floor(np.log10(tolerance)) + 1, np.ceil(np.log10(range)), 1
+            np.floor(np.log10(max(tolerance, EPSILON))) + 1,
+            np.floor(np.log10(range) + EPSILON) + 1, 1
         )
         delta_x_test = 10**power
         test = True
         tolerance = 10 ** (np.floor(np.log10(tolerance)) - 1)
         for delta_x_loop in delta_x_test:
-            if binning_test(x, delta_x_loop, tolerance):
+            if binning_test(x, delta_x_loop, tolerance + precision):
                 return False
 
     else:
-- 
2.43.0


From 905689a8d8726b05828191779885b25962f845c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 03/60] fix: estimate_b with return_n but not return_std raised
 TypeError

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From a4ddd032735d7db03e9b435567a52b6dc7b20c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 04/60] fix: b-more-positive raised ValueError for continuous
 magnitudes (delta_m=0)

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From 1071be16bc6508bc2f06b591d21a7b0d1486af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 05/60] fix: a-more-positive truncated scaled time differences
 to the unit of times

For datetime64[D] or [s] times the scaled differences were truncated to
whole days or seconds, which gave wrong (even infinite) a-values.
---
 seismostats/analysis/avalue/more_positive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..4ffeb94 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -152,11 +152,12 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         # estimate the number of events within the time interval
         total_time = self.times[-1] - self.times[0]
 
-        # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        # scale the time (as a fraction of the total time, since numpy would
+        # truncate a scaled timedelta to its unit)
+        tau = time_diffs / total_time * 10**(
+            -self.b_value * (self.magnitudes + self.dmc - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From 22c829ec2820a5386b46195020f24c8b07230fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 06/60] fix: ks_test_gr handled degenerate samples only with
 warnings enabled

With the warnings option off, single-valued samples gave another result or
raised, and an empty sample raised in either case.
---
 seismostats/analysis/estimate_mc.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..440d6ab 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,20 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
-    if get_option("warnings") is True:
-        if np.min(magnitudes) < mc - delta_m / 2:
-            warnings.warn("Sample contains values below mc.")
+    show_warnings = get_option("warnings") is True
 
-        if len(magnitudes) == 0:
+    if len(magnitudes) == 0:
+        if show_warnings:
             warnings.warn("No sample given.")
-            return 0, 1, []
+        return 0, 1, []
+
+    if show_warnings and np.min(magnitudes) < mc - delta_m / 2:
+        warnings.warn("Sample contains values below mc.")
 
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if show_warnings:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From 6eabde5218ad6dce9444bf54ab9264a596fdb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 07/60] fix: b-stability averaged too many b-values for some
 completeness magnitudes

np.arange(mc, mc + stability_range, delta_m) has one element too many for
e.g. mc=1.7 with delta_m=0.1, while the sum was divided by the nominal number,
so that such an mc could never pass the test.
---
 seismostats/analysis/estimate_mc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 440d6ab..14bab4c 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -496,7 +496,8 @@ def estimate_mc_b_stability(
             np.float64(0.9457747650207581)])
 
     """
-    steps = len(np.arange(0, stability_range, delta_m))
+    # number of bins in the stability range (robust against float errors)
+    steps = int(np.ceil(np.round(stability_range / delta_m, 9)))
 
     if mcs_test is None:
         mcs_test = np.arange(np.min(magnitudes), np.max(magnitudes), delta_m)
@@ -544,7 +545,7 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
+        mc_plus = mc + np.arange(steps) * delta_m
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-- 
2.43.0


From 31e32323b9fa3940ae75c98d977be1ea2eb1f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 08/60] fix: b-stability tested no mc at all for a stability
 range of one bin

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 14bab4c..267e470 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -505,7 +505,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From 82ca44e49f3ca1e92a389a08d1fa09d29bf32937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 09/60] fix: b-stability returned None instead of a
 completeness magnitude of 0.0

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 267e470..0cd0a18 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -582,5 +582,6 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m)
+            if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From 177978acd67217655da8f48a1b1bfa82e61c5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 10/60] fix: simulate_magnitudes ignored a maximum magnitude of
 zero

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From 72dee04fedd7173cd6c39b6ffebb6c17da1aa1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 11/60] fix: truncated simulation was not confined to its range
 for large beta*mc

---
 seismostats/utils/simulate_distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..b994bfb 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -37,10 +37,9 @@ def simulate_magnitudes(
     """
     if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        # relative to mc, as exp(-beta * mc) can exceed floating-point precision
+        range_cdf = 1 - np.exp(-beta * (mag_max - mc))
+        mags = mc - (1 / beta) * np.log(1 - u * range_cdf)
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From c0b06808f1eb8bff0d3b212a10a396f379de0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 12/60] fix: dithering rejected correctly binned magnitudes
 that also fit a larger bin

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index b994bfb..5483f90 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -115,7 +115,7 @@ def dither_magnitudes(magnitudes: np.ndarray,
     magnitudes = np.asarray(magnitudes)
 
     # test if the array is binned correctly
-    if not binning_test(magnitudes, delta_m):
+    if not binning_test(magnitudes, delta_m, check_larger_binning=False):
         raise ValueError(
             "The given array is not binned correctly. Please check the binning."
         )
-- 
2.43.0


From 3d4ad9b102dfe04ddb208454de55f5636406e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 13/60] fix: b_significant_1D did not sort individual mc values
 along x_variable

---
 seismostats/analysis/b_significant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
-- 
2.43.0


From 5273af48fab8f31276d87fc3a995a53612c56f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 14/60] fix: plot_b_significant_1D did not sort individual mc
 values along x_variable

---
 seismostats/plots/statistical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From 9aaafe32668139340dd7916ce613989903c7e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 15/60] fix: Weichert and Kijko-Smit estimators raised for
 b_parameter='beta'

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From 49ea3681f5c9fc117d7ad7f8f4819cfdd5e00f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 16/60] fix: Kijko-Smit b-value was NaN if a sub-catalogue had
 no events

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..5b30568 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,8 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        if len(subcat_magnitudes) == 0:
+            continue  # does not contribute
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From acb3551fe7370b1fa41e716c20ae815ec2c63cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 17/60] fix: Kijko-Smit rate counted the observation time of
 sub-catalogues repeatedly

---
 seismostats/analysis/bvalue/kijko_smit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 5b30568..3ee9483 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -134,8 +134,9 @@ def estimate_b_kijko_smit(
 
     # get rate assuming Poisson process (Equation 10)
     denominator_rate = 0
+    end_years = np.append(last_year, completeness_years[:-1])
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        denominator_rate += (end_years[idx] - completeness_years[idx]) * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
-- 
2.43.0


From aff31dccc693453f4ea052ac06f8edb11ba86629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 18/60] fix: Weichert estimator left out magnitude bins without
 events

---
 seismostats/analysis/bvalue/weichert.py | 45 +++++++++++--------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index fbe90b9..1c4f24c 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -120,32 +120,25 @@ def estimate_b_weichert(
     # get number of "complete" events in each magnitude bin
     # and associated year of completeness
     idxcomp = (completeness_starts > 0) & (years - completeness_starts >= 0)
-    complete_events = (
-        pd.DataFrame.groupby(
-            pd.DataFrame(
-                data={
-                    "mag_left_edge": np.array(
-                        [
-                            i.left
-                            for i in pd.cut(
-                                magnitudes[idxcomp],
-                                bins=np.arange(
-                                    completeness_table_magnitudes[0],
-                                    mag_max + 0.01,
-                                    delta_m,
-                                ),
-                                right=False,
-                            )
-                        ]
-                    ),
-                    "completeness_start": completeness_starts[idxcomp],
-                }
-            ),
-            by=["mag_left_edge", "completeness_start"],
-        )
-        .size()
-        .to_frame("num")
-        .reset_index()
+    bin_edges = np.arange(
+        completeness_table_magnitudes[0], mag_max + 0.01, delta_m
+    )
+    complete_magnitudes = magnitudes[idxcomp]
+    if np.any(complete_magnitudes >= bin_edges[-1]):
+        raise ValueError("magnitudes must be smaller than mag_max")
+    # bins without events are part of the likelihood as well
+    complete_events = pd.DataFrame(
+        data={
+            "mag_left_edge": bin_edges[:-1],
+            "completeness_start": completeness_table_years[
+                np.searchsorted(
+                    completeness_table_magnitudes,
+                    bin_edges[:-1] + delta_m * 0.5,
+                )
+                - 1
+            ],
+            "num": np.histogram(complete_magnitudes, bins=bin_edges)[0],
+        }
     )
     assert np.all(
         complete_events.completeness_start > 0
-- 
2.43.0


From dc47ad54020030f0e7544e2dfc54e04324c4cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 19/60] fix: b-more-positive std raised when the b-value itself
 is not finite

---
 seismostats/analysis/bvalue/more_positive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..b863751 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -154,6 +154,9 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
+        if not np.isfinite(self.b_value):
+            return np.nan
+
         estimator = self.__class__()
 
         # Define the function for the bootstrap.
-- 
2.43.0


From af0a97dbda5156c4df79d094ad4710e24aef32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 20/60] fix: Gardner-Knopoff declustering used index labels as
 positions

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..999f496 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # the index labels are used as positions below
+        catalog = catalog.reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From 583a9d164d1dbc7fcc17e9d3c7b40543d4dabbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 21/60] fix: declustering windows ignored a time_cutoff of zero

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From b627d2a69d9b0ce2d40d8bede7088bf2dfcafe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 22/60] fix: haversine distance was NaN for some antipodal
 points

---
 seismostats/analysis/declustering/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/utils.py b/seismostats/analysis/declustering/utils.py
index d0043c6..434ff8e 100644
--- a/seismostats/analysis/declustering/utils.py
+++ b/seismostats/analysis/declustering/utils.py
@@ -55,6 +55,7 @@ def haversine(
         * (np.sin(dlon / 2.0) ** 2.0)
     )
     distance = (
-        2.0 * earth_rad * np.arctan2(np.sqrt(aval), np.sqrt(1 - aval))
+        2.0 * earth_rad * np.arctan2(
+            np.sqrt(aval), np.sqrt(np.maximum(1 - aval, 0)))
     ).T
     return distance
-- 
2.43.0


From 3984b2926aeae0e23013c4fbb7010d2818718209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 23/60] fix: Gardner-Knopoff declustering overflowed for
 catalogs longer than 292 years

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 999f496..aaae863 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -91,12 +91,14 @@ class GardnerKnopoffType1(Declusterer):
                 continue
 
             # Find Events inside both fore- and aftershock time windows
-            dt = time - time[i]
+            # (in seconds, as nanoseconds overflow after 292 years)
+            dt = (time - time[i]) / np.timedelta64(1, "s")
+            time_window = time_windows[i].total_seconds()
             vsel = np.logical_and(
                 cluster_ids == 0,
                 np.logical_and(
-                    dt >= (-time_windows[i] * self.fs_time_prop),
-                    dt <= time_windows[i],
+                    dt >= (-time_window * self.fs_time_prop),
+                    dt <= time_window,
                 ),
             )
             # Of those events inside time window,
-- 
2.43.0


From d7261efa18fbfac14ddb5652a63bea349b985bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 24/60] fix: truncated QuakeML documents were silently read as
 incomplete catalogs

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..e13b4fa 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.started = False
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -238,6 +239,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.started = True
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -299,7 +301,7 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if 'no element found' in str(e) and not handler.started:
             return data
         raise e
     return data
@@ -350,7 +352,7 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if 'no element found' in str(e) and not handler.started:
             return data
         raise e
     return data
-- 
2.43.0


From b23c3a2de690161dc97e12c41293813ef2f2c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 25/60] fix: spaces in QuakeML values were lost if a value
 arrived in several chunks

---
 seismostats/io/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index e13b4fa..6442e3f 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -231,6 +231,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         self.parent = ''
         self.location = ''
         self.started = False
+        self.chars = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -238,8 +239,16 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         else:
             getattr(self, key)[-1][self.location + additional_key] = value
 
+    def _set_characters(self):
+        # the text of an element can arrive in several chunks, so that it
+        # may only be stripped once it is complete
+        chars, self.chars = self.chars.strip(), ''
+        if chars and self.parent:
+            self.setter(self.parent, chars)
+
     def startElement(self, tagName, attrs):
         self.started = True
+        self._set_characters()
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -253,6 +262,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        self._set_characters()
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -271,8 +281,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        self.chars += chars
 
     def startDocument(self):
         pass
-- 
2.43.0


From a523ffa19da845adbb00392cbaf6407aa6ca4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 26/60] fix: QuakeML magnitudes without the optional type
 raised KeyError

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 6442e3f..f53e65f 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,10 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    # magnitudes without a type can't be attributed to a secondary magnitude
+    magnitudes = [m for m in magnitudes if 'magnitudetype' in m and (
+                  m['magnitudetype'] != preferred.get('magnitudetype')
+                  or id == m['magnitudepublicID'])]
 
     return preferred, magnitudes
 
-- 
2.43.0


From d63cd54bbe37e06b4128fb338904d534d2f76a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 27/60] fix: to_quakeml did not escape markup characters in
 IDs, types and authors

---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..398738d 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ event.magnitude_type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From d68660329d3a7b02ef706a1bdfb973b30fa3404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 28/60] fix: to_quakeml wrote missing evaluation modes as 'nan'

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 398738d..7d42390 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -48,7 +48,7 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
+                {{'<evaluationMode>{}</evaluationMode>'.format(event.evaluationmode|e) if event.evaluationmode is defined and not event.evaluationmode is nan and event.evaluationmode is not none else '' }}
                 <creationInfo>
                     <agencyID>{{ agencyID|e }}</agencyID>
                     <author>{{ author|e }}</author>
-- 
2.43.0


From 01389a632508ae6e09262acb3cf520727cb40907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 29/60] fix: pandas operations on catalogs raised or converted
 their results as if raw data

---
 seismostats/catalogs/catalog.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..2bcc0ca 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,12 +47,14 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(*args, **kwargs):
+    # called by pandas for results of operations, with any kind of data
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        return Catalog(df, _convert_columns=False)
+    return ForecastCatalog(df, _convert_columns=False)
 
 
 class Catalog(pd.DataFrame):
@@ -148,6 +150,7 @@ class Catalog(pd.DataFrame):
             bounding_polygon: Polygon | str | None = None,
             depth_min: float | None = None,
             depth_max: float | None = None,
+            _convert_columns: bool = True,
             **kwargs):
 
         self.logger = logging.getLogger(__name__)
@@ -170,6 +173,10 @@ class Catalog(pd.DataFrame):
         self.depth_min = depth_min
         self.depth_max = depth_max
 
+        # results of pandas operations are not to be interpreted as raw data
+        if not _convert_columns:
+            return
+
         numeric_cols = ['magnitude', 'latitude', 'longitude', 'depth',
                         'associatedphasecount', 'usedphasecount',
                         'associatedstationcount', 'usedstationcount',
-- 
2.43.0


From d9f2eeead6ee7f7fb9b725c92aaeffedf654d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 30/60] fix: to_quakeml raised for empty catalogs

---
 seismostats/catalogs/catalog.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 2bcc0ca..15a2582 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1446,18 +1446,17 @@ class Catalog(pd.DataFrame):
 
         for col in ['eventID', 'originID', 'magnitudeID']:
             if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+                df[col] = [uuid.uuid4().hex for _ in range(len(df))]
 
         mag_types = set([mag.split('_')[1]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
             if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+                df[f'magnitude_{mag_type}_magnitudeID'] = [
+                    uuid.uuid4().hex if not mag_type == row_type else row_id
+                    for row_type, row_id in zip(df['magnitude_type'],
+                                                df['magnitudeID'])]
 
         return df
 
-- 
2.43.0


From 7ac1e770b0e05f1d4b64654a1d01af0169a01736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 31/60] fix: to_quakeml lost or renamed secondary magnitudes
 with similar or composed types

---
 seismostats/catalogs/catalog.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 15a2582..65b56bc 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1448,7 +1448,7 @@ class Catalog(pd.DataFrame):
             if col not in df.columns:
                 df[col] = [uuid.uuid4().hex for _ in range(len(df))]
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([_split_secondary_magnitudekey(mag)[0]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1509,11 +1509,10 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
+                mag_type, mag_key = _split_secondary_magnitudekey(mag)
 
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
+                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
+                        and event['magnitude_type'] != mag_type:
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
@@ -1608,6 +1607,21 @@ class ForecastCatalog(Catalog):
         return catalogs
 
 
+def _split_secondary_magnitudekey(key: str) -> tuple[str, str]:
+    '''
+    Split the name of a secondary magnitude column into the magnitude type
+    and the name of the corresponding column of the preferred magnitude, e.g.,
+    `magnitude_Mw_converted_uncertainty` into `Mw_converted` and
+    `magnitude_uncertainty`.
+    '''
+    mag_type = key.split('magnitude_', 1)[1]
+    for suffix in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                   '_confidenceLevel', '_magnitudeID']:
+        if mag_type.endswith(suffix):
+            return mag_type.removesuffix(suffix), 'magnitude' + suffix
+    return mag_type, 'magnitude'
+
+
 def _check_catalog_cols(method: Callable,
                         reference: Callable,
                         catalog: Catalog) -> dict:
-- 
2.43.0


From 55ab7a8b185f438592804390bc0574036145d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 32/60] fix: to_quakeml lost created IDs and secondary
 magnitudes without preferred magnitude

---
 seismostats/catalogs/catalog.py                   | 6 ++++--
 seismostats/catalogs/catalog_templates/quakeml.j2 | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 65b56bc..fed23ec 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1501,7 +1501,7 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
@@ -1511,11 +1511,13 @@ class Catalog(pd.DataFrame):
             for mag in secondary_mags:
                 mag_type, mag_key = _split_secondary_magnitudekey(mag)
 
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
+                if pd.notna(event[mag]) \
+                        and pd.notna(event.get(f'magnitude_{mag_type}')) \
                         and event['magnitude_type'] != mag_type:
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
+            for mag in secondary_mags:
                 del event[mag]
 
         return _render_template(data, QML_TEMPLATE)
diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 7d42390..98b3d48 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -17,7 +17,7 @@
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type|e }}</type>
+                {{'<type>{}</type>'.format(event.magnitude_type|e) if event.magnitude_type is defined and not event.magnitude_type is nan and event.magnitude_type is not none else '' }}
                 <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
@@ -74,7 +74,7 @@
 
             <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
             <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
-            <type>{{ event.event_type|e }}</type>
+            {{'<type>{}</type>'.format(event.event_type|e) if event.event_type is defined and not event.event_type is nan and event.event_type is not none else '' }}
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From 894a97927be23b4a2890e0aec9b0d01ffdc5e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 33/60] fix: to_quakeml wrote individually missing IDs as 'nan'

---
 seismostats/catalogs/catalog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index fed23ec..76b6724 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1447,6 +1447,9 @@ class Catalog(pd.DataFrame):
         for col in ['eventID', 'originID', 'magnitudeID']:
             if col not in df.columns:
                 df[col] = [uuid.uuid4().hex for _ in range(len(df))]
+            elif df[col].isna().any():
+                df[col] = [uuid.uuid4().hex if pd.isna(val) else val
+                           for val in df[col]]
 
         mag_types = set([_split_secondary_magnitudekey(mag)[0]
                         for mag in df._secondary_magnitudekeys()])
@@ -1457,6 +1460,10 @@ class Catalog(pd.DataFrame):
                     uuid.uuid4().hex if not mag_type == row_type else row_id
                     for row_type, row_id in zip(df['magnitude_type'],
                                                 df['magnitudeID'])]
+            elif df[f'magnitude_{mag_type}_magnitudeID'].isna().any():
+                df[f'magnitude_{mag_type}_magnitudeID'] = [
+                    uuid.uuid4().hex if pd.isna(val) else val
+                    for val in df[f'magnitude_{mag_type}_magnitudeID']]
 
         return df
 
-- 
2.43.0


From 75f773eabeecbed4aa9301ecc170ecb5d5c6f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 34/60] fix: depth phase counts were not converted to numbers

---
 seismostats/catalogs/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 76b6724..4019fe3 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -180,6 +180,7 @@ class Catalog(pd.DataFrame):
         numeric_cols = ['magnitude', 'latitude', 'longitude', 'depth',
                         'associatedphasecount', 'usedphasecount',
                         'associatedstationcount', 'usedstationcount',
+                        'depthphasecount',
                         'standarderror', 'azimuthalgap',
                         'secondaryazimuthalgap', 'maximumdistance',
                         'minimumdistance', 'mediandistance']
-- 
2.43.0


From dac8ae900ad370d10943c1d5d24402477b0a7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 35/60] fix: FDSN client took HTTP errors for missing events

---
 seismostats/catalogs/client.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..f47e45f 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -127,8 +127,7 @@ class FDSNWSEventClient():
         if batch_size is not None:
             catalog = self._get_events_batched(batch_size, include_quality)
         else:
-            r = requests.get(self.url, stream=True, params=self.params)
-            catalog = parse_quakeml_response(r, include_quality=include_quality)
+            catalog = self._request_events(self.params, include_quality)
 
         catalog = Catalog.from_dict(
             catalog, include_uncertainty, include_ids)
@@ -140,6 +139,23 @@ class FDSNWSEventClient():
 
         return catalog
 
+    def _request(self, params: dict, **kwargs) -> requests.Response:
+        """
+        Request the given parameters, raises an error if the service does
+        not answer with events or with 'no data' (204, or 404 if requested).
+        """
+        r = requests.get(self.url, params=params, **kwargs)
+        if not (r.status_code == 404 and str(params.get('nodata')) == '404'):
+            r.raise_for_status()
+        return r
+
+    def _request_events(self, params: dict, include_quality: bool
+                        ) -> list[dict]:
+        r = self._request(params, stream=True)
+        if r.status_code in (204, 404):
+            return []
+        return parse_quakeml_response(r, include_quality=include_quality)
+
     def _get_batch_params(self, batch_size: int) -> dict:
         batch_params = []
         for i in range(0, self._get_batch_count(batch_size)):
@@ -157,8 +173,7 @@ class FDSNWSEventClient():
         catalog = []
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
-            r = requests.get(self.url, stream=True, params=params)
-            batch = parse_quakeml_response(r, include_quality=include_quality)
+            batch = self._request_events(params, include_quality)
             catalog.extend(batch)
 
         return catalog
@@ -169,7 +184,7 @@ class FDSNWSEventClient():
         to find the number of events available.
         """
         params = self.params | {'limit': limit, 'offset': offset}
-        r = requests.get(self.url, params=params)
+        r = self._request(params)
         return (r.status_code == 200 and r.content)
 
     def _get_batch_count(self, batch_size: int) -> int:
-- 
2.43.0


From d3237c77aa29a6ad40572e94a6101e4ef4eeb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 36/60] fix: FMD plots with weights raised if magnitudes were
 missing

---
 seismostats/plots/basics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..b508e66 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,7 +80,10 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    is_valid = np.asarray(~np.isnan(magnitudes))
+    magnitudes = magnitudes[is_valid]
+    if weights is not None:
+        weights = np.asarray(weights)[is_valid]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
     )
@@ -172,7 +175,10 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    is_valid = np.asarray(~np.isnan(magnitudes))
+    magnitudes = magnitudes[is_valid]
+    if weights is not None:
+        weights = np.asarray(weights)[is_valid]
 
     bins, counts, magnitudes = get_fmd(
         magnitudes,
-- 
2.43.0


From 9211fb6d378a2068652b4ded1cc811af95537e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 37/60] fix: GR line of weighted cumulative FMD plots used the
 number of events

---
 seismostats/plots/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index b508e66..2934405 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -115,7 +115,8 @@ def plot_cum_fmd(
         if color_line is None:
             color_line = scatter1.get_facecolor()[0]
 
-        n_mc = len(magnitudes[magnitudes >= mc - fmd_bin / 2])
+        above_mc = magnitudes >= mc - fmd_bin / 2
+        n_mc = above_mc.sum() if weights is None else weights[above_mc].sum()
         if bin_position == "left":
             mc -= fmd_bin / 2
         x = bins[bins >= mc - fmd_bin / 2]
-- 
2.43.0


From bd7af24d93c3f03655ce9923d94cb49a91fe5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 38/60] fix: plot_mags_in_time modified the lists of the caller

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 2934405..2a47e4b 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -368,8 +368,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = [*mc_change_times, np.max(times)]
+        mcs = [*mcs, mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From b2e204fdef03a5c600f4ed3ae48f42c310102036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 39/60] fix: dot sizes were NaN if all magnitudes are equal or
 one is missing

---
 seismostats/plots/basics.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 2a47e4b..01c4354 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -409,10 +409,13 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes) if len(magnitudes) > 0 else np.nan
+    largest_mag = np.nanmax(magnitudes) if len(magnitudes) > 0 else np.nan
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    # equal magnitudes get the largest size
+    mag_norm = np.ones_like(magnitudes, dtype=float)
+    if largest_mag > smallest_mag:
+        mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
@@ -448,7 +451,9 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
-    size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    size_norm = np.ones_like(sizes, dtype=float)
+    if max(sizes) > min(sizes):
+        size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
     return magnitudes
-- 
2.43.0


From c59745882dbc34b155b6b08a7e82dd3e5d35bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 40/60] fix: plot_b_significant_1D raised for a list of sample
 sizes

---
 seismostats/plots/statistical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 105e253..86a91a0 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -321,6 +321,8 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    else:
+        n_ms = np.array(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 7c92f5fe33884b819b47f55fd626ea49cb13e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 41/60] fix: b-stability test warned about small samples with
 warnings disabled

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 0cd0a18..3a40943 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -536,7 +536,7 @@ def estimate_mc_b_stability(
 
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
-        if len(sample_selected) < 30:
+        if len(sample_selected) < 30 and get_option("warnings") is True:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-- 
2.43.0


From d2525f3e648f211a40bb9b37bde4b8ace0d7b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 42/60] fix: strip used the required columns of another type
 after pandas operations

---
 seismostats/catalogs/catalog.py  | 2 +-
 seismostats/catalogs/rategrid.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 4019fe3..53a2b03 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -123,7 +123,7 @@ class Catalog(pd.DataFrame):
         :ivar logger:       Logger for the catalog.
     '''
 
-    _metadata = ['name', '_required_cols', 'mc', 'a_value',
+    _metadata = ['name', 'mc', 'a_value',
                  'delta_m', 'b_value', 'starttime', 'endtime',
                  'bounding_polygon', 'depth_min', 'depth_max',
                  'logger']
diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..7d24997 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -76,7 +76,7 @@ class GRRateGrid(pd.DataFrame):
         :ivar starttime:    Start time of the GRRateGrid.
         :ivar endtime:      End time of the GRRateGrid.
     """
-    _metadata = ['name', '_required_cols', 'starttime', 'endtime']
+    _metadata = ['name', 'starttime', 'endtime']
     _required_cols = REQUIRED_COLS_RATEGRID
 
     def __init__(self, data=None, *args, name=None,
-- 
2.43.0


From cea042e0ce8bdfd517631bfcaadaa63e94151152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 43/60] fix: cells with NaN bounds got different cell ids

---
 seismostats/catalogs/rategrid.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 7d24997..2ac6977 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
@@ -270,12 +269,14 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
-
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            cell_bounds = pd.DataFrame(
+                self[['longitude_min', 'longitude_max',
+                      'latitude_min', 'latitude_max',
+                      'depth_min', 'depth_max']].to_numpy())
+
+            # np.unique does not treat rows with NaN as equal
+            self['cell'] = cell_bounds.groupby(
+                list(cell_bounds.columns), dropna=False).ngroup().to_numpy()
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
-- 
2.43.0


From 665f8575a26cfec7c683edfa8cca2882b64b5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 44/60] fix: grid statistics raised or lost cells if bounds are
 NaN

---
 seismostats/catalogs/rategrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 2ac6977..dc1a33c 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -460,6 +460,12 @@ class ForecastGRRateGrid(GRRateGrid):
         base_cols = [col for col in base_cols if col in rategrid.columns]
         numeric_cols = rategrid.select_dtypes(include='number').columns
 
+        # bounds which are never set were dropped
+        bounds = ['longitude_min', 'longitude_max',
+                  'latitude_min', 'latitude_max',
+                  'depth_min', 'depth_max']
+        bounds = [col for col in bounds if col in rategrid.columns]
+
         # Apply agg_func to all numeric columns
         agg_dict = {col: agg_func for col in numeric_cols}
 
@@ -473,9 +479,7 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': bounds, 'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From f8e4cad023ae22ed415f4cb49f476a38b3d6d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 45/60] fix: grid statistics aggregated the bounds of the cells

---
 seismostats/catalogs/rategrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index dc1a33c..ef5c26b 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -460,14 +460,15 @@ class ForecastGRRateGrid(GRRateGrid):
         base_cols = [col for col in base_cols if col in rategrid.columns]
         numeric_cols = rategrid.select_dtypes(include='number').columns
 
-        # bounds which are never set were dropped
+        # bounds identify the cell, those which are never set were dropped
         bounds = ['longitude_min', 'longitude_max',
                   'latitude_min', 'latitude_max',
                   'depth_min', 'depth_max']
         bounds = [col for col in bounds if col in rategrid.columns]
 
         # Apply agg_func to all numeric columns
-        agg_dict = {col: agg_func for col in numeric_cols}
+        agg_dict = {col: 'first' if col in bounds else agg_func
+                    for col in numeric_cols}
 
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
-- 
2.43.0


From d78371dedac83318b5a26f77eee6b75086ae16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 46/60] fix: weighted b-value estimates raised if no magnitudes
 are left

---
 seismostats/analysis/bvalue/classic.py | 3 +++
 seismostats/analysis/bvalue/utils.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..d4f66fa 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,9 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        return np.nan
+
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index f964169..b641c9e 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -88,6 +88,9 @@ def shi_bolt_confidence(
     if b_parameter not in ['b_value', 'beta']:
         raise ValueError('b_parameter must be either "b_value" or "beta"')
 
+    if len(magnitudes) == 0:
+        return np.nan
+
     std_mags = np.sqrt(np.average(np.square(
         magnitudes - np.average(magnitudes, weights=weights)), weights=weights))
     if weights is None:
-- 
2.43.0


From ce86b202f287642c66999fbd334ef0971aed84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 47/60] fix: columns were missing or from_quakeml raised if no
 event has a value

---
 seismostats/io/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index f53e65f..04ceff8 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -197,9 +197,10 @@ def _parse_to_dict(event: dict,
     event_params = \
         {value: event.get(key, None) for key, value in EVENT_MAPPINGS.items()}
 
+    # values which are not given are None, independent of the other events
     return event_params | \
-        _extract_origin(preferred_origin, include_quality) | \
-        _extract_magnitude(preferred_magnitude) | \
+        _extract_origin(DUMMY_ORIGIN | preferred_origin, include_quality) | \
+        _extract_magnitude(DUMMY_MAGNITUDE | preferred_magnitude) | \
         _extract_secondary_magnitudes(magnitudes)
 
 
-- 
2.43.0


From a53028ff755310d6c2cd61f5381748babe58aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 48/60] fix: fractions of seconds were lost for all events if
 one is out of bounds

---
 seismostats/utils/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..84ea2d9 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -1,6 +1,7 @@
 # flake8: noqa
 import functools
 import math
+import re
 from datetime import datetime
 
 import pandas as pd
@@ -143,8 +144,8 @@ def _robust_parse_datetime(date: str) -> datetime:
     if isinstance(date, pd.Timestamp):
         return date.to_pydatetime()
 
-    date = date.split('Z')[0]
-    date = date.split('.')[0]
-    date = _pad_year(date)
+    date, fraction = re.fullmatch(
+        r'(.*?)(?:\.(\d+))?(?:Z|[+-]\d\d:?\d\d)?', date).groups()
+    date = datetime.strptime(_pad_year(date), "%Y-%m-%dT%H:%M:%S")
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    return date.replace(microsecond=int((fraction or '')[:6].ljust(6, '0')))
-- 
2.43.0


From f52283c1ede9afb2d7d04a2985a2012371e8fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 49/60] fix: catalogs raised for times with mixed time zones

---
 seismostats/catalogs/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 53a2b03..347b81e 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -196,7 +196,8 @@ class Catalog(pd.DataFrame):
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
-                except (ValueError, OutOfBoundsDatetime):
+                except (ValueError, AttributeError, OutOfBoundsDatetime):
+                    # AttributeError: time zones are mixed
                     self[tc] = self[tc].apply(_robust_parse_datetime)
 
         # make sure empty rows in string columns are NoneType
-- 
2.43.0


From 47f2eeb73529aeee1b5fd6257322ec2702cb0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 50/60] fix: FDSN client lost fractions of seconds and leading
 zeros of years

---
 seismostats/catalogs/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index f47e45f..4f40a1c 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -95,13 +95,12 @@ class FDSNWSEventClient():
 
         """
 
-        date_format = "%Y-%m-%dT%H:%M:%S"
         self.params = {}
 
         if start_time is not None:
-            self.params['starttime'] = start_time.strftime(date_format)
+            self.params['starttime'] = self._format_time(start_time)
         if end_time is not None:
-            self.params['endtime'] = end_time.strftime(date_format)
+            self.params['endtime'] = self._format_time(end_time)
         if min_latitude is not None:
             self.params['minlatitude'] = min_latitude
         if max_latitude is not None:
@@ -139,6 +138,16 @@ class FDSNWSEventClient():
 
         return catalog
 
+    @staticmethod
+    def _format_time(time: datetime) -> str:
+        """
+        ISO 8601 representation of the time, without losing fractions of
+        seconds or the leading zeros of the year.
+        """
+        fraction = time.strftime(".%f")
+        return time.strftime("%Y-%m-%dT%H:%M:%S").zfill(19) + (
+            fraction if int(fraction[1:]) else '')
+
     def _request(self, params: dict, **kwargs) -> requests.Response:
         """
         Request the given parameters, raises an error if the service does
-- 
2.43.0


From 1f4a5e1d39e4ed8420b9126eb73491ac859c26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 51/60] fix: time index of rate grids removed a column named
 cell

---
 seismostats/catalogs/rategrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index ef5c26b..d7e7010 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -275,10 +275,11 @@ class GRRateGrid(pd.DataFrame):
                       'depth_min', 'depth_max']].to_numpy())
 
             # np.unique does not treat rows with NaN as equal
-            self['cell'] = cell_bounds.groupby(
+            cell_ids = cell_bounds.groupby(
                 list(cell_bounds.columns), dropna=False).ngroup().to_numpy()
 
-            self.set_index('cell', append=True, drop=True, inplace=True)
+            self.set_index(pd.Index(cell_ids, name='cell'),
+                           append=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
 
             self.index.set_names('cell_id', level='cell', inplace=True)
-- 
2.43.0


From 94ddaf2740be450fcd5a58a7dd83e4b58286b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 52/60] fix: cat_intersect_polygon removed a column named
 inside_polygon

---
 seismostats/utils/filtering.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/seismostats/utils/filtering.py b/seismostats/utils/filtering.py
index 2454560..f704fdc 100644
--- a/seismostats/utils/filtering.py
+++ b/seismostats/utils/filtering.py
@@ -20,23 +20,14 @@ def cat_intersect_polygon(
                         inside the polygon.
 
     """
-    # Make a copy of the DataFrame
-    cat_copy = cat.copy()
-    # Add a new column to the DataFrame
-    # indicating whether each point is inside the polygon
-    cat_copy["inside_polygon"] = cat_copy.apply(
-        lambda row: Polygon(polygon_vertices).intersects(
-            Point(row["latitude"], row["longitude"])
-        ),
-        axis=1,
-    )
+    # Check whether each point is inside the polygon, without adding
+    # a column to the data
+    polygon = Polygon(polygon_vertices)
+    inside_polygon = [
+        polygon.intersects(Point(latitude, longitude))
+        for latitude, longitude in zip(cat["latitude"], cat["longitude"])
+    ]
 
     # Filter the DataFrame to only include rows where
     # the point is inside the polygon
-    filtered_cat = (
-        cat_copy.query("inside_polygon")
-        .drop("inside_polygon", axis=True)
-        .copy()
-    )
-
-    return filtered_cat
+    return cat[pd.Series(inside_polygon, index=cat.index, dtype=bool)].copy()
-- 
2.43.0


From fb2c038e79eaf635570d36de6f34d59a2ac88bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 53/60] fix: from_openquake lost fractions of seconds if a time
 is out of bounds

---
 seismostats/catalogs/catalog.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 347b81e..1e4eab6 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -5,7 +5,7 @@ import logging
 import os
 import uuid
 from collections import defaultdict
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Any, Callable
 
 import cartopy
@@ -364,7 +364,8 @@ class Catalog(pd.DataFrame):
                             row.day,
                             row.hour,
                             row.minute,
-                            row.second)
+                            row.second) + timedelta(
+                                microseconds=int(row.microsecond))
         data = oq_catalogue.data
         # not all items of the data have necessarily the same length
         length = max((len(c) for c in data.values()), default=0)
@@ -381,9 +382,9 @@ class Catalog(pd.DataFrame):
             cat.loc[:, "time"] = pd.to_datetime(cat[_PD_TIME_COLS])
         except ValueError:
             # if the time is out of bounds, we have to store
-            # datetime with a resolution of seconds.
+            # datetime with a resolution of microseconds.
             dt = cat.apply(_convert_to_datetime, axis=1)
-            cat['time'] = dt.astype('datetime64[s]')
+            cat['time'] = dt.astype('datetime64[us]')
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
         return cat
-- 
2.43.0


From 545a6f620e2b94457b7ad98f8f075bd8280edf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 54/60] fix: from_openquake raised for numeric columns if a
 time is out of bounds

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 1e4eab6..dc1ff08 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -383,7 +383,7 @@ class Catalog(pd.DataFrame):
         except ValueError:
             # if the time is out of bounds, we have to store
             # datetime with a resolution of microseconds.
-            dt = cat.apply(_convert_to_datetime, axis=1)
+            dt = cat[_PD_TIME_COLS].apply(_convert_to_datetime, axis=1)
             cat['time'] = dt.astype('datetime64[us]')
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
-- 
2.43.0


From f486f3cf9c7d30ae9b6ca72a27b66005cdc55435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 55/60] fix: to_openquake raised if times were parsed from
 strings out of bounds

---
 seismostats/catalogs/catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index dc1ff08..abe9f1b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -437,6 +437,9 @@ class Catalog(pd.DataFrame):
                 lambda _: uuid.uuid4().hex, axis=1).to_list()
 
         time = self['time']
+        if pd.api.types.is_object_dtype(time):
+            # times out of bounds of nanoseconds are parsed to datetime
+            time = time.astype('datetime64[us]')
         for time_unit in _PD_TIME_COLS:
             data[time_unit] = getattr(
                 time.dt, time_unit).to_numpy(copy=True)
-- 
2.43.0


From 94ba51ae42f360a3018901a8f92cfd38b4542479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 56/60] fix: to_openquake raised for columns of nullable types

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index abe9f1b..b24d0ee 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -428,7 +428,7 @@ class Catalog(pd.DataFrame):
         data = dict()
         for col, dtype in zip(self.columns, self.dtypes):
             if pd.api.types.is_numeric_dtype(dtype):
-                data[col] = self[col].to_numpy(dtype=dtype, copy=True)
+                data[col] = self[col].to_numpy(copy=True)
             else:
                 data[col] = self[col].to_list()
         # add required eventID if not present
-- 
2.43.0


From 7e4b82f3c48c6c3f3921e02b658a897e008a3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 57/60] fix: from_openquake changed years with less than four
 digits

---
 seismostats/catalogs/catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b24d0ee..a740adc 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -379,6 +379,9 @@ class Catalog(pd.DataFrame):
         cat["microsecond"] = us.round().astype(np.int32)
         cat["second"] = cat["second"].astype(np.int32)
         try:
+            if (cat["year"] < 1000).any():
+                # pandas reads the digits of years as four digits
+                raise ValueError("years with less than four digits")
             cat.loc[:, "time"] = pd.to_datetime(cat[_PD_TIME_COLS])
         except ValueError:
             # if the time is out of bounds, we have to store
-- 
2.43.0


From 1571b01231db0b03d6d501c74be7b04107cd0f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:34 +0000
Subject: [PATCH 58/60] fix: a garbled answer while counting batches made the
 FDSN client lose events

---
 seismostats/catalogs/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 4f40a1c..1bdcc57 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -204,7 +204,7 @@ class FDSNWSEventClient():
         while self._exists_with_offset(1, (chunk * batch_size) + 1):
             chunk *= 2
 
-        low = chunk // 2
+        low = 1
         high = chunk
         last_valid_chunk = 0
 
-- 
2.43.0


From 2462fd46170f5dc230a2dcc93c655fdba4ccb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:57 +0000
Subject: [PATCH 59/60] fix: b-stability mc must not be lost to a candidate
 without uncertainty

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 3a40943..90eb991 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -561,7 +561,8 @@ def estimate_mc_b_stability(
 
         if diff_b <= 1:
             value = True
-            if diff_b == min(diff_bs):
+            # samples with a single event have no uncertainty (NaN)
+            if diff_b == np.nanmin(diff_bs):
                 best_mc = mc
                 best_b_value = b_values_test[-1]
             if stop_when_passed:
-- 
2.43.0


From ba12396febcc97958504caa4d9876ba9d42c05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:37 +0000
Subject: [PATCH 60/60] fix: plot_in_space changed the default colormap of the
 process

---
 seismostats/plots/seismicity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index d30fed5..9600e91 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -89,7 +89,6 @@ def plot_in_space(
 
     if color_map is not None:
         tiles = cimgt.GoogleTiles(style=style, desired_tile_form="L")
-        plt.set_cmap(color_map)
     else:
         tiles = cimgt.GoogleTiles(style=style)
 
@@ -146,7 +145,7 @@ def plot_in_space(
         ax.set_extent(exts, crs=ll_proj)
 
     if include_map is True:
-        ax.add_image(tiles, 8, alpha=0.6)
+        ax.add_image(tiles, 8, alpha=0.6, cmap=color_map)
 
     # gridlines
     gl = ax.gridlines(
-- 
2.43.0

