From 3598e14f8300afeb122df5346947fe131612399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:21 +0000
Subject: [PATCH 01/33] fix: reject wrong, duplicate, excess or missing
 arguments in the xarray wrapper

With DataArray input, misspelled keyword arguments, surplus positional
arguments and duplicates were silently ignored and missing ones replaced by
inspect._empty. Bind the arguments against the signature instead.
---
 pycomlink/processing/xarray_wrapper.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..7371356 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -64,13 +64,7 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
-    new_args_dict = OrderedDict()
-    for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
-        if i < len(args):
-            new_args_dict[arg] = args[i]
-        elif arg in kwargs.keys():
-            new_args_dict[arg] = kwargs[arg]
-        else:
-            new_args_dict[arg] = parameter.default
+    bound_args = inspect.signature(func).bind(*args, **kwargs)
+    bound_args.apply_defaults()
 
-    return new_args_dict
+    return OrderedDict(bound_args.arguments)
-- 
2.43.0


From 2ca1128fbd6b23943429dbbed4d002064e0de35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:25 +0000
Subject: [PATCH 02/33] fix: support DataArrays in get_blackout_start_and_end

The function returns two time series but the xarray wrapper declared one output.
---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..2e430f9 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 7371356..18e986d 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,12 +4,13 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
+    `n_outputs` is the number of time series that the decorated function returns.
 
     """
 
@@ -44,7 +45,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From d933cce4ef7be8216f45e805d7601a358c9e09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:32 +0000
Subject: [PATCH 03/33] fix: do not mark blackout gap start/end by wrapping
 around the time series

---
 pycomlink/processing/blackout_gap_detection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index 2e430f9..b48410f 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -29,6 +29,10 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     rsl_nan = np.isnan(rsl)
     gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
     gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
+    # np.roll wraps around, but there is nothing after the last or before the first
+    # sample which could be a gap
+    gap_start[-1:] = False
+    gap_end[:1] = False
 
     return gap_start, gap_end
 
-- 
2.43.0


From 6b61f5439ef033e2c96f00762063aad3b263885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:56 +0000
Subject: [PATCH 04/33] fix: propagate NaN in wet to the constant baseline

As documented, NaN in `wet` leads to NaN in the baseline, also for a wet period
directly after the NaN. The cast of `wet` to bool treated NaN as wet.
---
 pycomlink/processing/baseline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..9c1b5da 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,7 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +52,13 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
+    baseline[np.isnan(wet)] = np.nan
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif wet[i] and not wet[i - 1]:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i] and wet[i - 1]:
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From 445901ea5458518f84703ff6a22fe9e045ef507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:26 +0000
Subject: [PATCH 05/33] fix: linear baseline of a wet period without end is NaN
 instead of zero

---
 pycomlink/processing/baseline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index 9c1b5da..3394a26 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -159,4 +159,10 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
         else:
             # print('This should be impossible')
             raise
+
+    # A wet period which has not ended at the end of the time series cannot be
+    # interpolated since its dry end is unknown
+    if last_i_is_wet:
+        baseline[last_dry_i + 1 :] = np.nan
+
     return baseline
-- 
2.43.0


From 410d18d25452fec1c7875e9a0292a9e7ba308d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:45 +0000
Subject: [PATCH 06/33] fix: accept scalar rain rates in the wet antenna models
 of Leijnse and Pastorek

---
 pycomlink/processing/wet_antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..a4106f2 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,7 +293,7 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa
 
@@ -416,7 +416,7 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa  # @xarray_apply_along_time_dim()
 
-- 
2.43.0


From cc6927d69f1b1d443f1197eb974b88b592152c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:27 +0000
Subject: [PATCH 07/33] fix: accept scalar and list attenuation in
 calc_R_from_A_min_max

---
 pycomlink/processing/k_R_relation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..bfec711 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -147,6 +147,7 @@ def calc_R_from_A_min_max(
     a_max = a * (np.log(k) + euler_gamma) ** b
 
     # calculate rainfall
+    Ar_max = np.atleast_1d(Ar_max)
     R = np.zeros_like(Ar_max, dtype="float")
 
     nan_index = np.isnan(Ar_max)
-- 
2.43.0


From 432b0a52238d25335b4f50d74ede0621b2c84d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:37 +0000
Subject: [PATCH 08/33] fix: k-R relation with one frequency per value and NaN,
 negative A or str pol

---
 pycomlink/processing/k_R_relation.py         | 10 ++++++++--
 pycomlink/processing/nearby_rain_retrival.py |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index bfec711..8859b3c 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -79,7 +79,8 @@ def calc_R_from_A(
         # dimensions in certain cases. That interferes with our xarray-wrapper
         # decorator.
         f_GHz = np.atleast_1d(f_GHz).astype(float)
-        pol = np.atleast_1d(pol)
+        if not isinstance(pol, str):
+            pol = np.atleast_1d(pol)
         a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)
     elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):
         # in this case we use `a` and `b` from args
@@ -96,9 +97,14 @@ def calc_R_from_A(
     nan_index = np.isnan(A)
     R[nan_index] = np.nan
 
+    # `a` and `b` can be arrays if `f_GHz` and `pol` are arrays
+    a_L = np.broadcast_to(a * L_km, A.shape)
+    b = np.broadcast_to(b, A.shape)
+
     # This ignores the numpy warning stemming from A >=0 where A contains NaNs
     with np.errstate(invalid="ignore"):
-        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)
+        ix = ~nan_index & (A >= 0)
+        R[ix] = (A[ix] / a_L[ix]) ** (1 / b[ix])
         R[~nan_index & (R < R_min)] = 0
     return R
 
diff --git a/pycomlink/processing/nearby_rain_retrival.py b/pycomlink/processing/nearby_rain_retrival.py
index 5955ac7..5bc0af3 100644
--- a/pycomlink/processing/nearby_rain_retrival.py
+++ b/pycomlink/processing/nearby_rain_retrival.py
@@ -195,7 +195,8 @@ def nearby_rainfall_retrival(
         # dimensions in certain cases. That interferes with our xarray-wrapper
         # decorator.
         f_GHz = np.atleast_1d(f_GHz).astype(float)
-        pol = np.atleast_1d(pol)
+        if not isinstance(pol, str):
+            pol = np.atleast_1d(pol)
         a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)
     elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):
         # in this case we use `a` and `b` from args
-- 
2.43.0


From d79122d289179a7963fe02090dd91c8f6e30b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 09/33] fix: a_b for the frequency of a single link given as
 0-d DataArray

---
 pycomlink/processing/k_R_relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 8859b3c..5db662a 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -210,6 +210,7 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -265,8 +266,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), coords=f_GHz_coords)
+        b = xr.DataArray(b.reshape(f_GHz_shape), coords=f_GHz_coords)
 
     return a, b
 
-- 
2.43.0


From 1b73ee095a771ef542876a0f55176e852e61d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:43 +0000
Subject: [PATCH 10/33] fix: nearby_wetdry selects neighbours by cml_id and
 leaves ds_dist unchanged

The neighbours were selected by position, which picks the wrong CMLs if the order
of the CMLs differs between pmin and ds_dist, and a variable was added to the
ds_dist of the caller.
---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..7bdc163 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,11 +174,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        within_r_cml = within_r.sel(cml_id1=cmlid, cml_id2=ds_cml.cml_id).values
+        if sum(within_r_cml) > min_links:
             # select all CMLs within r
-            ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
-            )
+            ds_nearby_cmls = ds_cml.isel(cml_id=within_r_cml)
 
             # calculate median delta P and delta PL for each timestep
             # .where checks if the minimal require number of CMLs has data
-- 
2.43.0


From 56ba5c7c517367c1a1767d93eedb7fe305ec3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 11/33] fix: window of the nearby link F-score follows interval

It was hard-coded to 15 minute data.
---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 7bdc163..3abdce3 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -205,7 +205,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From e09d2dec62dfb65edf16e1ddf6050dc21e8ec246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:09 +0000
Subject: [PATCH 12/33] fix: IDW reuses cached neighbours only if all
 parameters are unchanged

max_distance was not compared, and the cached coordinates were references to the
arrays of the caller, so that in-place changes went unnoticed.
---
 pycomlink/spatial/idw.py          | 6 +++++-
 pycomlink/spatial/interpolator.py | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..1abe75d 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -99,6 +99,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and np.array_equal(max_distance, self.max_distance)
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -107,9 +109,11 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            # copy, so that changing `q` in place is noticed in the next call
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..a3c2d36 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -103,8 +103,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            # copy, so that changing `x` or `y` in place is noticed in the next call
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From 30a67c7cc590bd76f43bd19348c90f1e1bb8bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:14 +0000
Subject: [PATCH 13/33] fix: coverage mask with shapely 2, which removed
 cascaded_union

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From bfc92389d4785942308fa1e8088cecaf9264363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:47 +0000
Subject: [PATCH 14/33] fix: mirror option of stft_classification

Float slice indices raise since NumPy 1.12, and for an odd window length the
window function did not have the length of the enlarged window.
---
 pycomlink/processing/wet_dry/stft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..f443588 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -105,7 +105,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -129,15 +129,15 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
+        for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
             rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
+                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
             )
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == (len(rsl) - 1) - (NFFT // 2 - 1):
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From 98c5253c5f3abad02b7ec2335a236b3fc37948a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:53 +0000
Subject: [PATCH 15/33] fix: find_lowest_std_dev_period without the removed
 matplotlib.mlab.find

Also return the window with the lowest standard deviation itself. The window one
sample earlier was returned, which started at -1 at the start of the time series.
---
 pycomlink/processing/wet_dry/stft.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index f443588..5272557 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -217,8 +216,8 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     """
 
     roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    # `+ 1` because the dry period is [dry_start, dry_stop)
+    dry_stop = int(np.nanargmin(roll_std_dev.values)) + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0


From 075a192200a4ec28e8210ff7c9b852140107e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:40 +0000
Subject: [PATCH 16/33] fix: time zone of the result for a naive new_index with
 new_index_tz other than UTC

---
 pycomlink/util/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..bbf77c2 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -67,7 +67,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Update name and timezone of new index
     df_reindexed.index.name = df_temp.index.name
     if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
+        df_reindexed.index = df_reindexed.index.tz_localize(new_index_tz).tz_convert(
             df_temp.index.tzinfo
         )
 
-- 
2.43.0


From 846dcb4625db481dd0ca63abd3234f236a979db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:48 +0000
Subject: [PATCH 17/33] fix: aggregate onto an index with another time zone
 than the data

Slicing with time stamps from two time zones raises a ValueError in pandas.
---
 pycomlink/util/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index bbf77c2..285e0c4 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -54,8 +54,8 @@ def aggregate_df_onto_DatetimeIndex(
     # end point of the time series in the aggregated result
     t_start = max(df_temp.index.min(), df_new_t.index.min())
     t_stop = min(df_temp.index.max(), df_new_t.index.max())
-    df_new_t = df_new_t.loc[t_start:t_stop]
-    df_temp = df_temp.loc[t_start:t_stop]
+    df_new_t = df_new_t[(df_new_t.index >= t_start) & (df_new_t.index <= t_stop)]
+    df_temp = df_temp[(df_temp.index >= t_start) & (df_temp.index <= t_stop)]
 
     # Reindex to get the forward filled or backwar filled time stamp of the
     # new index which can be used for aggregation in the next step
-- 
2.43.0


From 0095da52321a26f9045edc13c605d9cea0654293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:37 +0000
Subject: [PATCH 18/33] fix: keep the predictions of models with output shape
 (n, 1)

Assigning a value of shape (1,) to an array element raises a ValueError with
recent NumPy, which was caught so that all predictions were NaN.
---
 pycomlink/processing/pytorch_utils/run_inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..8b82331 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,8 +151,9 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
     cml_ids = results["cml_ids"]  # Already numpy array
+    # Remove any extra dimensions
+    predictions = np.asarray(results["predictions"]).reshape(len(cml_ids))
     times = results["times"]  # Already numpy array
 
     # Get original dimensions
-- 
2.43.0


From 72017d8fba5e6250b98c7f161a0b3c3b1b3b3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:42 +0000
Subject: [PATCH 19/33] fix: list_cached_models finds the cached models

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..e1b2361 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -102,7 +102,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From 9ad7a1825429672870757809b3d862b326fa6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:47 +0000
Subject: [PATCH 20/33] fix: never take an interrupted model download as cached
 model

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 11 ++++++++++-
 .../processing/tensorflow_utils/inference_utils.py    | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e1b2361..bd59a6c 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -33,7 +33,9 @@ Example Usage:
 """
 
 import hashlib
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 from pycomlink.processing.pytorch_utils.pytorch_utils import (
@@ -66,7 +68,14 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # Download to a temporary file first so that an interrupted download never
+        # leaves an incomplete file at the place where it is taken as cached
+        tmp_path = cached_path.with_name(f"{cached_path.name}.{uuid.uuid4().hex}.part")
+        try:
+            urllib.request.urlretrieve(model_url, tmp_path)
+            os.replace(tmp_path, cached_path)
+        finally:
+            tmp_path.unlink(missing_ok=True)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..6b2cf72 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,7 +1,9 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import os
 import urllib.request
+import uuid
 from pathlib import Path
 
 # Third-party imports
@@ -123,7 +125,14 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # Download to a temporary file first so that an interrupted download never
+        # leaves an incomplete file at the place where it is taken as cached
+        tmp_path = cached_path.with_name(f"{cached_path.name}.{uuid.uuid4().hex}.part")
+        try:
+            urllib.request.urlretrieve(url, tmp_path)
+            os.replace(tmp_path, cached_path)
+        finally:
+            tmp_path.unlink(missing_ok=True)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From 40323938226bd7fa0e0f9681f7efcc8f8a5a1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:51 +0000
Subject: [PATCH 21/33] fix: cache TensorFlow model files from different URLs
 separately

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 6b2cf72..41133f5 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import os
 import urllib.request
 import uuid
@@ -121,7 +122,9 @@ def download_and_cache(url, cache_dir, force_download=False):
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
     filename = url.split("/")[-1]
-    cached_path = cache_dir / filename
+    # Add URL hash so that files with the same name from different URLs do not collide
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    cached_path = cache_dir / f"{url_hash}_{filename}"
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-- 
2.43.0


From 6cc1b8c70fc74c746c4bfba75dcd5539295c4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:57 +0000
Subject: [PATCH 22/33] fix: use id_coord as CML dimension in wet_dry_1d_cnn

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 41133f5..e2ff8e2 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -32,7 +32,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -42,6 +44,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of the CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -51,7 +54,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..b1f7db9 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -81,7 +81,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
     # Predict
@@ -98,6 +98,7 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
+        cml_dim=id_coord,
         var_name=prob_name)    
 
     if return_ds:
-- 
2.43.0


From f13ec6fcd12d39a703bad4ad96766dec4fecd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:19 +0000
Subject: [PATCH 23/33] fix: count all pairs of multi-dimensional arrays in the
 performance metrics

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..6e6ece7 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -158,7 +158,7 @@ def calc_wet_dry_performance_metrics(reference, predicted):
     # Remove values pairs if either one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = np.size(reference)
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
@@ -268,7 +268,7 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     # Remove values pairs if one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = np.size(reference)
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
-- 
2.43.0


From 0ad9113ec5bdcf2880c1e3ab70f07e70c8c12c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:07 +0000
Subject: [PATCH 24/33] fix: calc_stats leaves the index of the CML data
 unchanged

---
 pycomlink/validation/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..a52fe3f 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,13 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
+        cml_data = cml.data.copy()
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
+        cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        joined_df = time_series_df.join(cml_data.txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From d388d63456a3e73b8749feee7ecdfd6c4291b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:33 +0000
Subject: [PATCH 25/33] fix: calc_stats compares series with timestamps as
 times, not only strings

---
 pycomlink/validation/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index a52fe3f..aabb266 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -20,6 +20,10 @@ class Validator(object):
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
+        # same labels for both, whether the times are timestamps or strings
+        time_series_df.index = pd.to_datetime(time_series_df.index).strftime(
+            "%Y-%m-%d %H:%M:%S"
+        )
         cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
         joined_df = time_series_df.join(cml_data.txrx_nf)
-- 
2.43.0


From 81109b77abdb6794f0179123c75a867db15d5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 26/33] fix: read the min-max layout of CML files, used by
 get_75_cmls_min_max

---
 pycomlink/io/cmlh5_to_xarray.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pycomlink/io/cmlh5_to_xarray.py b/pycomlink/io/cmlh5_to_xarray.py
index b2dfa31..5cc0832 100644
--- a/pycomlink/io/cmlh5_to_xarray.py
+++ b/pycomlink/io/cmlh5_to_xarray.py
@@ -33,11 +33,17 @@ def read_cmlh5_file_to_xarray(filename):
         ds_channel_list = []
         for channel_name, channel_g in cml_g.items():
             cml_ch_g = cml_g[channel_name]
+            if "tx" not in cml_ch_g and "tx_min" in cml_ch_g:
+                # min-max data
+                suffixes = ["_min", "_max"]
+            else:
+                suffixes = [""]
+            data_vars = {}
+            for suffix in suffixes:
+                data_vars["tsl" + suffix] = ("time", cml_ch_g["tx" + suffix][:])
+                data_vars["rsl" + suffix] = ("time", cml_ch_g["rx" + suffix][:])
             ds_temp = xr.Dataset(
-                data_vars={
-                    "tsl": ("time", cml_ch_g["tx"][:]),
-                    "rsl": ("time", cml_ch_g["rx"][:]),
-                },
+                data_vars=data_vars,
                 coords={
                     "time": (cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]"),
                     "channel_id": channel_name,
-- 
2.43.0


From c06cdd916c763c3949a83d4b341b41a7683f4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 27/33] fix: PyTorch inference without any complete window
 gives missing predictions

---
 pycomlink/processing/pytorch_utils/run_inference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 8b82331..f7c1863 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -93,7 +93,9 @@ def batchify_windows(data, window_size, reflength=60):
             {
                 "cml_id": cml_id,
                 "time": timestep_indices,
-                "data": np.array(windowed_series),
+                "data": np.array(windowed_series).reshape(
+                    (len(windowed_series), window_size) + timeseries.shape[1:]
+                ),
             }
         )
     # Combine all samples into a single array
@@ -135,7 +137,8 @@ def run_inference(model, data, batch_size=32, reflength=60):
         outputs = predict_batch(model, inputs, device)
         predictions.append(outputs)
 
-    all_predictions = np.concatenate(predictions, axis=0)
+    # without any complete window there is nothing to predict
+    all_predictions = np.concatenate(predictions, axis=0) if predictions else np.array([])
     # cml_ids and times are already numpy arrays, no need to collect per batch
     return {"predictions": all_predictions, "cml_ids": cml_ids, "times": times}
 
-- 
2.43.0


From 8e7f807b5ed19210281c122c50bdcac6fcb96227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 28/33] fix: 1D CNN without any complete window gives missing
 predictions

---
 .../processing/tensorflow_utils/inference_utils.py     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index e2ff8e2..6728c32 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -55,11 +55,11 @@ def create_samples(
     for cml in cml_ids:
         try:
             ds_cml = ds.sel({cml_dim: cml})
-            inputs = np.stack(
-                [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
-            )
         except KeyError:
             continue
+        inputs = np.stack(
+            [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
+        )
 
         if len(inputs) < seq_len:
             continue
@@ -86,6 +86,8 @@ def scale_features(input_seq, input_vars):
         numpy.ndarray: Scaled input sequence with same shape as input
     """
     input_scaled = np.empty_like(input_seq, dtype=np.float32)
+    if len(input_seq) == 0:  # no complete window
+        return input_scaled
 
     for i in range(len(input_vars)):
         scaler = StandardScaler()
@@ -225,6 +227,8 @@ def run_inference(model, model_input, batch_size=128):
     Returns:
         numpy.ndarray: Flattened prediction probabilities as float32
     """
+    if len(model_input) == 0:  # no complete window
+        return np.array([], dtype=np.float32)
     y_prob = model.predict(
         model_input.astype(np.float32), batch_size=batch_size, verbose=1
     )
-- 
2.43.0


From 912360ec1c8aa754c00993ac8323ed77fd318cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:32 +0000
Subject: [PATCH 29/33] fix: IDW tree keeps its own copy of the station
 coordinates

---
 pycomlink/spatial/idw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 1abe75d..cc9b48c 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -67,8 +67,8 @@ class Invdisttree(object):
     # error analysis, |f(x) - idw(x)| ? todo: regular grid, nnear ndim+1, 2*ndim
 
     def __init__(self, X, leafsize=10, stat=0):
-        self.X = np.asarray(X, dtype="float")
-        self.tree = KDTree(X, leafsize=leafsize)  # build the tree
+        self.X = np.array(X, dtype="float")
+        self.tree = KDTree(self.X, leafsize=leafsize)  # build the tree
         self.stat = stat
         self.q = None
 
-- 
2.43.0


From 3f1a7c410d255b8a32b0646ad257865e88a5378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 30/33] fix: missing values on a grid with integer coordinates

---
 pycomlink/spatial/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index a3c2d36..5b2dfc7 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,7 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
+            zgrid = np.zeros_like(self.xgrid, dtype="float")
             zgrid[:] = np.nan
             self.zgrid = zgrid
 
-- 
2.43.0


From 098496f5157d8a746681cb587b8c166bf8618b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:10 +0000
Subject: [PATCH 31/33] fix: nearby_wetdry for integer received signal levels

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 3abdce3..ef32a75 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -141,6 +141,9 @@ def nearby_wetdry(
     https://doi.org/10.5194/amt-9-2425-2016, 2016.
     """
 
+    # missing values and the fractional F-score can not be stored as integers
+    pmin = pmin.astype(float)
+
     # rolling window * 60min/interval(in minutes)
     period = int(timeperiod * 60 / interval)
     # min hours for calculation * 60min/interval(in minutes)
-- 
2.43.0


From c41033dedf5eb164add8491f160892775ff32138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 32/33] fix: great circle distance between opposite points

---
 pycomlink/spatial/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomlink/spatial/helper.py b/pycomlink/spatial/helper.py
index 70b692e..113a49d 100644
--- a/pycomlink/spatial/helper.py
+++ b/pycomlink/spatial/helper.py
@@ -24,6 +24,7 @@ def haversine(lon1, lat1, lon2, lat2):
     dlon = lon2 - lon1
     dlat = lat2 - lat1
     a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
+    a = np.minimum(a, 1)  # rounding can exceed 1 for opposite points
     c = 2 * np.arctan2(a ** 0.5, (1 - a) ** 0.5)
     km = 6367 * c
     return km
-- 
2.43.0


From 32943a8b7498a1dbbe574e4cfb762011c4c63928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 33/33] fix: caching of TensorFlow models with long URLs

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 6728c32..6f64b05 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -129,13 +129,14 @@ def download_and_cache(url, cache_dir, force_download=False):
     filename = url.split("/")[-1]
     # Add URL hash so that files with the same name from different URLs do not collide
     url_hash = hashlib.md5(url.encode()).hexdigest()
-    cached_path = cache_dir / f"{url_hash}_{filename}"
+    # (end of the name only, since URLs can be longer than file names may be)
+    cached_path = cache_dir / f"{url_hash}_{filename[-100:]}"
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
         # Download to a temporary file first so that an interrupted download never
         # leaves an incomplete file at the place where it is taken as cached
-        tmp_path = cached_path.with_name(f"{cached_path.name}.{uuid.uuid4().hex}.part")
+        tmp_path = cache_dir / f"{url_hash}.{uuid.uuid4().hex}.part"
         try:
             urllib.request.urlretrieve(url, tmp_path)
             os.replace(tmp_path, cached_path)
-- 
2.43.0

