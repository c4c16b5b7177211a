From 63ec5247367e657919ab829dc521f07f761ab536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 01/23] fix: do not read strides of exhausted dimensions in the
 Sun position functions

---
 eoxmagmod/eoxmagmod/pysunpos.h          | 12 +++++++-----
 eoxmagmod/eoxmagmod/pysunpos_original.h | 16 +++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pysunpos.h b/eoxmagmod/eoxmagmod/pysunpos.h
index 5fce7d8..b321931 100644
--- a/eoxmagmod/eoxmagmod/pysunpos.h
+++ b/eoxmagmod/eoxmagmod/pysunpos.h
@@ -73,15 +73,16 @@ static void _sunpos(
     {
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
+        #define S(a) (*((double*)((a).data)))
 
         double rasc, decl, hang, zenith, azimuth;
         double mjd2k, dtt, lat, lon, rad, pres, temp;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
+        mjd2k = S(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = S(arrd_dtt); // seconds (TT to UT offset)
+        lat = S(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = S(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = S(arrd_rad); // km
         pres = 0; // atm
         temp = 0; // dgC
 
@@ -94,6 +95,7 @@ static void _sunpos(
         V(arrd_out,3) = RAD2DEG * azimuth; // rad --> deg
         V(arrd_out,4) = RAD2DEG * zenith; // rad --> deg
 
+        #undef S
         #undef V
         #undef P
     }
diff --git a/eoxmagmod/eoxmagmod/pysunpos_original.h b/eoxmagmod/eoxmagmod/pysunpos_original.h
index bd7e6f8..376ba34 100644
--- a/eoxmagmod/eoxmagmod/pysunpos_original.h
+++ b/eoxmagmod/eoxmagmod/pysunpos_original.h
@@ -78,19 +78,20 @@ static void _sunpos_original(
     {
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
+        #define S(a) (*((double*)((a).data)))
 
         double rasc, decl, hang, zenith, azimuth;
         double mjd2k, dtt, lat, lon, rad, pres, temp;
         double hours;
         int year, month, day;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
-        pres = V(arrd_pres,0); // atm
-        temp = V(arrd_temp,0); // dgC
+        mjd2k = S(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = S(arrd_dtt); // seconds (TT to UT offset)
+        lat = S(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = S(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = S(arrd_rad); // km
+        pres = S(arrd_pres); // atm
+        temp = S(arrd_temp); // dgC
 
         mjd2k_to_date(&year, &month, &day, &hours, mjd2k);
 
@@ -105,6 +106,7 @@ static void _sunpos_original(
         V(arrd_out,3) = RAD2DEG * azimuth; // rad --> deg
         V(arrd_out,4) = RAD2DEG * zenith; // rad --> deg
 
+        #undef S
         #undef V
         #undef P
     }
-- 
2.43.0


From 882e153c6a247ac9602568e7bec8f7e85a181ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 02/23] fix: sum overlapping coefficient sets in shevaltemp

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..f4b8549 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -78,7 +78,6 @@ typedef struct CoefSet {
     size_t ncoef;
     int spline_order;
     int degree;
-    ptrdiff_t idx_last;
 } COEF_SET;
 
 static void _coefset_reset(COEF_SET *coefset);
@@ -465,6 +464,9 @@ static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    // the sets may overlap - their contributions are summed
+    memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -683,7 +685,6 @@ static int _coefset_init(
     coefset->ncoef = PyArray_DIMS(arr_cm)[0];
     coefset->spline_order = spline_order;
     coefset->degree = 0;
-    coefset->idx_last = -1;
 
     if (NULL == (coefset->offset = (ptrdiff_t*)malloc(coefset->ncoef*sizeof(ptrdiff_t))))
     {
@@ -729,22 +730,16 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
-        return;
-    }
-
     double (*coef)[2] = model->coef;
 
     size_t i, n = coefset->ncoef;
 
     for (i = 0; i < n; ++i)
     {
-        size_t offset = abs(coefset->offset[i]);
+        size_t offset = ABS(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp0_eval(&basis, coefset->cv + i*coefset->ntime);
     }
-
-     ((COEF_SET*)coefset)->idx_last = basis.i;
 }
 
 
@@ -759,9 +754,9 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
 
     for (i = 0; i < n; ++i)
     {
-        size_t offset = abs(coefset->offset[i]);
+        size_t offset = ABS(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp1_eval(&basis, coefset->cv + i*coefset->ntime);
     }
 }
 
-- 
2.43.0


From 161df508d49e18e558db29d154016e561a1e9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 03/23] fix: honour the memory layout of the coordinates in the
 field evaluation functions

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 2 +-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 +-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..d83474a 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -189,7 +189,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // cast the objects to arrays
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[0])))
         goto exit;
 
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..0933e37 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -204,7 +204,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t2 = _get_as_double_array(obj_t2, 0, 0, NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[2])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[2])))
         goto exit;
 
     // check the arrays' dimensions
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index f4b8549..8fcf364 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -249,7 +249,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t = _get_as_double_array(obj_t, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[1])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
     if (degree < 0)
-- 
2.43.0


From efe3a6cf58f555dab017a48de6cb4240685f6f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 04/23] fix: do not write beyond the degree-zero Legendre
 function arrays

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From 3dc4013a261114a6ba36648fbf8becd021b7e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 05/23] fix: account for the first term of the second dimension
 when allocating the 2D Fourier series

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From 0b4284bfa54ab7d164328251fff3c64002579b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 06/23] fix: broadcast the location over multiple evaluation
 times

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 483a637076de5236563172dbbafdee5fc82738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:05 +0000
Subject: [PATCH 07/23] fix: evaluate the first matching component also for
 arrays of times

A time shared by two touching components was evaluated with the first one
when given as a scalar and with the last one when given in an array.
---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..67628b4 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-many-locals, too-many-arguments, no-self-use
 
 
-from numpy import asarray, empty, full, nan, nditer
+from numpy import asarray, empty, full, nan, nditer, ones
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, sheval, shevaltemp
 from ..dipole import rotate_vectors_from_dipole
 from ..dipole_coords import convert_to_dipole
@@ -149,8 +149,11 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        remaining = ones(time.shape, 'bool')
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            # the first matching component is evaluated
+            mask = remaining & _is_valid(start, end)
+            remaining &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 5e331434c3277b1d7635b0dbae74611e1e0a50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 08/23] fix: decompose compositions of overlapping coefficient
 sets

The overlaps between the composed items were not resolved and combinations
of such compositions lost some of the intervals.
---
 .../eoxmagmod/magnetic_model/coefficients.py  | 18 +++++++--
 eoxmagmod/eoxmagmod/magnetic_model/util.py    | 38 ++++---------------
 2 files changed, 21 insertions(+), 35 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..bef7b98 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -112,10 +112,20 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        result = []
-        for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
-        return result
+        # resolve the overlaps of all composed items and keep the order of
+        # composition so that also at the interval boundaries the first
+        # matching item is selected
+        components = [
+            component for item in self for component in item.decompose()
+        ]
+        intervals = get_nonoverlapping_intervals([
+            (validity, (priority, item))
+            for priority, (validity, item) in enumerate(components)
+        ])
+        return [
+            (validity, item) for validity, (_, item)
+            in sorted(intervals, key=lambda interval: interval[1][0])
+        ]
 
     @property
     def time_scales(self):
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 27467e0..570c822 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -162,8 +162,8 @@ def get_nonoverlapping_intervals(intervals):
 
 
 def aggregate_intersected_intervals(intervals0, aggregates=None):
-    """ Aggregate associated objects of the intersected non-overlapping
-    intervals.
+    """ Aggregate associated objects of the intersected intervals. The order
+    of the intervals is preserved.
 
     Inputs:
         intervals - list of ((start, end), obj) tuples
@@ -175,35 +175,11 @@ def aggregate_intersected_intervals(intervals0, aggregates=None):
     if aggregates is None:
         aggregates = [((-inf, inf), [])]
 
-    it_aggregates = iter(aggregates)
-    it_intervals0 = iter(intervals0)
-
     result = []
-
-    def _insert(start, end, items, item):
-        result.append(((start, end), [*items, item]))
-
-    def _intersect(start1, end1, start0, end0):
-        if start1 <= end0 and start0 <= end1:
-            return max(start1, start0), min(end1, end0)
-        return None
-
-    try:
-        (start1, end1), items = next(it_aggregates)
-        (start0, end0), item = next(it_intervals0)
-
-        while True:
-            intersection = _intersect(start1, end1, start0, end0)
-
-            if intersection:
-                _insert(*intersection, items, item)
-
-            if end0 < end1:
-                (start0, end0), item = next(it_intervals0)
-            else:
-                (start1, end1), items = next(it_aggregates)
-
-    except StopIteration:
-        pass
+    for (start1, end1), items in aggregates:
+        for (start0, end0), item in intervals0:
+            start, end = max(start1, start0), min(end1, end0)
+            if start <= end:
+                result.append(((start, end), [*items, item]))
 
     return result
-- 
2.43.0


From dd2ea57415b1a2ac7393be40b7fbbb53d13662c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 09/23] fix: false time-gap of compositions with nested
 validity intervals

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index bef7b98..b608109 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -166,10 +166,9 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
+            last_item_validity_end = validity_end
 
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
-- 
2.43.0


From 50aa80cd7300e1091bb48364ddd6e63388d3a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 10/23] fix: time scales of the constant and decimal year
 coefficients

Combinations of coefficients in MJD2000 and decimal years were interpolated
as if all times were in the time scale of one of them.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index b608109..c1c1eca 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -490,7 +490,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -524,7 +524,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("decimal_year",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From 000a6600eba2b56586905ae7bf51f01cbd6828b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 11/23] fix: refuse coefficient indices of a wrong shape

The rank and the number of columns were checked with 'and', so that lists of
indices with a wrong number of columns passed unnoticed.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index c1c1eca..d1730a6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -430,7 +430,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         if coefficients.ndim != 2:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
@@ -465,7 +465,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
                 2: {"kind": INTERP_C1},
             }[spline_order]
         except KeyError:
-            raise ValueError("Unsupported spline order {spline_order}!") from None
+            raise ValueError(f"Unsupported spline order {spline_order}!") from None
 
     def get_coefficient_sets(self, **parameters):
         """ Extract coefficients sets which can be passed to C evaluation. """
@@ -500,7 +500,7 @@ class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
         if coefficients.ndim != 1:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
-- 
2.43.0


From 97dbe6de39711ffa39c4d8f41017e3c0c08e930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 12/23] fix: evaluate composed models for times and positions
 of different shapes

The vector rotation to the geodetic and Cartesian frames failed when the
positions had fewer dimensions than the times.
---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..8630c37 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -102,10 +105,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From 3cb22edaccbd7c6b5fe6a78f9431ff657f16167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 13/23] fix: evaluate MIO models with element-wise F10.7 and
 sub-solar points of any compatible shape

Element-wise f107, lat_sol and lon_sol arrays with fewer (or more) dimensions
than the time were masked without being reshaped and the evaluation failed
or mixed them up; min_degree of the primary field model took the maximum.
---
 .../eoxmagmod/magnetic_model/model_mio.py     | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..f8b6e78 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -41,6 +41,29 @@ MIO_EARTH_RADIUS = 6371.2 # km
 MIO_WOLF_RATIO = 0.014850
 
 
+def _reshape_inputs(time, location, options):
+    """ Reshape time, location and the element-wise options to a compatible
+    shape. The scalar options and the time are preserved unless any of
+    the options is an array and the time needs to follow its shape.
+    """
+    time, location = reshape_times_and_coordinates(
+        asarray(time), asarray(location)
+    )
+    shape = location.shape[:-1]
+    options = options.copy()
+
+    for key in ('f107', 'lat_sol', 'lon_sol'):
+        data = options.get(key)
+        if data is not None:
+            data = asarray(data)
+            if data.ndim > 0:
+                data = reshape_array(shape, data)
+                time = reshape_array(shape, time)
+            options[key] = data
+
+    return time, location, options
+
+
 class MIOPrimaryGeomagneticModel(GeomagneticModel):
     """ Composed model switching between MIO primary fields evaluation
     above and below the Ionosphere.
@@ -58,7 +81,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
@@ -74,7 +97,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        time, location, options = _reshape_inputs(time, location, options)
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
@@ -90,7 +113,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    options[key] = mask_array(data, mask)
 
             _mask_option('f107')
             _mask_option('lat_sol')
@@ -156,17 +179,10 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
              **options):
 
         def _subset(data, mask):
-            if data is None:
-                return None
-            data = asarray(data)
-            if data.ndim > 0:
-                return data[mask]
-            return data
+            return None if data is None else mask_array(data, mask)
 
-        # reshape time and location to a compatible shape
-        time, location = reshape_times_and_coordinates(
-            asarray(time), asarray(location)
-        )
+        # reshape time, location and element-wise options to a compatible shape
+        time, location, options = _reshape_inputs(time, location, options)
 
         # MIO scaling factor
         mask = True
-- 
2.43.0


From 707e9efe3223b3feb582da0879142b9cf9d3e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 14/23] fix: interpolate SHC models with the spline order of
 the file

The spline order read from the file was stored under a misspelled name
in a dictionary which is not used any more, so that all time dependent
models were interpolated linearly.
---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..cdb1d40 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,14 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
+        options.pop("spline_order", None) # not applicable to constants
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    options.setdefault("spline_order", min(data["spline_order"], 2))
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From 299c233c82ca8e404ea1323631a2ccede0a137a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:38 +0000
Subject: [PATCH 15/23] fix: refuse incompatible EMM static and secular
 variation coefficients

The exception was created but not raised.
---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..7113ec9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -55,7 +55,9 @@ def combine_emm_variable(data_static, data_secvar):
     size = nm_secvar.shape[0]
 
     if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+        raise ValueError(
+            "Incompatible sets of the static and variation coefficients!"
+        )
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From d1aa8558c5463bbb9b4c2f5cf6ca5d5b71efffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:46 +0000
Subject: [PATCH 16/23] fix: day of year of fractional times before 2000 in
 eval_subsol and eval_mlt

---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 9268691f3fade522f9af09fdf2dc935da7ef1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 17/23] fix: check the number of coordinates and report wrong
 scale factors in sheval

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index d83474a..a7d0873 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -195,6 +195,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // extract degree from the array dimensions
     { 
         const int ndegrees = 1;
@@ -295,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 5ef0afcf0a136b8453d0db5d1e327dd5a73ee40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 18/23] fix: number of spherical harmonic terms overflows for
 degrees above 46339

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 15 +++++++++++----
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index a7d0873..9158972 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -37,6 +37,7 @@
 #include "math_aux.h"
 #include "geo_conversion.h"
 #include "fourier_series.h"
+#include <stdint.h>
 #include "spherical_harmonics.h"
 #include "pymm_aux.h"
 #include "pymm_coord.h"
@@ -72,7 +73,7 @@ static SHEVAL_MODE _check_sheval_mode(int mode, const char *label);
 typedef struct {
     int is_internal;
     int degree;
-    int nterm;
+    size_t nterm;
     int coord_in;
     int coord_out;
     double elps_a;
@@ -630,10 +631,16 @@ static int _model_init(
     MODEL *model, int is_internal, int degree, int coord_in, int coord_out,
     const double scale_potential, const double *scale_gradient)
 {
-    const int nterm = ((degree+1)*(degree+2))/2;
+    const size_t nterm = (((size_t)degree+1)*((size_t)degree+2))/2;
 
     _model_reset(model);
 
+    if (nterm > PTRDIFF_MAX/sizeof(double[2]))
+    {
+        PyErr_Format(PyExc_MemoryError, "_model_ts_init: nterm");
+        goto error;
+    }
+
     model->is_internal = is_internal;
     model->degree = degree;
     model->nterm = nterm;
@@ -662,13 +669,13 @@ static int _model_init(
         goto error;
     }
 
-    if (NULL == (model->lcs = (double(*)[2])malloc((degree+1)*sizeof(double[2]))))
+    if (NULL == (model->lcs = (double(*)[2])malloc(((size_t)degree+1)*sizeof(double[2]))))
     {
         PyErr_Format(PyExc_MemoryError, "_model_ts_init: lcs");
         goto error;
     }
 
-    if (NULL == (model->rrp = (double*)malloc((degree+1)*sizeof(double))))
+    if (NULL == (model->rrp = (double*)malloc(((size_t)degree+1)*sizeof(double))))
     {
         PyErr_Format(PyExc_MemoryError, "_model_ts_init: rrp");
         goto error;
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 0933e37..a3d166b 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -508,7 +508,7 @@ static void _sheval2dfs_eval_coeff(
 
     for (i = 0; i < n; ++i)
     {
-        size_t offset = abs(coefset->offset[i]);
+        size_t offset = ABS(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
         const double (*ab)[2] = coefset->ab + i*ab_stride ;
 
-- 
2.43.0


From e0c2eebce18d95c14881a89682d09bff68e81d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:06 +0000
Subject: [PATCH 19/23] fix: shevaltemp: reject coefficient sets with too few
 nodes

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 8fcf364..85f89b0 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -447,6 +447,16 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
         goto error;
 
+    // there must be enough nodes for the requested spline order
+    if (PyArray_DIMS(arr_ct)[0] < spline_order)
+    {
+        PyErr_Format(
+            PyExc_ValueError, "Insufficient number of %s[%ld].%s nodes for "\
+            "spline order %d!", label, idx, keywords[0], spline_order
+        );
+        goto error;
+    }
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
-- 
2.43.0


From fdd03cbbd1b804b41f168dec621dee6c2266977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:24 +0000
Subject: [PATCH 20/23] fix: shevaltemp, sheval2dfs: reject invalid degrees and
 orders

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h   |  7 ++++++-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h   |  4 ++++
 eoxmagmod/eoxmagmod/pymm_sphar_common.h | 27 +++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index a3d166b..d447acc 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
@@ -743,6 +744,10 @@ static int _f2d_coefset_parse(
         goto error;
     }
 
+    snprintf(buffer, buffer_size, "%s.%s", label, keywords[1]);
+    if (_check_degrees_and_orders(arr_cm, buffer))
+        goto error;
+
     return _f2d_coefset_init(
         coefset, arr_ab, arr_cm,
         min_degree1, min_degree2, scale1, scale2
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 85f89b0..2f4ed5d 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -457,6 +457,10 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
         goto error;
     }
 
+    // check the degrees and orders of the coefficients
+    if (_check_degrees_and_orders(arr_cm, buffer))
+        goto error;
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
diff --git a/eoxmagmod/eoxmagmod/pymm_sphar_common.h b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
index 4f59be7..42a25d6 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphar_common.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
@@ -128,4 +128,31 @@ npy_intp _size_to_degree(npy_intp size)
     return degree;
 }
 
+
+/*
+ * Check that the array of the degree and order pairs is valid,
+ * i.e., 0 <= degree and -degree <= order <= degree.
+ */
+
+static int _check_degrees_and_orders(PyArrayObject *arr_cm, const char *label)
+{
+    const int *cm = (int*) PyArray_DATA(arr_cm);
+    npy_intp i, n = PyArray_DIMS(arr_cm)[0];
+
+    for (i = 0; i < n; ++i)
+    {
+        int degree = cm[i*2];
+        int order = cm[i*2+1];
+
+        if ((degree < 0)||(order < -(npy_intp)degree)||(order > degree))
+        {
+            PyErr_Format(PyExc_ValueError, "Invalid degree and order "\
+                "(%d, %d) in %s!", degree, order, label);
+            return 1;
+        }
+    }
+
+    return 0;
+}
+
 #endif /*PYMM_SPHAR_COMMON_H*/
-- 
2.43.0


From df73c0ca60af38c193ce947757ad03970d60b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:43 +0000
Subject: [PATCH 21/23] fix: sheval2dfs: release the coefficients' offsets

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index d447acc..c669266 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -593,6 +593,7 @@ static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
+    if (coefset->offset) free(coefset->offset);
 
     _fourier2d_destroy(&coefset->f2d);
 
-- 
2.43.0


From 6a7070ac35bae7718833f8b9de1d5fe9f21d39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:01 +0000
Subject: [PATCH 22/23] fix: 2D Fourier series: reject degrees out of the
 integer range

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index b0b1e9b..ac2f46a 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -30,6 +30,7 @@
 #ifndef PYMM_FOURIER2D_H
 #define PYMM_FOURIER2D_H
 
+#include <limits.h>
 #include "math.h"
 #include "fourier_series.h"
 #include "pymm_aux.h"
@@ -331,12 +332,23 @@ static int _fourier2d_init(
     const double scale2
 )
 {
-    ptrdiff_t max_degree1 = min_degree1 + size1 - 1;
-    ptrdiff_t max_degree2 = min_degree2 + size2 - 1;
-    ptrdiff_t max_abs_degree;
+    ptrdiff_t max_degree1, max_degree2, max_abs_degree;
 
     _fourier2d_reset(f2d);
 
+    // check that the degrees fit the range of the integer type
+    if (
+        (min_degree1 <= -INT_MAX)||(min_degree1 > INT_MAX - size1)||
+        (min_degree2 <= -INT_MAX)||(min_degree2 > INT_MAX - size2)
+    )
+    {
+        PyErr_Format(PyExc_ValueError, "Fourier series degrees out of range!");
+        goto error;
+    }
+
+    max_degree1 = min_degree1 + size1 - 1;
+    max_degree2 = min_degree2 + size2 - 1;
+
     f2d->min_degree1 = min_degree1;
     f2d->max_degree1 = max_degree1;
     f2d->min_degree2 = min_degree2;
-- 
2.43.0


From 91e4bfc196f93e1bca85361dae66b011aa4feca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:38 +0000
Subject: [PATCH 23/23] fix: do not release returned arrays twice when out of
 memory

---
 eoxmagmod/eoxmagmod/pymm_legendre.h      | 6 +++++-
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 6 ++++--
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 6 ++++--
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 6 ++++--
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 4 +++-
 eoxmagmod/eoxmagmod/pyqd_eval_subsol.h   | 7 +++++--
 6 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..ce03546 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -127,8 +127,12 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
 
 
     if (NULL == (retval = Py_BuildValue("NN", arr_p, arr_dp)))
+    {
+        // the references are consumed even if the call fails
+        arr_p = NULL;
+        arr_dp = NULL;
         goto exit;
-
+    }
 
     // evaluate associated Legendre functions and their derivatives
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 9158972..c626537 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -345,8 +345,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
                 _array_to_arrd(arr_coef),
                 &model
             );
-            if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
-                goto exit;
+            retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd);
+            // the references are consumed even if the call fails
+            arr_pot = NULL;
+            arr_grd = NULL;
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index c669266..1c7b4a3 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -341,8 +341,10 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
                 _array_to_arrd(arr_x),
                  &model
             );
-            if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
-                goto exit;
+            retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd);
+            // the references are consumed even if the call fails
+            arr_pot = NULL;
+            arr_grd = NULL;
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 2f4ed5d..c1aaa22 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -341,8 +341,10 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
                 _array_to_arrd(arr_x),
                  &model
             );
-            if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
-                goto exit;
+            retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd);
+            // the references are consumed even if the call fails
+            arr_pot = NULL;
+            arr_grd = NULL;
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..3e75353 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -217,7 +217,9 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         );
     }
 
-    if (NULL == retval) goto exit;
+    // the references are consumed even if the call fails
+    arr_qdlat = arr_qdlon = NULL;
+    arr_f11 = arr_f12 = arr_f21 = arr_f22 = arr_f = NULL;
 
   exit:
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
index ff9a56d..7d827ee 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
@@ -94,8 +94,11 @@ static PyObject* eval_subsol(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
-    if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon)))
-        goto exit;
+    retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon);
+
+    // the references are consumed even if the call fails
+    arr_gdlat = NULL;
+    arr_gdlon = NULL;
 
   exit:
 
-- 
2.43.0

