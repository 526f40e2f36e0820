From f30b9c6e1c2c13b43c3963ffb0078bff13ef18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:50 +0000
Subject: [PATCH 01/32] fix: aggregate_chunks emitted an empty leading chunk
 when the first chunk exceeds the limit

---
 africanus/util/shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..7252a11 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,9 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # The first chunk has nothing before it to emit,
+        # even when it exceeds max_chunks on its own
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From 4b39f5b4fbce25d5c8d4e77997bcd407036e1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:58 +0000
Subject: [PATCH 02/32] fix: kron_tensorvec kept factor sizes in int8, wrapping
 sizes above 127

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From 6d8c8609ff27c2afca83ae0d07fe2266c7c58417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:09 +0000
Subject: [PATCH 03/32] fix: hogbom_clean ran niter + 1 iterations

---
 africanus/deconv/hogbom/clean.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..f221d20 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,8 +184,8 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
+        # Warn if niter reached
+        if i >= niter:
             logging.warn("Number of iterations exceeded")
             logging.warn("Minimum residuals = %s", residuals.max())
 
-- 
2.43.0


From bd8b416c72d842bcc056add86134ae4e9c23e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:28 +0000
Subject: [PATCH 04/32] fix: calibration functions shifted the caller's
 time_bin_indices in place

---
 africanus/calibration/phase_only/phase_only.py         | 6 +++---
 africanus/calibration/utils/compute_and_corrupt_vis.py | 2 +-
 africanus/calibration/utils/correct_vis.py             | 2 +-
 africanus/calibration/utils/corrupt_vis.py             | 2 +-
 africanus/calibration/utils/residual_vis.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..c4063bc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From 58e13b4f3cc5a63d5fc53ca3e13525a70162243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:25 +0000
Subject: [PATCH 05/32] fix: gauss_newton whitened the caller's vis and model
 in place

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index c4063bc..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 1cd3b7f3671a075bda6548259158e2786afa2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 06/32] fix: lazy compute_jhj and compute_jhr declared
 row-sized chunks on the time axis

---
 africanus/calibration/phase_only/dask.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..6b30804 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,7 +62,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
                      dtype=model.dtype,
                      align_arrays=False)
-- 
2.43.0


From da98efb3165349346d65431100037561845b5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:25 +0000
Subject: [PATCH 07/32] fix: lazy time_and_channel passes chan_bin_size to the
 channel average

The declared chunks of the lazily averaged channel arrays were those of a bin
size of one, and without any channel array a two element output tuple was
requested from a four field type.
---
 africanus/averaging/dask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..45f2f57 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -219,7 +219,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
@@ -314,7 +314,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From a8b5c5a5b7dd599cfc71608907d2bd8844db5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:07 +0000
Subject: [PATCH 08/32] fix: lm_to_radec and lmn_to_radec return the right
 ascension in the right quadrant

arctan of the quotient is off by pi for positions whose right ascension
differs by more than pi/2 from the phase centre's (beyond the pole).
---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From 70db379ee4679896d26f02b4bff9444be9dcabca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:53 +0000
Subject: [PATCH 09/32] fix: spectral_model accepts an omitted base

numba types an omitted argument as Omitted, which was refused although base
is documented as optional.
---
 africanus/model/spectral/spec_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index 07e7454..ecd2e22 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
-from numba import types
+from numba import types, typeof
 import numpy as np
 
 from africanus.util.numba import generated_jit, njit
@@ -99,6 +99,10 @@ def spectral_model(stokes, spi, ref_freq, frequency, base=0):
                        in (stokes, spi, ref_freq, frequency))
     dtype = np.result_type(*arg_dtypes)
 
+    # base was not supplied, use the type of its default
+    if isinstance(base, types.misc.Omitted):
+        base = typeof(base.value)
+
     if isinstance(base, types.containers.List):
         is_base_list = True
         base = base.dtype
-- 
2.43.0


From 034e5e5986c6a9adef355c55fd04cd9854d01c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:11 +0000
Subject: [PATCH 10/32] fix: transform_sources rotates m with the unrotated l

---
 africanus/rime/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..acc7d1b 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -24,11 +24,11 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
             pa_cos = math.cos(parallactic_angles[t, a])
 
             for s in range(nsrc):
-                l, m = lm[s]
+                src_l, src_m = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l = src_l*pa_cos - src_m*pa_sin  # noqa
+                m = src_l*pa_sin + src_m*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From 827d9b259e47f11ebf99068963d0b83d2449bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 11/32] fix: progress bar keeps its estimate between updates

---
 africanus/util/dask_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..54f3303 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -128,11 +128,11 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
 
 def timer_func(pb):
     start = default_timer()
+    prev_completed = 0
+    prev_estimated = 0.0
 
     while pb.running.is_set():
         elapsed = default_timer() - start
-        prev_completed = 0
-        prev_estimated = 0.0
 
         if elapsed > pb._minimum:
             prev_completed, prev_estimated = update_bar(elapsed,
-- 
2.43.0


From 7ebda425a1ae4add4de31918b3c31dc06a6bb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 12/32] fix: overlaps_with normalises every edge normal by its
 own length

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..133f0ab 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From 5c2896260fad863312087215d58ec69131f34758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 13/32] fix: regional_data compares the region with the
 matching image axes and sets outside pixels to oob_value

---
 africanus/linalg/geometry.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 133f0ab..40a940a 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
@@ -232,13 +232,14 @@ class BoundingConvexHull(object):
         new_shape[axes[1]] = maxx - minx + 1
 
         if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
-            )
+            padded_data = np.zeros(tuple(new_shape),
+                                   dtype=selected_data.dtype)
             padded_data[tuple(slc_padded)] = selected_data.copy()
+            outside = np.ones(tuple(new_shape), dtype=bool)
+            outside[tuple(slc_padded)] = False
         else:
             padded_data = selected_data.copy()
+            outside = np.zeros(tuple(new_shape), dtype=bool)
 
         # finally apply mask
         slc_padded_data = [slice(None)] * len(padded_data.shape)
@@ -265,9 +266,9 @@ class BoundingConvexHull(object):
             axes,
         ):
             slc_mask[axis] = slice(start, end)
-        mask = sel_region.mask.copy()
-        mask[mask == 0] = oob_value
-        padded_data[tuple(slc_padded_data)] *= mask[tuple(slc_mask)]
+        mask = sel_region.mask[tuple(slc_mask)]
+        padded_data[tuple(slc_padded_data)] *= mask
+        padded_data[np.logical_or(outside, mask == 0)] = oob_value
         window_extents = [minx, maxx, miny, maxy]
         return padded_data, window_extents
 
-- 
2.43.0


From def6d3ec3bcf2e861e6bc300584b7730c378e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 14/32] fix: normalize_masks counts pixels with negative
 coordinates and runs with current numpy

---
 africanus/linalg/geometry.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 40a940a..3051724 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -295,27 +295,17 @@ class BoundingConvexHull(object):
                 else reg.sparse_mask
             )
 
-        # flatten for faster comparisons
-        allmasks = np.array(allmasks)
-        maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
-
         # now count the number of times a pixel is painted onto
-        unique_pxls_flatten, paint_count = np.unique(
-            allmasks_flatten, return_counts=True
+        unique_pxls, paint_count = np.unique(
+            np.array(allmasks), axis=0, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(np.float64)
 
         if only_overlapped_regions:
             sel = paint_count > 1
-            unique_pxls_flatten = unique_pxls_flatten[sel]
+            unique_pxls = unique_pxls[sel]
             paint_count = paint_count[sel]
 
-        # with the reduced number of overlap pixels unflatten
-        unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
-        ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
 
-- 
2.43.0


From 0cb2e1bbf70eb0c31f311b5996b0e7961ea3488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 15/32] fix: setting the sparse mask of a region invalidates
 its filled mask and weights

---
 africanus/linalg/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 3051724..f5ee462 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -131,6 +131,7 @@ class BoundingConvexHull(object):
         else:
             self._mask = copy.deepcopy(mask)
         self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @property
     def mask(self, dtype=np.float64):
@@ -561,7 +562,8 @@ class BoundingBox(BoundingConvexHull):
                 ),
             )
             self._mask = sparse_mask[sel]
-            self._mask_weights = np.ones(len(self._mask))
+        self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @classmethod
     def project_regions(
-- 
2.43.0


From 3eb56e32bc7ffa3cd3f3df320957ba5ebfaa5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 16/32] fix: project_regions leaves the regional data it is
 given alone

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index f5ee462..c9351c1 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -615,7 +615,7 @@ class BoundingBox(BoundingConvexHull):
 
         combined_mask = []
         for f, freg in zip(regional_data_list, regions_list):
-            f[np.isnan(f)] = 0
+            f = np.where(np.isnan(f), 0, f)
             xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
             xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
             yl = max(0, global_offsety + np.min(freg.corners[:, 1]))
-- 
2.43.0


From f0a9230ff348de0e8d159ec6c2477838965bd51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 17/32] fix: square and padded boxes contain the region they
 are built around

---
 africanus/linalg/geometry.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index c9351c1..1dcaaca 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -665,12 +665,12 @@ class BoundingBoxFactory(object):
                 + 1
             )  # inclusive
             boxdiam = max(nx, ny)
-            boxrad = boxdiam // 2
-            cx, cy = convex_hull_object.centre
-            xl = cx - boxrad
-            xu = cx + boxdiam - boxrad - 1
-            yl = cy - boxrad
-            yu = cy + boxdiam - boxrad - 1
+            xl = (np.min(convex_hull_object.corners[:, 0])
+                  - (boxdiam - nx + 1) // 2)
+            xu = xl + boxdiam - 1
+            yl = (np.min(convex_hull_object.corners[:, 1])
+                  - (boxdiam - ny + 1) // 2)
+            yu = yl + boxdiam - 1
         else:
             xl = np.min(convex_hull_object.corners[:, 0])
             xu = np.max(convex_hull_object.corners[:, 0])
@@ -766,15 +766,12 @@ class BoundingBoxFactory(object):
         nx, ny = bounding_box_object.box_npx
         if desired_nx - nx < 0 or desired_ny - ny < 0:
             raise ValueError("Padded box must be bigger than original box")
-        pad_left = desired_nx // 2
-        pad_right = desired_nx - pad_left - 1
-        pad_bottom = desired_ny // 2
-        pad_top = desired_ny - pad_bottom - 1
-        cx, cy = bounding_box_object.centre
-        xl = cx - pad_left
-        xu = cx + pad_right
-        yl = cy - pad_bottom
-        yu = cy + pad_top
+        xl = (np.min(bounding_box_object.corners[:, 0])
+              - (desired_nx - nx + 1) // 2)
+        xu = xl + desired_nx - 1
+        yl = (np.min(bounding_box_object.corners[:, 1])
+              - (desired_ny - ny + 1) // 2)
+        yu = yl + desired_ny - 1
         return BoundingBox(
             xl,
             xu,
-- 
2.43.0


From 3b5f15d6a97bfcf8bb361058f90645868134ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 18/32] fix: SplitBox never produces boxes outside of the box
 it splits

---
 africanus/linalg/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 1dcaaca..5a54b09 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -704,12 +704,9 @@ class BoundingBoxFactory(object):
         yu = np.max(bounding_box_object.corners[:, 1])
 
         # construct a nonregular meshgrid bound to xu and yu
-        x = xl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((xu - xl + 1) / float(nsubboxes))
-        )
-        y = yl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((yu - yl + 1) / float(nsubboxes))
-        )
+        steps = np.arange(0, nsubboxes + 1)
+        x = xl - (-steps * (xu - xl + 1)) // nsubboxes  # rounded up
+        y = yl - (-steps * (yu - yl + 1)) // nsubboxes
         xx, yy = np.meshgrid(x, y)
 
         # split into boxes
-- 
2.43.0


From d7fda4755601410342df4686712e9209827dc74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 19/32] fix: uvw_rotate multiplies the unrotated uvw triple by
 the rotation matrix

---
 .../policies/baseline_transform_policies.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..e7d10fc 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,10 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u, v, w = uvw[0], uvw[1], uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 00f8a854db52d81b11c7b3330f61aa2c338c9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 20/32] fix: gridder and degridder leave uvw and vis alone,
 degridder samples at the gridder's coordinates

---
 .../gridding/perleypolyhedron/degridder.py    |  9 +++++----
 .../gridding/perleypolyhedron/gridder.py      | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..67ebd3e 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,13 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    row_uvw = uvw[r, :].copy()  # the policy works in place
+    btp.policy(row_uvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..3228165 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,11 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        # the policies work in place: leave the caller's arrays alone
+        row_vis = vis[r:r + 1, :, :].copy()
+        row_uvw = uvw[r, :].copy()
+        ptp.policy(row_vis[0, :, :],
+                   row_uvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +92,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(row_uvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+            scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+            scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +105,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                row_vis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From adebbb84312a20ae7b29168a39a9495a570546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:37 +0000
Subject: [PATCH 21/32] fix: dask degridder degrids each facet at its own
 centre and honours rowparallel

---
 africanus/gridding/perleypolyhedron/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..35b411b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -67,7 +67,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
@@ -163,6 +163,7 @@ def degridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
+        rowparallel=rowparallel,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
-- 
2.43.0


From 50ecac7b632f57c6bb64ed7a74995490fde4521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:05 +0000
Subject: [PATCH 22/32] fix: dask gridder and degridder use every channel,
 facet and band chunk, and sum unnormalised grids over row chunks

---
 africanus/gridding/perleypolyhedron/dask.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 35b411b..a402340 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -146,6 +146,9 @@ def degridder(uvw,
             "Grid stack must be nfacet x nband x yy x xx and match number "
             "of image centres"
         )
+    # every block sums over all facets and reads all of their bands
+    gridstack = da.asarray(gridstack).rechunk(-1)
+    image_centres = da.asarray(image_centres).rechunk(-1)
     vis = da.blockwise(
         __degrid, ("row", "chan", "corr"),
         uvw, ("row", "uvw"),
@@ -282,6 +285,10 @@ def gridder(uvw,
             uvw.chunks) != 2 or vis.chunks[0] != uvw.chunks[0]:
         raise ValueError(
             "Visibility row chunking does not match uvw row chunking")
+    # every block grids all of the channels
+    vis = vis.rechunk({1: -1, 2: -1})
+    lambdas = lambdas.rechunk(-1)
+    chanmap = chanmap.rechunk(-1)
     grids = da.blockwise(
         __grid, ("row", "nfacet", "nstokes", "nband", "y", "x"),
         uvw, ("row", "uvw"),
@@ -315,4 +322,6 @@ def gridder(uvw,
         meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype))
 
     # Parallel reduction over row dimension
+    if not do_normalize:
+        return grids.sum(axis=0, split_every=2)
     return grids.mean(axis=0, split_every=2)
-- 
2.43.0


From 225848b4fdaf21b53436aaa464b266dfa21fbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 23/32] fix: exponential_squared raises the intended exceptions
 for unsupported power spectra

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From 0a2fd02b65796e29fe42f2a377a31a020a33bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 24/32] fix: kron_matmat and kron_tensormat keep the imaginary
 part of complex factors

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 235ab38..ed65d7d 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -119,7 +119,7 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(np.float64, B, *A))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +148,7 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(np.float64, B, *A))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
-- 
2.43.0


From 34f47f261c2993e287de1d401f67b3b9e4d7c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:17 +0000
Subject: [PATCH 25/32] fix: convert raises ValueError naming an unknown output
 type

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From 631e9ce6080cb54c8c283b385828f2381b1707f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:40 +0000
Subject: [PATCH 26/32] fix: FITS axes without a CTYPE keyword get their number
 as name

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..c99bf79 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [str(header.get('CTYPE%d' % n, n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From 9931bb6dedaf0f0679270e24c05ad38a2903c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:00 +0000
Subject: [PATCH 27/32] fix: dask fit_spi_components fits all channel chunks

---
 africanus/model/spi/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..bd213d4 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -17,13 +17,13 @@ else:
 
 def _fit_spi_components_wrapper(data, weights, freqs, freq0,
                                 alphai, I0i, beam, tol, maxiter):
-    return np_fit_spi_components(data[0],
-                                 weights[0],
-                                 freqs[0],
+    return np_fit_spi_components(data,
+                                 weights,
+                                 freqs,
                                  freq0,
                                  alphai,
                                  I0i,
-                                 beam[0] if beam is not None else beam,
+                                 beam,
                                  tol=tol,
                                  maxiter=maxiter)
 
@@ -44,6 +44,7 @@ def fit_spi_components(data, weights, freqs, freq0,
                      tol, None,
                      maxiter, None,
                      new_axes={"vars": 4},
+                     concatenate=True,
                      dtype=data.dtype)
 
 
-- 
2.43.0


From 65b3a4410d58fb3c8bc6f70354958f4d36dc86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:00 +0000
Subject: [PATCH 28/32] fix: dask fit_spi_components has the eager default
 tolerance, and the documentation names it

---
 africanus/model/spi/component_spi.py | 2 +-
 africanus/model/spi/dask.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spi/component_spi.py b/africanus/model/spi/component_spi.py
index b09e5c8..4c61e93 100644
--- a/africanus/model/spi/component_spi.py
+++ b/africanus/model/spi/component_spi.py
@@ -125,7 +125,7 @@ SPI_DOCSTRING = DocstringTemplate(
         Power beam for each component as a function of frequency.
     tol : float, optional
         Solver absolute tolerance (optional).
-        Defaults to 1e-6.
+        Defaults to 1e-4.
     maxiter : int, optional
         Solver maximum iterations (optional).
         Defaults to 100.
diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index bd213d4..15920a5 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -31,7 +31,7 @@ def _fit_spi_components_wrapper(data, weights, freqs, freq0,
 @requires_optional('dask.array', opt_import_error)
 def fit_spi_components(data, weights, freqs, freq0,
                        alphai=None, I0i=None, beam=None,
-                       tol=1e-5, maxiter=100):
+                       tol=1e-4, maxiter=100):
     """ Dask wrapper fit_spi_components function """
     return blockwise(_fit_spi_components_wrapper, ("vars", "comps"),
                      data, ("comps", "chan"),
-- 
2.43.0


From a986a1073832f242577b133e70d4d71e88439870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 29/32] fix: cubic spline end point conditions

---
 africanus/averaging/splines.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..fa989e8 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,10 +34,11 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        diag[0, C] = 0.0
+        v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
@@ -47,9 +48,9 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
         diag[n-1, B] = 2.0
         diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
-- 
2.43.0


From 154af51b677d5e77d6bfd80cae23468e3fa0f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 30/32] fix: cubic spline tridiagonal elimination

---
 africanus/averaging/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index fa989e8..fe390ae 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -57,7 +57,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
@@ -65,7 +65,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
-- 
2.43.0


From 797d9991057c75a3050af859d1a5909a103cfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 31/32] fix: cubic spline extrapolation starts at the end knots

---
 africanus/averaging/splines.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index fe390ae..c7e88cf 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -85,7 +85,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
@@ -100,7 +100,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -108,9 +108,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -120,9 +120,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -131,9 +131,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0


From e6cfae6bdee07602ea6fcad94d8ddb9dbfd0fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:00 +0000
Subject: [PATCH 32/32] fix: dask predict_vis infers its type from the base
 visibilities too

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0

