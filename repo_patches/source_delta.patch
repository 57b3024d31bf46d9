From c6425565654f084cde308add3ab2e95ebc9003ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 01/20] fix: longitude on the antimeridian and at the poles
 when converting from cartesian

arccos(x / r) * sign(y) gives 0 instead of 180 when y is zero and x negative,
and NaN when x and y are both zero. Use arctan2(y, x) instead.
---
 geotiepoints/_modis_utils.pyx   | 4 ++--
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From 3257f716100cfe0e42fa48d0515b121ba1e154d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 02/20] fix: use the requested fine points when interpolating
 to a dask array

The lazy path interpolated to the chunk's pixel indices instead of the fine
points passed in, giving different values than the numpy path.
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..ffb5f51 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,11 +271,11 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_chunk = partial(self.interpolate_numpy, **interpolator_call_kwargs)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_chunk,
+                                      (v_fine_points[slice_y], h_fine_points[slice_x]))
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From c8f9da81945ae150be052ea0b02c8d6fcbe8fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 03/20] fix: distinct interpolators must not share dask key
 names

The token ignored the interpolator itself, so lazy results of e.g. a nearest and
a linear interpolator on the same data collided when computed together.
---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index ffb5f51..57f49e3 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -268,7 +268,7 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(self.interpolator, chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_chunk = partial(self.interpolate_numpy, **interpolator_call_kwargs)
-- 
2.43.0


From 002dcf82127725870bc59961e8cc528027d65d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 04/20] fix: select the tie rows of a chunk by fine row
 position when filling borders

The selection assumed tie row positions expressed in tie point units starting at
zero, so that generic_modis5kmto1km (and any interpolator with positions in fine
pixel units and a chunk size) failed or mixed up chunks.
---
 geotiepoints/interpolator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 57f49e3..c1b938f 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -162,7 +162,8 @@ class Interpolator:
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
+        # a chunk holds the tie rows from its first fine row up to the first fine row of the next chunk
+        tie_chunks = np.searchsorted(self.hrow_indices[chunk_size::chunk_size], self.row_indices, side="right")
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -170,8 +171,7 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
+            indices = tie_chunks == index // chunk_size
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
 
-- 
2.43.0


From 5dd5a4c4c7e945322e324ac204bec9e20838ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 05/20] fix: do not duplicate tie rows already on the chunk
 border

Filling row borders of a grid whose tie rows reach the border inserted the same
row twice, making the row axis non-increasing and the interpolation fail. Columns
were already guarded.
---
 geotiepoints/interpolator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c1b938f..e267921 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -174,20 +174,23 @@ class Interpolator:
             indices = tie_chunks == index // chunk_size
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
+            first_row = self.hrow_indices[index]
+            last_row = self.hrow_indices[index + chunk_size - 1]
+            # borders already reached by the tie points do not need an extra row
+            first = tiepos[0] > first_row
+            last = tiepos[-1] < last_row
+            keep = slice(None if first else 1, None if last else -1)
 
             for num, data in enumerate(self.tie_data):
                 to_extrapolate = data[ties, :]
                 if len(to_extrapolate) > 0:
                     extrapolated = self._extrapolate_rows(to_extrapolate,
                                                           tiepos,
-                                                          self.hrow_indices[
-                                                              index],
-                                                          self.hrow_indices[index + chunk_size - 1])
-                    tmp_data[num].append(extrapolated)
-
-            row_indices.append(np.array([self.hrow_indices[index]]))
-            row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+                                                          first_row,
+                                                          last_row)
+                    tmp_data[num].append(extrapolated[keep])
+
+            row_indices.append(np.concatenate(([first_row], tiepos, [last_row]))[keep])
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From 98ca49d9b17254e575441422bf65a68470c88f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 06/20] fix: BasicSatelliteInterpolator used the removed pandas
 as_matrix method

---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From 825f4ed94e5b44c0d8074ba616a99ec91fccb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 07/20] fix: one dimensional multilinear grid raised TypeError

np.linspace does not accept an array as number of points.
---
 geotiepoints/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..f0aa9d5 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -8,7 +8,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+            np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 05d9ade779b9857b8713ede3f0f3fd4813b3222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 08/20] fix: column-wise interpolation truncated results of
 integer tie data

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index e267921..a438323 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -218,7 +218,7 @@ class Interpolator:
         for num, data in enumerate(self.tie_data):
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From 7960d64091ec8486de8dac4b108d935622431991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 09/20] fix: zenith angle based MODIS interpolation of 64-bit
 inputs

The 32-bit coordinate arrays did not match the 64-bit specialization and raised
a buffer dtype mismatch.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 90345d8bbe9144ae120608e102f6f23e513f71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 10/20] fix: zero zenith angles at both ends of a cell gave NaN

The expansion and alignment coefficients were computed as 0 / 0.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..f6b1e88 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -60,6 +60,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # both tiepoints at nadir
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0


From a43a6491dde215b919de6b99ef81e5c68e536c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 11/20] fix: reject MODIS arrays that are not whole, full width
 scans of the same shape

Partial scans left output rows uninitialized, and unexpected widths or differing
shapes were accessed out of bounds.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index f6b1e88..a89c32b 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -142,6 +142,11 @@ cdef class MODISInterpolator:
         lat1 = np.ascontiguousarray(lat1)
         satz1 = np.ascontiguousarray(satz1)
 
+        if (satz1.shape[0] % self._coarse_scan_length != 0 or satz1.shape[1] != self._coarse_scan_width
+                or lon1.shape[0] != satz1.shape[0] or lon1.shape[1] != satz1.shape[1]
+                or lat1.shape[0] != satz1.shape[0] or lat1.shape[1] != satz1.shape[1]):
+            raise ValueError("Input arrays must have the same shape and consist of whole, full width scans.")
+
         cdef int num_fine_scan_rows = self._coarse_scan_length * self._fine_pixels_per_coarse_pixel
         cdef int num_fine_scan_cols = self._fine_scan_width
         cdef np.ndarray[floating, ndim=2] a_track = np.empty((num_fine_scan_rows, num_fine_scan_cols), dtype=lon1.dtype)
-- 
2.43.0


From 8b037c0b2dba36d59287ca5a472740617804c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 12/20] fix: reject input the simple MODIS interpolation can't
 handle

Partial scans left output rows uninitialized; differing shapes, single columns and
unsupported resolutions were accessed out of bounds.
---
 geotiepoints/_simple_modis_interpolator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..9115838 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -22,6 +22,12 @@ def interpolate_geolocation_cartesian(
     cdef Py_ssize_t num_rows = lon_array.shape[0]
     cdef Py_ssize_t num_cols = lon_array.shape[1]
     cdef unsigned int num_scans = num_rows // rows_per_scan
+    if rows_per_scan != 10 or res_factor not in (2, 4):
+        raise ValueError("Only interpolation from 1000m to 500m or 250m is supported.")
+    if lat_array.shape[0] != num_rows or lat_array.shape[1] != num_cols:
+        raise ValueError("Longitude and latitude arrays must have the same shape.")
+    if num_rows % rows_per_scan != 0 or num_cols < 2:
+        raise ValueError("Input arrays must consist of whole scans of at least two columns.")
 
     # SciPy's map_coordinates requires the x/y dimension to be first
     cdef np.ndarray[floating, ndim=3] coordinates = np.empty(
-- 
2.43.0


From ee60c89f71e0a43bb19347ad285749368c41e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 13/20] fix: dask row chunks smaller than a scan raised
 ZeroDivisionError

---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..001fb0e 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -183,7 +183,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From 28b41ad808b9fa47e09b4b1ec7022bc55effbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 14/20] fix: declared width of lazily interpolated MODIS arrays

The dask result was always declared 1354 1km pixels wide, whatever the input.
---
 geotiepoints/_modis_utils.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 001fb0e..e9f7c47 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -138,7 +138,8 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    num_1km_cols = first_arr.shape[1] if coarse_resolution == 1000 else 1354
+    fine_scan_width = num_1km_cols * fine_pixels_per_1km
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From e68da12e660b26c4f66edcd0ea79a92a3666d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 15/20] fix: MODIS interpolation of DataArrays backed by numpy
 arrays

They were treated as dask arrays and raised AttributeError.
---
 geotiepoints/_modis_utils.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index e9f7c47..c3bb49d 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -106,6 +106,11 @@ def scanline_mapblocks(func):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
+            if not hasattr(dask_args[0], "compute"):
+                # xarray with numpy
+                results = func(*dask_args, coarse_resolution=coarse_resolution,
+                               fine_resolution=fine_resolution, **kwargs)
+                return _results_to_data_arrays(first_arr.dims, *results)
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
@@ -156,8 +161,6 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
 def _results_to_data_arrays(dims, *results):
     new_results = []
     for result in results:
-        if not isinstance(result, da.Array):
-            continue
         data_arr = xr.DataArray(result, dims=dims)
         new_results.append(data_arr)
     return new_results
-- 
2.43.0


From ee701d8fed02269938e6001fba157fc8510b9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 16/20] fix: five dimensional multilinear interpolation was
 never dispatched

---
 geotiepoints/multilinear_cython.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..f8cffff 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -26,7 +26,7 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     cdef floating[:] vals
     cdef floating[:] res
 
-    if d > 4:
+    if d > 5:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
 
     with nogil:
@@ -41,6 +41,8 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
                 multilinear_interpolation_3d(smin, smax, orders, vals, n_s, s, res)
             elif d == 4:
                 multilinear_interpolation_4d(smin, smax, orders, vals, n_s, s, res)
+            elif d == 5:
+                multilinear_interpolation_5d(smin, smax, orders, vals, n_s, s, res)
 
     return result_arr
 
-- 
2.43.0


From 54526535d07e5bdc5f6424afcc50320753d15424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 17/20] fix: pixel coordinates of the 5km to 500m and 250m
 MODIS interpolation

The tiepoint offsets and edge columns were those of 5km to 1km whatever the fine
resolution, giving errors of about 20 km.
---
 geotiepoints/_modis_interpolator.pyx | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index a89c32b..50b4152 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -240,22 +240,12 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - (self._factor_5km * 1.25 - 0.5)
+        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        # the columns outside the tiepoints continue the coordinate of the nearest cell
+        cdef Py_ssize_t last_tiepoint = self._factor_5km + (self._coarse_scan_width - 1) * self._fine_pixels_per_coarse_pixel
+        x[:self._factor_5km] -= self._fine_pixels_per_coarse_pixel
+        x[last_tiepoint:] = np.arange(self._fine_scan_width - last_tiepoint) + self._fine_pixels_per_coarse_pixel
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From 5f92072d46e33948e886d8e0f35ae1c294ecd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 18/20] fix: reject multilinear values and points that don't
 match the grid

They were accessed out of bounds.
---
 geotiepoints/multilinear_cython.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index f8cffff..4e763ce 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -29,6 +29,16 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     if d > 5:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
 
+    cdef Py_ssize_t n_nodes = 1
+    if d < 1 or smin.shape[0] != d or smax.shape[0] != d or orders.shape[0] != d:
+        raise ValueError("The grid and the points must have the same dimension.")
+    for k in range(d):
+        if orders[k] < 2 or orders[k] > values.shape[1] // n_nodes:
+            raise ValueError("The orders must be at least 2, and match the number of values.")
+        n_nodes *= orders[k]
+    if n_nodes != values.shape[1]:
+        raise ValueError("The number of values must match the orders.")
+
     with nogil:
         for i in range(n_v):
             vals = values[i, :]
-- 
2.43.0


From 3c4b17aaad00fcd89aa9b239a7896017da49f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 19/20] fix: multilinear extrapolation far outside of the grid
 used the wrong cell

Converting a coordinate beyond the range of an int is undefined, and gave the first
cell instead of the last one.
---
 geotiepoints/multilinear_cython.pyx | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index 4e763ce..1b9a1ed 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -57,6 +57,15 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     return result_arr
 
 
+cdef inline int _cell_index(floating x, int order) noexcept nogil:
+    # compare before converting, x can be outside the range of an int
+    if x >= order - 2:
+        return order - 2
+    if x > 0:
+        return min(<int>x, order - 2)
+    return 0
+
+
 cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
                                        long[:] orders, floating[:] V,
                                        int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
@@ -77,7 +86,7 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             sn_0 = (s_0-smin[0])/(smax[0]-smin[0])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -118,8 +127,8 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             sn_1 = (s_1-smin[1])/(smax[1]-smin[1])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -172,9 +181,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             sn_2 = (s_2-smin[2])/(smax[2]-smin[2])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -247,10 +256,10 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             sn_3 = (s_3-smin[3])/(smax[3]-smin[3])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -353,11 +362,11 @@ cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
             sn_4 = (s_4-smin[4])/(smax[4]-smin[4])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
-            q_4 = max( min( <int>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3)
+            q_4 = _cell_index(sn_4 *(order_4-1), order_4)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
-- 
2.43.0


From 8d36a49ede97bd7346ea8add817fb69d8b67d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 20/20] fix: adjacent zenith angles equal up to rounding gave
 NaN

Angles that differ only by rounding errors were not recognised as
symmetrical about the subsatellite track, and the alignment coefficient
was divided by their difference.
---
 geotiepoints/_modis_interpolator.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 50b4152..472ee9c 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -3,13 +3,17 @@ cimport cython
 from ._modis_utils cimport lonlat2xyz, xyz2lonlat, floating, deg2rad
 from .simple_modis_interpolator import scanline_mapblocks
 
-from libc.math cimport asin, sin, cos, sqrt
+from libc.math cimport asin, sin, cos, fabs, sqrt
 cimport numpy as np
 import numpy as np
 
 DEF R = 6370.997
 # Aqua altitude in km
 DEF H = 709.0
+# Tiepoints whose angles at the Earth's centre differ by less than this (radians)
+# are taken to be symmetrical about the subsatellite-track. This is well above the
+# rounding errors and below the 0.01 degrees resolution of the zenith angles.
+DEF SYMMETRY_TOLERANCE = 1e-5
 
 np.import_array()
 
@@ -59,7 +63,7 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             zeta = _compute_zeta(phi)
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
-            denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            denominator = theta_a + theta_b if fabs(theta_a - theta_b) < SYMMETRY_TOLERANCE else theta_a - theta_b
             if denominator == 0:
                 # both tiepoints at nadir
                 c_expansion[i, j] = 0
-- 
2.43.0

