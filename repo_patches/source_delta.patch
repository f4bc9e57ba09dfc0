From feadf7b1f279eca96003002fb5ca24e3e3814a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 001/270] fix: overlapping_boxes could return a trim box from
 the middle of the new box, so that no valid box remained

---
 resqpy/olio/box_utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resqpy/olio/box_utilities.py b/resqpy/olio/box_utilities.py
index c17bf86..848210f 100644
--- a/resqpy/olio/box_utilities.py
+++ b/resqpy/olio/box_utilities.py
@@ -321,6 +321,14 @@ def overlapping_boxes(established_box, new_box, trim_box):
     for dir in range(3):
         overlap_box[0, dir] = max(established_box[0, dir], new_box[0, dir])
         overlap_box[1, dir] = min(established_box[1, dir], new_box[1, dir])
+        # if overlap is clear of both faces of new_box, extend to the nearer face so that a single box will remain
+        lower_gap = overlap_box[0, dir] - new_box[0, dir]
+        upper_gap = new_box[1, dir] - overlap_box[1, dir]
+        if lower_gap > 0 and upper_gap > 0:
+            if lower_gap <= upper_gap:
+                overlap_box[0, dir] = new_box[0, dir]
+            else:
+                overlap_box[1, dir] = new_box[1, dir]
         trim_cost[dir] = (overlap_box[1, dir] - overlap_box[0, dir] + 1) * new_box_area[dir]
         if trim_cost[dir] < min_trim_cost:
             min_trim_cost = trim_cost[dir]
-- 
2.43.0


From f74602b9b2af3dd3f9fe3a06b278ab9377f7bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 002/270] fix: FineCoarse kept an out of date fine to coarse
 mapping after ratios were set again

---
 resqpy/olio/fine_coarse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/fine_coarse.py b/resqpy/olio/fine_coarse.py
index d0301e2..01b834f 100644
--- a/resqpy/olio/fine_coarse.py
+++ b/resqpy/olio/fine_coarse.py
@@ -224,6 +224,7 @@ class FineCoarse:
         assert remainder == 0, 'coarse extent in ' + 'KJI'[axis] + ' is not a multiple of fine extent'
         self.constant_ratios[axis] = extent_ratio
         self.vector_ratios[axis] = None
+        self.fine_to_coarse_mapping = None  # derived mapping no longer valid
 
     def set_ij_ratios_constant(self):
         """Set the refinement ratio for I & J axes based on the ratio of the fine to coarse extents."""
@@ -258,6 +259,7 @@ class FineCoarse:
         else:
             self.vector_ratios[axis] = vector.copy()
             self.constant_ratios[axis] = None
+            self.fine_to_coarse_mapping = None  # derived mapping no longer valid
 
     def set_equal_proportions(self, axis):
         """Set proportions equal for axis."""
-- 
2.43.0


From dfd3e76ee52fd132ec28704cfaec3d3bdb9138dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 003/270] fix: convert() treated units of dimension 'none' with
 different base units (eg. gAPI and B) as equivalent

---
 resqpy/weights_and_measures/weights_and_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/weights_and_measures/weights_and_measures.py b/resqpy/weights_and_measures/weights_and_measures.py
index 72eb16b..e6eaf8b 100644
--- a/resqpy/weights_and_measures/weights_and_measures.py
+++ b/resqpy/weights_and_measures/weights_and_measures.py
@@ -148,7 +148,7 @@ def convert(x, unit_from, unit_to, quantity = None, inplace = False):
     base2, dim2, (A2, B2, C2, D2) = get_conversion_factors(uom2)
 
     if base1 != base2:
-        if dim1 != dim2:
+        if dim1 != dim2 or dim1 == 'none':
             raise IncompatibleUnitsError(f"Cannot convert from '{unit_from}' to '{unit_to}':"
                                          f"\n - '{uom1}' has base unit '{base1} and dimension '{dim1}'."
                                          f"\n - '{uom2}' has base unit '{base2} and dimension '{dim2}'.")
-- 
2.43.0


From d5b8b009529023c740ada7ef639676e5f717c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 004/270] fix: switch_axes went wrong when one axis order is a
 reflection of easting northing and the other a quarter turn (matrices
 multiplied in the wrong order)

---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..322633a 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -537,13 +537,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From f02967bed97ae2123a4df59ae1e670efc8c25226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 005/270] fix: crs objects with equal rotation values in
 different units were reported as equivalent

---
 resqpy/crs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index 322633a..7fe838b 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -314,12 +314,16 @@ class Crs(BaseResqpy):
             return False
         if self.null_transform and other_crs.null_transform:
             return True
+        other_rotation = wam.convert(other_crs.rotation,
+                                     other_crs.rotation_units,
+                                     self.rotation_units,
+                                     quantity = 'plane angle')
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(self.rotation, other_rotation, abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: handle modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From ae50ac981f2ecefa7730404eef1694856879b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 006/270] fix: index_for_timestamp_closest_to returned 0 for
 any timestamp between the first two of the series

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 6a37fbb51ae691cfbcdc65ddf4c48e229bc7ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 007/270] fix: time series compared and sorted timestamps as
 strings, going wrong where fractional seconds, date only and full forms are
 mixed

---
 resqpy/time_series/_any_time_series.py |  5 +++++
 resqpy/time_series/_time_series.py     | 13 +++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/resqpy/time_series/_any_time_series.py b/resqpy/time_series/_any_time_series.py
index df1d2af..27cd4a0 100644
--- a/resqpy/time_series/_any_time_series.py
+++ b/resqpy/time_series/_any_time_series.py
@@ -4,6 +4,8 @@ import logging
 
 log = logging.getLogger(__name__)
 
+import datetime as dt
+
 import resqpy.time_series._functions as tsf
 import resqpy.olio.uuid as bu
 import resqpy.olio.xml_et as rqet
@@ -42,6 +44,9 @@ class AnyTimeSeries(BaseResqpy):
             else:
                 assert self.timeframe == 'human'
                 self.timestamps.append(dt_text)  # todo: trim and check timestamp
+        if self.timeframe == 'human':  # not sorted as strings because formats may differ
+            self.timestamps.sort(key = lambda t: dt.datetime.fromisoformat(t.rstrip('Z')))
+        else:
             self.timestamps.sort()
 
     def is_equivalent(self, other_ts):
diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index dacd61e..9e7e1bc 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -110,7 +110,7 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = len(self.timestamps) - 1
-        while (index >= 0) and (self.timestamps[index] > timestamp):
+        while (index >= 0) and (_datetime(self.timestamps[index]) > _datetime(timestamp)):
             index -= 1
         if index < 0:
             return None
@@ -123,7 +123,7 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = 0
-        while (index < len(self.timestamps)) and (self.timestamps[index] < timestamp):
+        while (index < len(self.timestamps)) and (_datetime(self.timestamps[index]) < _datetime(timestamp)):
             index += 1
         if index >= len(self.timestamps):
             return None
@@ -209,7 +209,7 @@ class TimeSeries(ats.AnyTimeSeries):
         else:
             last = self.last_timestamp()
             if last is not None:
-                assert (new_timestamp > self.last_timestamp())
+                assert _datetime(new_timestamp) > _datetime(last)
             self.timestamps.append(new_timestamp)
 
     def extend_by_duration(self, duration):
@@ -225,7 +225,12 @@ class TimeSeries(ats.AnyTimeSeries):
 
     def datetimes(self):
         """Returns the timestamps as a list of python-datetime objects."""
-        return [dt.datetime.fromisoformat(t.rstrip('Z')) for t in self.timestamps]
+        return [_datetime(t) for t in self.timestamps]
+
+
+def _datetime(timestamp):
+    """Returns python datetime for timestamp (string comparison is not reliable when formats differ)."""
+    return dt.datetime.fromisoformat(timestamp.rstrip('Z'))
 
 
 def check_timestamp(timestamp):
-- 
2.43.0


From 84833b4f5793a43b45ceac9c53eed9ce5fff6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 008/270] fix: simplified_timestamp and cleaned_timestamp
 failed for any geologic (integer) timestamp

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..182dbff 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From 9924fb958815cb51e948d9ee332ec7a29146c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 009/270] fix: merging geologic time series failed for lack of
 a datetimes method

---
 resqpy/time_series/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 182dbff..ca91523 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -109,7 +109,7 @@ def merge_timeseries_from_uuid(model, timeseries_uuid_iter):
 
         timeserieslist.append(singlets)
         # alltimestamps.update( set(singlets.timestamps) )
-        alltimestamps.update(set(singlets.datetimes()))
+        alltimestamps.update(set(singlets.datetimes() if timeframe == 'human' else singlets.timestamps))
 
     sortedtimestamps = sorted(list(alltimestamps), reverse = reverse)
 
-- 
2.43.0


From 73b29971c1a433aa82a1889352ed58e88e80a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 010/270] fix: reuse of an equivalent object was abandoned when
 any earlier object of the type could not be loaded as this class (eg. human
 and geologic time series)

---
 resqpy/olio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/base.py b/resqpy/olio/base.py
index bc9c26a..9dc4806 100644
--- a/resqpy/olio/base.py
+++ b/resqpy/olio/base.py
@@ -111,7 +111,7 @@ class BaseResqpy(metaclass = ABCMeta):
             try:
                 other = self.__class__(self.model, uuid = other_uuid)
             except Exception:
-                return False
+                continue
             if self == other:
                 logger.debug(f'reusing equivalent resqml object with uuid {other_uuid}')
                 self.uuid = other_uuid  # NB: change of uuid for this object
-- 
2.43.0


From 1792fa1e0260d638ae7c6156884239de44312c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 011/270] fix: rotation_matrix_3d_vector (and its compiled
 form) gave NaNs for a vector pointing straight down the z axis and lost
 accuracy near it

---
 resqpy/olio/vector_utilities.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 1548e83..a515738 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -450,7 +450,14 @@ def rotation_matrix_3d_vector(v):
     """
     v = v / np.linalg.norm(v)
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
-    rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
+    if v[2] < 0.0:  # avoid dividing by a value which is or nearly is zero
+        h2 = v[0] * v[0] + v[1] * v[1]
+        if h2 == 0.0:
+            return np.array([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])
+        factor = (1 - v[2]) / h2
+    else:
+        factor = 1 / (1 + v[2])
+    rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * factor
 
     rotation_matrix[:2] = -rotation_matrix[:2]
     return rotation_matrix
@@ -465,7 +472,14 @@ def rotation_matrix_3d_vector_njit(v):  # pragma: no cover
     """
     v = v / np.linalg.norm(v)
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
-    rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
+    if v[2] < 0.0:  # avoid dividing by a value which is or nearly is zero
+        h2 = v[0] * v[0] + v[1] * v[1]
+        if h2 == 0.0:
+            return np.array([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])
+        factor = (1 - v[2]) / h2
+    else:
+        factor = 1 / (1 + v[2])
+    rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * factor
 
     rotation_matrix[:2] = -rotation_matrix[:2]
     return rotation_matrix
-- 
2.43.0


From 6054821f1939e19bdad51e9850f25d16f760a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 012/270] fix: unit_vectors() zeroed (or failed on) other
 vectors when an array of three or more dimensions held a zero vector

---
 resqpy/olio/vector_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index a515738..bed591f 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -97,7 +97,7 @@ def unit_vectors(v):
     """Returns vectors with same direction as those in v but with unit length."""
     scaling = np.sqrt(np.sum(v * v, axis = -1))
     zero_mask = np.zeros(v.shape, dtype = bool)
-    zero_mask[np.where(scaling == 0.0), :] = True
+    zero_mask[scaling == 0.0] = True
     restore = np.seterr(all = 'ignore')
     result = np.where(zero_mask, 0.0, v / np.expand_dims(scaling, -1))
     np.seterr(**restore)
-- 
2.43.0


From d61928bb1abf58b36b712036e763db210644e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 013/270] fix: area_of_triangle() raised a math domain error
 and area_of_triangles() gave NaN for some degenerate (collinear) triangles

---
 resqpy/olio/vector_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index bed591f..31785a7 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -1469,7 +1469,7 @@ def area_of_triangle(a, b, c):
     lb = naive_length(b - c)
     lc = naive_length(c - a)
     s = 0.5 * (la + lb + lc)
-    return maths.sqrt(s * (s - la) * (s - lb) * (s - lc))
+    return maths.sqrt(max(0.0, s * (s - la) * (s - lb) * (s - lc)))
 
 
 def area_of_triangles(p, t, xy_projection = False):
@@ -1486,7 +1486,7 @@ def area_of_triangles(p, t, xy_projection = False):
         lb = naive_lengths(pt[:, 1, :] - pt[:, 2, :])
         lc = naive_lengths(pt[:, 2, :] - pt[:, 0, :])
     s = 0.5 * (la + lb + lc)
-    return np.sqrt(s * (s - la) * (s - lb) * (s - lc))
+    return np.sqrt(np.maximum(s * (s - la) * (s - lb) * (s - lc), 0.0))
 
 
 def clockwise_sorted_indices(p, b):
-- 
2.43.0


From 90579dc547454e97ea87fe7ae1ef1b8e04e1ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 014/270] fix: point_inclusion.scan() gave wrong pixels when
 the polygon extends beyond the left of the pixel area

---
 resqpy/olio/point_inclusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/point_inclusion.py b/resqpy/olio/point_inclusion.py
index 11535de..c6baff8 100644
--- a/resqpy/olio/point_inclusion.py
+++ b/resqpy/olio/point_inclusion.py
@@ -175,8 +175,9 @@ def scan(origin, ncol, nrow, dx, dy, poly):
             sx, ex = ix[1], ix[0]
         else:
             sx, ex = ix[0], ix[1]
-        scol = maths.ceil((sx - origin[0]) / dx)
-        ecol = int((ex - origin[0]) / dx)
-        inside[row, scol:ecol + 1] = True
+        scol = max(maths.ceil((sx - origin[0]) / dx), 0)
+        ecol = maths.floor((ex - origin[0]) / dx)
+        if ecol >= scol:
+            inside[row, scol:ecol + 1] = True
 
     return inside
-- 
2.43.0


From 2cc0f2c66f441ffddfa07f0d390b95e16c914694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 015/270] fix: points_in_triangles_aligned() rounded the point
 spacing to single precision, giving wrong answers near triangle edges for
 spacings such as 0.3

---
 resqpy/olio/vector_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 31785a7..4d60234 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -921,7 +921,7 @@ def points_in_triangles_aligned(nx: int, ny: int, dx: float, dy: float, triangle
             with each row being the triangle number, points y index, and points x index.
     """
     triangles_points = np.empty((0, 3), dtype = np.int32)
-    dx_dy = np.expand_dims(np.array([dx, dy], dtype = np.float32), axis = 0)
+    dx_dy = np.expand_dims(np.array([dx, dy], dtype = np.float64), axis = 0)
     # for triangle_num in numba.prange(len(triangles)):
     for triangle_num in range(len(triangles)):
         tp = (triangles[triangle_num] / dx_dy) - 0.5
-- 
2.43.0


From 818c39f9108e5e105b5fd36bedeb12a79d0654ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 016/270] fix: reorient() without linalg could return a normal
 in the -ve z hemisphere, contrary to its documentation

---
 resqpy/olio/triangulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/olio/triangulation.py b/resqpy/olio/triangulation.py
index df7b2b7..a2cf9bb 100644
--- a/resqpy/olio/triangulation.py
+++ b/resqpy/olio/triangulation.py
@@ -816,6 +816,9 @@ def reorient(points, rough = True, max_dip = None, use_linalg = True, sample = 5
         rotation_m = vec.rotation_3d_matrix((best_x_rotation, 0.0, best_y_rotation))
 
         normal_vector = vec.rotate_vector(rotation_m.T, np.array((0.0, 0.0, 1.0)))
+        if normal_vector[2] < 0.0:  # turn over, so that normal vector is in +ve z hemisphere
+            rotation_m[1:] = -rotation_m[1:]
+            normal_vector = -normal_vector
 
     if max_dip is not None:
         v = vec.rotate_vector(rotation_m.T, np.array((0.0, 0.0, 1.0)))
-- 
2.43.0


From 0fc6c81dd04c2d4799313d64ff202c07d4b119a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 017/270] fix: storing a model opened with full_load=False
 wrote an epc file without the parts that had not been touched

---
 resqpy/model/_forestry.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..2bb0599 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -333,6 +333,22 @@ def _load_relationships(epc, model, epc_subdir, names):
                 _fell_part(model, name)
 
 
+def _load_outstanding_trees(model):
+    """Loads any xml trees which have not yet been loaded from the model's existing epc file."""
+
+    if not model.epc_file or not os.path.exists(model.epc_file):
+        return
+    part_names = [name for name, (_, _, tree) in model.parts_forest.items() if tree is None]
+    part_names += [name for name, (_, tree) in model.other_forest.items() if tree is None]
+    if model.rels_present:
+        part_names += [name for name, (_, tree) in model.rels_forest.items() if tree is None]
+    if not part_names:
+        return
+    with zf.ZipFile(model.epc_file) as epc:
+        for part_name in part_names:
+            _load_part(model, epc, part_name)
+
+
 def _store_epc(model, epc_file = None, main_xml_name = '[Content_Types].xml', only_if_modified = False, quiet = False):
     """Write xml parts of model to epc file (HDF5 arrays are not written here)."""
 
@@ -353,6 +369,8 @@ def _store_epc(model, epc_file = None, main_xml_name = '[Content_Types].xml', on
     if model.main_root is None:
         model.main_root = model.main_tree.getroot()
 
+    _load_outstanding_trees(model)  # needed in case the model was opened without a full load
+
     with zf.ZipFile(epc_file, mode = 'w') as epc:
         with epc.open(main_xml_name, mode = 'w') as main_xml:
             rqet.write_xml(main_xml, model.main_tree, standalone = 'yes')
-- 
2.43.0


From 9fb2965218206607ec25d50c512d2b780c089eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 018/270] fix: relationship maps: soft relations lost for parts
 without other relations, hard relations also listed as soft, removal of an
 unrelated part raised KeyError

---
 resqpy/model/_forestry.py | 19 ++++++++++++-------
 resqpy/model/_xml.py      |  8 ++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 2bb0599..474e3be 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -206,17 +206,18 @@ def _add_uuid_soft_relations(model, uuid_int, part):
         if rels_root is not None:
             for relation_node in rels_root:
                 if rqet.stripped_of_prefix(relation_node.tag) != 'Relationship':
-                    return
+                    continue
                 if 'Target' not in relation_node.attrib.keys():
-                    return
+                    continue
                 relation_part_name = relation_node.attrib['Target']
                 relation_uuid_str = rqet.uuid_in_part_name(relation_part_name, return_uuid_str = True)
                 if relation_uuid_str is None:
-                    return  # probably HDF5 external resource
+                    continue  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                if relation_uuid_int not in model.uuid_part_dict:
+                    continue
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
@@ -235,6 +236,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -242,6 +244,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
@@ -517,7 +520,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # part has no relations
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 825c7cb1a75298d90916d860289f81593b0374fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 019/270] fix: Model.h5_clear_filename_cache() raised
 AttributeError

---
 resqpy/model/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 82e2ce0..30f0175 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -294,7 +294,7 @@ def _h5_overwrite_array(model, h5_key_pair, array):
     dset[...] = array
 
 
-def h5_clear_filename_cache(model):
+def _h5_clear_filename_cache(model):
     """Clears the cached filenames associated with all ext uuids."""
 
     _h5_release(model)
-- 
2.43.0


From d7588d92c687eb4caa77334446c91155920c3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 020/270] fix: opening with copy_from and full_load=False left
 the copy pointing at the hdf5 file of the original, and hdf5 file names could
 not be looked up from relationships

---
 resqpy/model/_forestry.py | 4 ++--
 resqpy/model/_hdf5.py     | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 474e3be..f453a71 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -182,10 +182,10 @@ def _load_epc(model, epc_file, full_load = True, epc_subdir = None, copy_from =
                 _complete_forest_entry_for_part(epc, model, epc_subdir, full_load, child)
         if model.rels_present and full_load:
             _load_relationships(epc, model, epc_subdir, names)
-            if copy_from:
-                model.change_filename_in_hdf5_rels(os.path.split(epc_file)[1][:-4] + '.h5')
         elif not model.rels_present:
             assert len(model.rels_forest) == 0
+        if model.rels_present and copy_from:
+            model.change_filename_in_hdf5_rels(os.path.split(epc_file)[1][:-4] + '.h5')
         if full_load:
             _tidy_up_forests(model)
 
diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 30f0175..c6354e7 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -8,6 +8,7 @@ import os
 import h5py
 import numpy as np
 
+import resqpy.model._catalogue as m_c
 import resqpy.olio.uuid as bu
 import resqpy.olio.xml_et as rqet
 from resqpy.olio.xml_namespaces import curly_namespace as ns
@@ -123,7 +124,7 @@ def _h5_target_path_from_rels(model, uuid, override_dir):
         log.debug(f'considering rels: {rel_name}')
         if uuid is None or bu.matching_uuids(uuid, entry[0]):
             log.debug(f'found hdf5 rels part: {rel_name}')
-            rel_root = entry[1].getroot()
+            rel_root = m_c._root_for_part(model, rel_name, is_rels = True)
             for child in rel_root:
                 if child.attrib['Id'] == 'Hdf5File' and child.attrib['TargetMode'] == 'External':
                     target_path = child.attrib['Target']
@@ -352,8 +353,10 @@ def _change_filename_in_hdf5_rels(model, new_hdf5_filename = None):
     if not new_hdf5_filename and model.epc_file and model.epc_file.endswith('.epc'):
         new_hdf5_filename = os.path.split(model.epc_file)[1][:-4] + '.h5'
     count = 0
-    for rel_name, entry in model.rels_forest.items():
-        rel_root = entry[1].getroot()
+    for rel_name in list(model.rels_forest.keys()):
+        rel_root = m_c._root_for_part(model, rel_name, is_rels = True)
+        if rel_root is None:
+            continue
         for child in rel_root:
             if child.attrib['Id'] == 'Hdf5File' and child.attrib['TargetMode'] == 'External':
                 child.attrib['Target'] = new_hdf5_filename
-- 
2.43.0


From 540848e5d8978c350a2cbc1294b97ce3cc3f3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 021/270] fix: remove_part() left relationships to the removed
 part in the hdf5 external part, skipped some duplicates and failed where a
 related copy had no relationships part

---
 resqpy/model/_forestry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index f453a71..3fd7f4e 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -498,16 +498,17 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
-            for relative in related_parts:
-                (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
-                rel_root = rel_tree.getroot()
-                for child in rel_root:
+            for relative in related_parts + m_c._external_parts_list(model):
+                rel_root = m_c._root_for_part(model, rqet.rels_part_name_for_part(relative), is_rels = True)
+                if rel_root is None:  # relative has no relationships part
+                    continue
+                for child in list(rel_root):
                     if rqet.stripped_of_prefix(child.tag) != 'Relationship':
                         continue
                     if child.attrib['Target'] == part_name:
                         rel_root.remove(child)
             rels_part_name = rqet.rels_part_name_for_part(part_name)
-        model.rels_forest.pop(rels_part_name)
+        model.rels_forest.pop(rels_part_name, None)
     _del_uuid_to_part(model, part_name)
     _del_uuid_relations(model, part_name)
     model.parts_forest.pop(part_name)
-- 
2.43.0


From 54f237683aefdb97a37070f10eccd492fea654f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 022/270] fix: selecting by epc subdirectory raised TypeError,
 an empty input list was taken as all parts, and sorting by type did not group
 parts of one type

---
 resqpy/model/_catalogue.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..f210983 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
@@ -798,7 +798,7 @@ def _filtered_by_extra(model, parts_list, extra):
 
 def _sorted_parts_list(model, parts_list, sort_by):
     if sort_by == 'type':
-        sorted_list = sorted(parts_list)
+        sorted_list = sorted(parts_list, key = lambda part: (str(_type_of_part(model, part)), part))
     elif sort_by in ['newest', 'oldest']:
         sorted_list = _sort_parts_list_by_timestamp(model, parts_list)
         if sort_by == 'oldest':
-- 
2.43.0


From 63aad8f0615afa8427942ddd8c85416cce32c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 023/270] fix: copying with consolidation raised AssertionError
 when a geologic time series was present

---
 resqpy/olio/consolidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..eb65890 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -90,7 +90,7 @@ class Consolidation:
         elif obj_type.endswith('Crs'):
             immigrant_obj = rqc.Crs(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'TimeSeries':
-            immigrant_obj = rqt.TimeSeries(immigrant_model, uuid = immigrant_uuid)
+            immigrant_obj = rqt.any_time_series(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'StringTableLookup':
             immigrant_obj = rqp.StringLookup(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'PropertyKind':
@@ -108,7 +108,7 @@ class Consolidation:
             elif obj_type.endswith('Crs'):
                 resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
             elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
+                resident_obj = rqt.any_time_series(self.model, uuid = resident_uuid)
             elif obj_type == 'StringTableLookup':
                 resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
             elif obj_type == 'PropertyKind':
-- 
2.43.0


From 1345ffb7912ab5c35f0ecb6288aa6fff54eb542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 024/270] fix: copying with consolidation left a dangling
 reference where a part refers twice to the same consolidated part

---
 resqpy/model/_forestry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 3fd7f4e..d8eb0e8 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -716,11 +716,11 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
                 for ref_node in ref_nodes:
                     uuid_node = rqet.find_tag(ref_node, 'UUID')
                     uuid_int = bu.uuid_from_string(uuid_node.text).int
-                    reference_node_dict[uuid_int] = uuid_node
-            uuid_node = reference_node_dict[ref_uuid_int]
-            uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
-            reference_node_dict.pop(ref_uuid_int)
-            reference_node_dict[resident_uuid_int] = uuid_node
+                    reference_node_dict.setdefault(uuid_int, []).append(uuid_node)
+            uuid_nodes = reference_node_dict.pop(ref_uuid_int)  # same object may be referenced more than once
+            for uuid_node in uuid_nodes:
+                uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
+            reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-- 
2.43.0


From 0e44a2e5b28a3918706c6ceb158870bfbbfced55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 025/270] fix: gather_ensemble() failed with shared grids of
 equal extent, where time series of the first case had been consolidated with
 each other, and on unmatched time series without consolidation

---
 resqpy/derived_model/_gather_ensemble.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 0910a1f..b8a3bee 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -42,6 +42,7 @@ def gather_ensemble(case_epc_list,
 
     if not consolidate:
         shared_grids = False
+        shared_time_series = False
 
     composite_model = rq.Model(new_epc_file, new_epc = True, create_basics = True, create_hdf5_ext = True)
 
@@ -55,9 +56,13 @@ def gather_ensemble(case_epc_list,
         if r == 0:  # first case
             composite_model.copy_all_parts_from_other_model(case_model, realization = 0, consolidate = consolidate)
             if shared_time_series:
-                host_ts_uuids = case_model.uuids(obj_type = 'TimeSeries')
+                host_ts_uuids = []
                 host_ts_titles = []
-                for ts_uuid in host_ts_uuids:
+                for ts_uuid in case_model.uuids(obj_type = 'TimeSeries'):
+                    # note: time series within the first case might have been consolidated with each other
+                    host_ts_uuids.append(
+                        composite_model.consolidation.equivalent_uuid_for_part(
+                            case_model.part_for_uuid(ts_uuid), immigrant_model = case_model))
                     host_ts_titles.append(case_model.title(uuid = ts_uuid))
             if shared_grids:
                 host_grid_uuids = case_model.uuids(obj_type = 'IjkGridRepresentation')
@@ -89,7 +94,7 @@ def gather_ensemble(case_epc_list,
                     if grid_extent in host_grid_shapes:
                         if title_match_required:
                             case_grid_title = rqet.citation_title_for_node(grid_root)
-                            for host_grid_index in len(host_grid_uuids):
+                            for host_grid_index in range(len(host_grid_uuids)):
                                 if grid_extent == host_grid_shapes[
                                         host_grid_index] and case_grid_title == host_grid_titles[host_grid_index]:
                                     host_index = host_grid_index
-- 
2.43.0


From 14cf6f447a0693148c6351d74610f07d2a70bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 026/270] fix: arrays could not be written with a default
 compression of none, nor empty arrays with chunking

---
 resqpy/olio/write_hdf5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 50005b2..c5f749d 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -121,10 +121,13 @@ class H5Register():
                 chunks = a.shape
         if compression is None:
             compression = self.default_compression
-        elif compression == 'none':
+        if compression == 'none':
             compression = None
         if compression is not None and chunks is None:
             chunks = True
+        if a.size == 0:  # hdf5 does not support chunked storage with a zero extent chunk
+            chunks = None
+            compression = None
         if group_tail[0] == '/':
             group_tail = group_tail[1:]
         if group_tail[-1] == '/':
-- 
2.43.0


From de77203475e0fbde1cda0a9d987ffb4b86031961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 027/270] fix: an equivalent interpretation already in the
 model was never found for reuse, because equivalence compared the xml root of
 an object not yet written

---
 resqpy/organize/earth_model_interpretation.py      | 5 +----
 resqpy/organize/geobody_boundary_interpretation.py | 5 +----
 resqpy/organize/geobody_interpretation.py          | 5 +----
 resqpy/organize/wellbore_interpretation.py         | 7 +------
 resqpy/strata/_geologic_unit_interpretation.py     | 5 +----
 5 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/resqpy/organize/earth_model_interpretation.py b/resqpy/organize/earth_model_interpretation.py
index a6b8a4f..3732fbf 100644
--- a/resqpy/organize/earth_model_interpretation.py
+++ b/resqpy/organize/earth_model_interpretation.py
@@ -65,10 +65,7 @@ class EarthModelInterpretation(BaseResqpy):
                 return False
         elif other.organization_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_boundary_interpretation.py b/resqpy/organize/geobody_boundary_interpretation.py
index 256b224..89f6aac 100644
--- a/resqpy/organize/geobody_boundary_interpretation.py
+++ b/resqpy/organize/geobody_boundary_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyBoundaryInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during)):
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..f8d9ac5 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyInterpretation(BaseResqpy):
                 return False
         elif other.geobody_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..2d27d5c 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -87,12 +87,7 @@ class WellboreInterpretation(BaseResqpy):
                 return False
         elif other.wellbore_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-            if self.domain != other.domain:
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.domain != other.domain:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1eade6d..c9b8773 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -119,10 +119,7 @@ class GeologicUnitInterpretation(BaseResqpy):
                 return False
         elif other.geologic_unit_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not rqo.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From e1cafb9d672524f546c6da94d9f56901af8766f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 028/270] fix: a string lookup table compared the string
 instead of the key with its key limits when setting a string, and lost the
 positions of missing keys in its list after being reloaded

---
 resqpy/property/string_lookup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..52971dc 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -66,6 +66,8 @@ class StringLookup(BaseResqpy):
                 self.min_index = key
             if self.max_index is None or key > self.max_index:
                 self.max_index = key
+        if self.str_dict:
+            self.set_list_from_dict_conditionally()
 
     def load_from_dict(self, int_to_str_dict):
         """Sets the contents of this string lookup based on a dict mapping int to str."""
@@ -114,11 +116,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
-- 
2.43.0


From 58dbf20f7333e15b5fc3565bbc20096552e3f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 029/270] fix: a fault interpretation stored its mean azimuth
 as its mean dip, a geobody interpretation lost its domain on reload and
 generic interpretations could not be compared

---
 resqpy/organize/fault_interpretation.py   | 2 +-
 resqpy/organize/generic_interpretation.py | 2 +-
 resqpy/organize/geobody_interpretation.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index f8d9ac5..12c67a3 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 8e669c8c4b69241f0799052fa57964b0b91ae957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 030/270] fix: a rock fluid unit's fluid boundary features and
 a geologic unit interpretation's stratigraphic unit feature were reloaded as
 objects of another class

---
 resqpy/organize/rock_fluid_unit_feature.py        | 15 +++++++++++----
 resqpy/strata/_geologic_unit_interpretation.py    |  7 +++++--
 .../strata/_stratigraphic_unit_interpretation.py  |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/resqpy/organize/rock_fluid_unit_feature.py b/resqpy/organize/rock_fluid_unit_feature.py
index 3344102..61d3067 100644
--- a/resqpy/organize/rock_fluid_unit_feature.py
+++ b/resqpy/organize/rock_fluid_unit_feature.py
@@ -4,6 +4,7 @@ import resqpy.olio.uuid as bu
 import resqpy.olio.xml_et as rqet
 import resqpy.organize
 import resqpy.organize.boundary_feature as obf
+import resqpy.organize.fluid_boundary_feature as ofb
 import resqpy.organize._utils as ou
 from resqpy.olio.base import BaseResqpy
 from resqpy.olio.xml_namespaces import curly_namespace as ns
@@ -69,14 +70,20 @@ class RockFluidUnitFeature(BaseResqpy):
         feature_root = self.model.referenced_node(feature_ref_node)
         feature_uuid = rqet.uuid_for_part_root(feature_root)
         assert feature_uuid is not None, 'rock fluid top boundary feature missing from model'
-        self.top_boundary_feature = obf.BoundaryFeature(self.model, uuid = feature_uuid)
+        self.top_boundary_feature = self._boundary_feature(feature_uuid)
 
         feature_ref_node = rqet.find_tag(self.root, 'FluidBoundaryBottom')
         assert feature_ref_node is not None
         feature_root = self.model.referenced_node(feature_ref_node)
         feature_uuid = rqet.uuid_for_part_root(feature_root)
         assert feature_uuid is not None, 'rock fluid bottom boundary feature missing from model'
-        self.base_boundary_feature = obf.BoundaryFeature(self.model, uuid = feature_uuid)
+        self.base_boundary_feature = self._boundary_feature(feature_uuid)
+
+    def _boundary_feature(self, feature_uuid):
+        # returns boundary feature, or fluid boundary feature, for the given uuid
+        if self.model.type_of_uuid(feature_uuid, strip_obj = True) == 'FluidBoundaryFeature':
+            return ofb.FluidBoundaryFeature(self.model, uuid = feature_uuid)
+        return obf.BoundaryFeature(self.model, uuid = feature_uuid)
 
     def create_xml(self, add_as_part = True, add_relationships = True, originator = None, reuse = True):
         """Creates a rock fluid unit feature organisational xml node from this rock fluid unit feature object."""
@@ -99,7 +106,7 @@ class RockFluidUnitFeature(BaseResqpy):
         self.model.create_ref_node('FluidBoundaryTop',
                                    self.model.title_for_root(top_boundary_root),
                                    top_boundary_root.attrib['uuid'],
-                                   content_type = 'obj_BoundaryFeature',
+                                   content_type = 'obj_' + self.top_boundary_feature.resqml_type,
                                    root = rfuf)
 
         base_boundary_root = self.base_boundary_feature.root
@@ -107,7 +114,7 @@ class RockFluidUnitFeature(BaseResqpy):
         self.model.create_ref_node('FluidBoundaryBottom',
                                    self.model.title_for_root(base_boundary_root),
                                    base_boundary_root.attrib['uuid'],
-                                   content_type = 'obj_BoundaryFeature',
+                                   content_type = 'obj_' + self.base_boundary_feature.resqml_type,
                                    root = rfuf)
 
         if add_as_part:
diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index c9b8773..1766355 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -90,8 +90,11 @@ class GeologicUnitInterpretation(BaseResqpy):
         if self.resqml_type == 'GeologicUnitInterpretation':
             feature_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(root_node, ['InterpretedFeature', 'UUID']))
             if feature_uuid is not None:
-                self.geologic_unit_feature = rqo.GeologicUnitFeature(
-                    self.model, uuid = feature_uuid, feature_name = self.model.title(uuid = feature_uuid))
+                if self.model.type_of_uuid(feature_uuid, strip_obj = True) == 'StratigraphicUnitFeature':
+                    self.geologic_unit_feature = resqpy.strata.StratigraphicUnitFeature(self.model, uuid = feature_uuid)
+                else:
+                    self.geologic_unit_feature = rqo.GeologicUnitFeature(
+                        self.model, uuid = feature_uuid, feature_name = self.model.title(uuid = feature_uuid))
         self.has_occurred_during = rqo.extract_has_occurred_during(root_node)
         self.composition = rqet.find_tag_text(root_node, 'GeologicUnitComposition')
         self.material_implacement = rqet.find_tag_text(root_node, 'GeologicUnitMaterialImplacement')
diff --git a/resqpy/strata/_stratigraphic_unit_interpretation.py b/resqpy/strata/_stratigraphic_unit_interpretation.py
index c6fa901..9dc0dd1 100644
--- a/resqpy/strata/_stratigraphic_unit_interpretation.py
+++ b/resqpy/strata/_stratigraphic_unit_interpretation.py
@@ -137,7 +137,7 @@ class StratigraphicUnitInterpretation(rqsgui.GeologicUnitInterpretation):
         returns:
            bool: True if this interpretation is essentially the same as the other; False otherwise
         """
-        if not super().is_equivalent(other):
+        if not super().is_equivalent(other, check_extra_metadata = check_extra_metadata):
             return False
         if self.deposition_mode is not None and other.deposition_mode is not None:
             return self.deposition_mode == other.deposition_mode
-- 
2.43.0


From c50b789198631692f463bb75e2480e12f8cf0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 031/270] fix: a geologic or stratigraphic unit interpretation
 of a stratigraphic unit feature could not be created without a title

---
 resqpy/strata/_geologic_unit_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1766355..d5cfbf0 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -69,7 +69,7 @@ class GeologicUnitInterpretation(BaseResqpy):
         self.geologic_unit_feature = geologic_unit_feature  # InterpretedFeature RESQML field
         self.has_occurred_during = (None, None)  # optional RESQML item
         if (not title) and geologic_unit_feature is not None:
-            title = geologic_unit_feature.feature_name
+            title = geologic_unit_feature.title
         self.composition = composition  # optional RESQML item
         self.material_implacement = material_implacement  # optional RESQML item
         super().__init__(model = parent_model, uuid = uuid, title = title, extra_metadata = extra_metadata)
-- 
2.43.0


From be1cb67d493eaabf29bccbe95527b68d2e2e7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 032/270] fix: masked access to a property array did not mask
 null values of zero or NaN, nor the inactive elements of a points property

---
 resqpy/property/property_collection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..f019448 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,8 +1697,11 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            if isinstance(exclude_value, float) and np.isnan(exclude_value):
+                null_mask = np.isnan(simple_array)
+            else:
+                null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
@@ -1719,7 +1722,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = self.support.inactive[..., np.newaxis]
         return mask
 
     def h5_key_pair_for_part(self, part):
@@ -1788,7 +1791,9 @@ class PropertyCollection():
 
         if masked:
             exclude_value = self.null_value_for_part(part) if exclude_null else None
-            return self.masked_array(self.__dict__[cached_array_name], exclude_value = exclude_value)
+            return self.masked_array(self.__dict__[cached_array_name],
+                                     exclude_value = exclude_value,
+                                     points = self.points_for_part(part))
         else:
             return self.__dict__[cached_array_name]
 
-- 
2.43.0


From e58d229add12858d3f4aec64180117586182cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 033/270] fix: writing an imported list with use_pack also
 packed, and so corrupted, the arrays following the first boolean one

---
 resqpy/property/property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index f019448..3e78ae2 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2480,8 +2480,9 @@ class PropertyCollection():
             tail = 'points_patch0' if entry[18] else 'values_patch0'
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = 'pack')
+            else:
+                h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 178844996672db959a56d2b510c5694417e790d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 034/270] fix: constant and packed arrays with several values
 per element, and expanded constant arrays of directional faces, were given
 the wrong shape

---
 resqpy/property/_collection_create_xml.py     |  4 ++--
 resqpy/property/_collection_get_attributes.py | 15 +++++++++++----
 resqpy/property/property_collection.py        |  9 ++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..d2481c9 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -85,13 +85,13 @@ def _create_xml_property_kind(collection, p_node, find_local_property_kinds, pro
 
 
 def _create_xml_patch_node(collection, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                           expand_const_arrays, hdf5_type, xsd_type, null_value):
+                           expand_const_arrays, hdf5_type, xsd_type, null_value, count):
     # create patch node
     const_count = None
     if const_value is not None and not expand_const_arrays:
         s_shape = collection.supporting_shape(indexable_element = indexable_element, direction = direction)
         assert s_shape is not None
-        const_count = np.prod(np.array(s_shape, dtype = int))
+        const_count = np.prod(np.array(s_shape, dtype = int)) * count
     else:
         const_value = None
     _ = collection.model.create_patch(p_uuid,
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..8c4567f 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -611,8 +611,7 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
     required_shape = None
     str_dtype = str(dtype)
     if use_pack and ('bool' in str_dtype or 'uint8' in str_dtype):
-        required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
-                                                     direction = _part_direction(collection, part))
+        required_shape = _shape_with_count(collection, part)
 
     h5_key_pair = model.h5_uuid_and_path_for_node(first_values_node, tag = tag)
     if h5_key_pair is None:
@@ -629,13 +628,21 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
 def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_array_name):
     assert not collection.points_for_part(part), 'constant arrays not supported for points properties'
     assert collection.support is not None
-    shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
-                                        direction = _part_direction(collection, part))
+    shape = _shape_with_count(collection, part)
     assert shape is not None
     a = np.full(shape, const_value, dtype = float if collection.continuous_for_part(part) else int)
     setattr(collection, cached_array_name, a)
 
 
+def _shape_with_count(collection, part):
+    shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
+                                        direction = _part_direction(collection, part))
+    count = collection.count_for_part(part)
+    if shape is not None and count > 1:
+        shape = list(shape) + [count]
+    return shape
+
+
 def _normalized_part_array_get_minmax(collection, trust_min_max, part, p_array, masked):
     min_value = max_value = None
     if trust_min_max:
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 3e78ae2..a93f6e5 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2470,8 +2470,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = rqp_c._cache_name_for_uuid(uuid)
                 assert self.support is not None
-                #  note: will not handle direction dependent shapes or points
-                shape = self.supporting_shape(indexable_element = entry[14])
+                #  note: will not handle points
+                shape = self.supporting_shape(indexable_element = entry[14],
+                                              direction = entry[12] if entry[11] == 'direction' else None)
+                if entry[15] > 1:
+                    shape.append(entry[15])
                 value = float(entry[17]) if isinstance(entry[17], str) else entry[17]
                 self.__dict__[cached_name] = np.full(shape, value, dtype = dtype)
             else:
@@ -2717,7 +2720,7 @@ class PropertyCollection():
         property_kind_uuid = pcxml._create_xml_property_kind(self, p_node, find_local_property_kinds, property_kind,
                                                              uom, discrete, property_kind_uuid)
         pcxml._create_xml_patch_node(self, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                                     expand_const_arrays, hdf5_type, xsd_type, null_value)
+                                     expand_const_arrays, hdf5_type, xsd_type, null_value, count)
         pcxml._create_xml_facet_node(facet_type, facet, p_node)
 
         pcxml._create_xml_property_min_max(self, property_array, const_value, discrete, add_min_max, p_node, min_value,
-- 
2.43.0


From b7db103fa1d3219d1c6f33ce6450ba2ca7c4fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 035/270] fix: the null value was stored as minimum and maximum
 of a discrete property whose values are all null

---
 resqpy/property/_collection_get_attributes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 8c4567f..b1ed395 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -83,7 +83,7 @@ def _get_property_type_details(discrete, string_lookup_uuid, points, null_value)
 def _get_property_array_min_max_value(collection, property_array, const_value, discrete, min_value, max_value,
                                       categorical, null_value):
     if const_value is not None:
-        return _get_property_array_min_max_const(const_value, collection.null_value, min_value, max_value, discrete)
+        return _get_property_array_min_max_const(const_value, null_value, min_value, max_value, discrete)
     elif property_array is not None:
         return _get_property_array_min_max_array(property_array, min_value, max_value, discrete, categorical,
                                                  null_value)
@@ -105,14 +105,17 @@ def _get_property_array_min_max_array(property_array, min_value, max_value, disc
             min_value, max_value = _get_property_array_min_max_array_categorical(property_array, min_value, max_value,
                                                                                  null_value)
         else:
-            min_value, max_value = _get_property_array_min_max_array_discrete(property_array, min_value, max_value)
+            min_value, max_value = _get_property_array_min_max_array_discrete(property_array, min_value, max_value,
+                                                                              null_value)
     else:
         min_value, max_value = _get_property_array_min_max_array_continuous(property_array, min_value, max_value)
 
     return min_value, max_value
 
 
-def _get_property_array_min_max_array_discrete(property_array, min_value, max_value):
+def _get_property_array_min_max_array_discrete(property_array, min_value, max_value, null_value):
+    if null_value is not None:
+        property_array = property_array[property_array != null_value]
     if min_value is None:
         try:
             min_value = int(property_array.min())
-- 
2.43.0


From e96350098b43e523b1397d340e41f13600001754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 036/270] fix: the shape and type of a points property part
 could not be found without reading its array

---
 resqpy/property/property_collection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index a93f6e5..328160c 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1868,10 +1868,9 @@ class PropertyCollection():
         if self.constant_value_for_part(part) is not None:
             assert not self.points_for_part(part), 'constant array not supported for points property'
             assert self.support is not None
-            shape = self.supporting_shape(indexable_element = self.indexable_for_part(part),
-                                          direction = pcga._part_direction(self, part))
+            shape = pcga._shape_with_count(self, part)
             assert shape is not None
-            return shape, (float if self.continuous_for_part(part) else int)
+            return tuple(shape), (float if self.continuous_for_part(part) else int)
 
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
         if h5_key_pair is None:
@@ -1880,9 +1879,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From ec9bc820bf8114a97a84f6b137bca490f6537775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 037/270] fix: the uom criterion was accepted but ignored when
 selecting properties

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..82d9043 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -18,7 +18,7 @@ import resqpy.property._collection_get_attributes as pcga
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
                                        citation_title, citation_title_match_mode, time_series_uuid, time_index,
-                                       string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
+                                       string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes, uom = None):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
     if _check_not_none_and_not_uuid_match(support_uuid, other.support_uuid_for_part, part):
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 328160c..f6448c3 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -497,7 +497,7 @@ class PropertyCollection():
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
                                                     time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    ignore_clashes, uom)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From d5935923e150971207e730ad31cead6c7ee03411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 038/270] fix: time_index '*' or 'none' raised when selecting
 properties

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index f6448c3..b523936 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -489,7 +489,7 @@ class PropertyCollection():
         rqp_c.check_and_warn_property_kind(property_kind, 'selecting properties')
         if self.realization is not None and other.realization is not None:
             assert self.realization == other.realization
-        if time_index is not None:
+        if time_index is not None and time_index not in ('*', 'none'):
             assert time_index >= 0
 
         for (part, info) in other.dict.items():
-- 
2.43.0


From b6369a1978674cb1517882c62a8cc6eec0fe5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 039/270] fix: property_kind '*' selected no properties

---
 resqpy/property/_collection_add_part.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 82d9043..9ab06fd 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -35,7 +35,10 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(indexable, other.indexable_for_part, part):
         return
-    if property_kind is not None and not rqp_c.same_property_kind(other.property_kind_for_part(part), property_kind):
+    if property_kind in ('*', 'none'):
+        if _check_not_none_and_not_equals(property_kind, other.property_kind_for_part, part):
+            return
+    elif property_kind is not None and not rqp_c.same_property_kind(other.property_kind_for_part(part), property_kind):
         return
     if _check_not_none_and_not_equals(facet_type, other.facet_type_for_part, part):
         return
-- 
2.43.0


From d14092967351dfaf7b0227f6a727868d512e69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 040/270] fix: has_single_uom depended on the order of
 properties where some have no uom

---
 resqpy/property/property_collection.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index b523936..6cba646 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1630,17 +1630,8 @@ class PropertyCollection():
     def establish_has_single_uom(self):
         """Re-evaluates the has single uom attribute depending on whether all properties have the same units of measure."""
 
-        self.has_single_uom_flag = True
-        common_uom = None
-        for part in self.parts():
-            part_uom = self.uom_for_part(part)
-            if common_uom is None:
-                common_uom = part_uom
-            elif part_uom != common_uom:
-                self.has_single_uom_flag = False
-                break
-        if common_uom is None:
-            self.has_single_uom_flag = True  # all uoms are None (probably discrete properties)
+        # note: all uoms might be None (probably discrete properties)
+        self.has_single_uom_flag = len(set(self.uom_for_part(part) for part in self.parts())) <= 1
         return self.has_single_uom_flag
 
     def has_single_uom(self):
-- 
2.43.0


From c9ba8e2010f896d3b28d28998eccb207069c5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 041/270] fix: collection of properties with several supports
 overwrote the support of its parts

---
 resqpy/property/_collection_add_part.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 9ab06fd..b29b857 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -108,7 +108,8 @@ def _add_part_to_dict_get_support_uuid(collection, part):
     if support_uuid is None:
         support_uuid = collection.support_uuid
     elif collection.support_uuid is None:
-        collection.set_support(support_uuid)
+        if collection.number_of_parts() == 0:  # otherwise, already a multi-support collection
+            collection.set_support(support_uuid)
     elif not bu.matching_uuids(support_uuid, collection.support.uuid):  # multi-support collection
         collection.set_support(None)
     if isinstance(support_uuid, str):
-- 
2.43.0


From af0ff57d18efa18409bc47bc0eac6304b9f45970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 042/270] fix: similar parts included properties with facets,
 realizations or times the example lacks

---
 resqpy/property/property_collection.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 6cba646..7635ea7 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -529,14 +529,14 @@ class PropertyCollection():
         #     while title and title[-1].isdigit():
         #         title = title[:-1]
         self.inherit_parts_selectively_from_other_collection(other,
-                                                             realization = other.realization_for_part(example_part),
+                                                             realization = _or_none(other.realization_for_part(example_part)),
                                                              support_uuid = other.support_uuid_for_part(example_part),
                                                              continuous = other.continuous_for_part(example_part),
                                                              points = other.points_for_part(example_part),
                                                              indexable = other.indexable_for_part(example_part),
                                                              property_kind = other.property_kind_for_part(example_part),
-                                                             facet_type = other.facet_type_for_part(example_part),
-                                                             facet = other.facet_for_part(example_part),
+                                                             facet_type = _or_none(other.facet_type_for_part(example_part)),
+                                                             facet = _or_none(other.facet_for_part(example_part)),
                                                              citation_title = title,
                                                              citation_title_match_mode = citation_title_match_mode,
                                                              time_series_uuid = time_series_uuid,
@@ -573,7 +573,7 @@ class PropertyCollection():
         #         title = title[:-1]
         self.inherit_parts_selectively_from_other_collection(
             other,
-            realization = other.realization_for_part(example_part),
+            realization = _or_none(other.realization_for_part(example_part)),
             support_uuid = other.support_uuid_for_part(example_part),
             continuous = other.continuous_for_part(example_part),
             points = False,
@@ -581,8 +581,8 @@ class PropertyCollection():
             property_kind = other.property_kind_for_part(example_part),
             citation_title = title,
             citation_title_match_mode = citation_title_match_mode,
-            time_series_uuid = other.time_series_uuid_for_part(example_part),
-            time_index = other.time_index_for_part(example_part),
+            time_series_uuid = _or_none(other.time_series_uuid_for_part(example_part)),
+            time_index = _or_none(other.time_index_for_part(example_part)),
             ignore_clashes = ignore_clashes)
 
     def inherit_similar_parts_for_realizations_from_other_collection(self,
@@ -620,12 +620,12 @@ class PropertyCollection():
             points = other.points_for_part(example_part),
             indexable = other.indexable_for_part(example_part),
             property_kind = other.property_kind_for_part(example_part),
-            facet_type = other.facet_type_for_part(example_part),
-            facet = other.facet_for_part(example_part),
+            facet_type = _or_none(other.facet_type_for_part(example_part)),
+            facet = _or_none(other.facet_for_part(example_part)),
             citation_title = title,
             citation_title_match_mode = citation_title_match_mode,
-            time_series_uuid = other.time_series_uuid_for_part(example_part),
-            time_index = other.time_index_for_part(example_part),
+            time_series_uuid = _or_none(other.time_series_uuid_for_part(example_part)),
+            time_index = _or_none(other.time_index_for_part(example_part)),
             ignore_clashes = ignore_clashes)
 
     def number_of_imports(self):
@@ -2915,3 +2915,8 @@ class PropertyCollection():
             'PERMJ': five_uuids[3],
             'PERMK': five_uuids[4]
         }
+
+
+def _or_none(value):
+    # returns the 'none' filter value for an attribute which is absent, otherwise the value
+    return 'none' if value is None else value
-- 
2.43.0


From 065635d8d8f709dec003fb37f11f8b576e3f34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 043/270] fix: realization, time and facet arrays failed for
 properties with several values per element

---
 resqpy/property/_collection_get_attributes.py | 2 ++
 resqpy/property/property_collection.py        | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index b1ed395..8efbfc0 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -689,6 +689,8 @@ def _realizations_array_ref_not_fill_missing(collection, r_list, dtype, a):
 def _realizations_array_ref_get_shape_list(collection, indexable_element, r_extent):
     shape_list = collection.supporting_shape(indexable_element = indexable_element)
     shape_list.insert(0, r_extent)
+    if collection.count_for_part(collection.parts()[0]) > 1:
+        shape_list.append(collection.count_for_part(collection.parts()[0]))
     if collection.points_for_part(collection.parts()[0]):
         shape_list.append(3)
     return shape_list
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 7635ea7..0bfe823 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1919,6 +1919,8 @@ class PropertyCollection():
         dtype = rqp_c.dtype_flavour(continuous, use_32_bit)
         shape_list = self.supporting_shape(indexable_element = indexable_element)
         shape_list.insert(0, facet_count)
+        if self.count_for_part(self.parts()[0]) > 1:
+            shape_list.append(self.count_for_part(self.parts()[0]))
 
         a = np.zeros(shape_list, dtype = dtype)
 
@@ -2027,6 +2029,8 @@ class PropertyCollection():
         # todo: handle direction dependent shapes
         shape_list = self.supporting_shape(indexable_element = indexable_element)
         shape_list.insert(0, ti_extent)
+        if self.count_for_part(self.parts()[0]) > 1:
+            shape_list.append(self.count_for_part(self.parts()[0]))
         if self.points_for_part(self.parts()[0]):
             shape_list.append(3)
 
-- 
2.43.0


From 1b5fd7a46f6c75f43870b589d5cf8e300b800734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 044/270] fix: DataFrame.column_uom always raised

---
 resqpy/olio/dataframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index c0ba987..b886840 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -170,10 +170,10 @@ class DataFrame:
     def column_uom(self, col_index):
         """Returns units of measure for the specified column, or Euc if no units present."""
 
-        if self.units_table is None:
-            return 'Euc'
         assert 0 <= col_index < self.n_cols, 'column index out of range'
-        return self.units_table.get_string(col_index)
+        if not self.uom_list:
+            return 'Euc'
+        return self.uom_list[col_index]
 
     def write_hdf5_and_create_xml(self):
         """Write dataframe data to hdf5 file and create xml for RESQML objects to represent dataframe."""
-- 
2.43.0


From 55e625b1110ee3946fca872662e88abdf76f5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 045/270] fix: extra metadata of a dataframe was not stored

---
 resqpy/olio/dataframe.py | 4 +++-
 resqpy/olio/relperm.py   | 4 +---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index b886840..d9e2a52 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -240,7 +240,9 @@ class DataFrame:
                                      crs_uuid = crs_uuid)
             self.mesh.write_hdf5()
             mesh_root = self.mesh.create_xml(title = self.title)
-            rqet.create_metadata_xml(mesh_root, {'dataframe': 'true'})
+            extra_metadata = dict(self.extra_metadata) if self.extra_metadata else {}
+            extra_metadata['dataframe'] = 'true'
+            rqet.create_metadata_xml(mesh_root, extra_metadata)
             if self.realization is not None:
                 self.pc = rqp.PropertyCollection()
                 self.pc.set_support(support = self.mesh)
diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index f43a3dc..dc5e406 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -245,10 +245,8 @@ class RelPerm(DataFrame):
 
     def write_hdf5_and_create_xml(self):
         """Write relative permeability table data to hdf5 file and create xml for dataframe objects."""
+        # note: extra metadata indicating that this is a relative permeability table is included by the base class method
         super().write_hdf5_and_create_xml()
-        mesh_root = self.mesh.root
-        # create an xml of extra metadata to indicate that this is a relative permeability table
-        rqet.create_metadata_xml(mesh_root, self.extra_metadata)
 
 
 def text_to_relperm_dict(relperm_data, is_file = True):
-- 
2.43.0


From eb7dd358f68a03895873c29d758011a2a38b2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 046/270] fix: a further realization of a dataframe was not
 written, and refused unless as many columns as rows

---
 resqpy/olio/dataframe.py | 44 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index d9e2a52..bd29bc6 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -99,6 +99,7 @@ class DataFrame:
         self.uom_lookup_uuid = uom_lookup_uuid
         self.uom_lookup = None  # string lookup table mapping column index (0 based) to uom
         self.extra_metadata = extra_metadata
+        self.is_new_realization = False  # set True if adding a realization to an existing dataframe
 
         if uuid is not None:
             support_root = model.root_for_uuid(uuid)
@@ -138,8 +139,9 @@ class DataFrame:
                     assert existing_pc.singleton(
                         realization = self.realization) is None, 'dataframe realization already exists'
                 self.df = df.copy()
+                self.is_new_realization = True
                 assert len(self.df) == self.n_rows
-                assert len(self.df.columns) == self.n_rows
+                assert len(self.df.columns) == self.n_cols
         else:
             assert df is not None, 'no dataframe provided when instantiating DataFrame object'
             self.df = df.copy()
@@ -211,7 +213,8 @@ class DataFrame:
         assert self.n_rows == len(self.df)
         assert self.n_cols == len(self.df.columns)
 
-        if self.mesh is None:
+        mesh_is_new = self.mesh is None
+        if mesh_is_new:
             origin = (0.0, 0.0, 0.0)
             dxyz_dij = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
             crs_uuids = self.model.uuids(obj_type = 'LocalDepth3dCrs')
@@ -243,24 +246,25 @@ class DataFrame:
             extra_metadata = dict(self.extra_metadata) if self.extra_metadata else {}
             extra_metadata['dataframe'] = 'true'
             rqet.create_metadata_xml(mesh_root, extra_metadata)
-            if self.realization is not None:
-                self.pc = rqp.PropertyCollection()
-                self.pc.set_support(support = self.mesh)
-                dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
-                if dataframe_pk_uuid is None:
-                    dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
-                    dataframe_pk.create_xml()
-                    dataframe_pk_uuid = dataframe_pk.uuid
-                self.pc.add_cached_array_to_imported_list(np.array(self.df),
-                                                          'dataframe',
-                                                          self.title,
-                                                          uom = 'Euc',
-                                                          property_kind = 'dataframe',
-                                                          local_property_kind_uuid = dataframe_pk_uuid,
-                                                          realization = self.realization,
-                                                          indexable_element = 'nodes')
-                self.pc.write_hdf5_for_imported_list()
-                self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+        if self.realization is not None and (mesh_is_new or self.is_new_realization):
+            self.pc = rqp.PropertyCollection()
+            self.pc.set_support(support = self.mesh)
+            dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
+            if dataframe_pk_uuid is None:
+                dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
+                dataframe_pk.create_xml()
+                dataframe_pk_uuid = dataframe_pk.uuid
+            self.pc.add_cached_array_to_imported_list(np.array(self.df),
+                                                      'dataframe',
+                                                      self.title,
+                                                      uom = 'Euc',
+                                                      property_kind = 'dataframe',
+                                                      local_property_kind_uuid = dataframe_pk_uuid,
+                                                      realization = self.realization,
+                                                      indexable_element = 'nodes')
+            self.pc.write_hdf5_for_imported_list()
+            self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+            self.is_new_realization = False
 
 
 class TimeTable(DataFrame):
-- 
2.43.0


From 7f5cbfaa69db58d488af720f6205e2494733cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 047/270] fix: relperm interpolation failed for lower case
 column names and gave nan for missing capillary pressures

---
 resqpy/olio/relperm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index dc5e406..0aa9b80 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -180,10 +180,11 @@ class RelPerm(DataFrame):
            A simple linear interpolation is performed.
         """
         df = self.df.copy()
-        if kr_or_pc_col.capitalize() not in df.columns or kr_or_pc_col.capitalize() == df.columns[0]:
+        kr_or_pc_col = kr_or_pc_col.capitalize()
+        if kr_or_pc_col not in df.columns or kr_or_pc_col == df.columns[0]:
             raise ValueError('incorrect column name provided for interpolation')
-        if kr_or_pc_col == 'PC':
-            df = df[df['PC'].notnull()]
+        if kr_or_pc_col == 'Pc':
+            df = df[df['Pc'].notnull()]
         sat_col = df.columns[0]
         # ensure that the saturation values are monotonically increasing
         df = df.sort_values(by = sat_col)
-- 
2.43.0


From 390dda6405e8f6dbc85018d4f05e4eca08efd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 048/270] fix: relperm table loaded from storage was always
 written to text as low salinity

---
 resqpy/olio/relperm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 0aa9b80..b70199d 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -214,7 +214,7 @@ class RelPerm(DataFrame):
         ascii_file = os.path.join(filepath, filename + '.dat')
         df.columns = map(str.upper, df.columns)
         if {'KRW', 'KRO'}.issubset(set(df.columns)):
-            if self.low_sal:
+            if str(self.low_sal).lower() == 'true':  # low_sal is a string when loaded from existing xml
                 table_name_keyword = 'WOTABLE (LOW_SAL)\n'
             else:
                 table_name_keyword = 'WOTABLE\n'
-- 
2.43.0


From 3eb408c5b63b6d3e8ac328406f2b5a22a4c40981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 049/270] fix: relperm text output lost precision

---
 resqpy/olio/relperm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index b70199d..e5dcb17 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -231,7 +231,7 @@ class RelPerm(DataFrame):
         if filename + '.dat' not in os.listdir(filepath):
             with open(ascii_file, 'w') as f:
                 f.write(table_name_keyword)
-                df_str = df.to_string(na_rep = '', index = False)
+                df_str = df.to_string(na_rep = '', index = False, float_format = '{:.16g}'.format)
                 f.write(df_str)
                 f.close()
                 print(f'Created new DAT file: {filename} at {filepath}')
@@ -239,7 +239,7 @@ class RelPerm(DataFrame):
             with open(ascii_file, 'a') as f:
                 f.write('\n\n')
                 f.write(table_name_keyword)
-                df_str = df.to_string(na_rep = '', index = False)
+                df_str = df.to_string(na_rep = '', index = False, float_format = '{:.16g}'.format)
                 f.write(df_str)
                 f.close()
                 print(f'Appended to DAT file: {filename} at {filepath}')
-- 
2.43.0


From 780115ff8ad30870d50c862b1b4296ecd6428beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 050/270] fix: relperm text with an oil saturation column could
 not be read

---
 resqpy/olio/relperm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index e5dcb17..50c03e5 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -282,6 +282,7 @@ def text_to_relperm_dict(relperm_data, is_file = True):
     df_cols_dict = {
         'SW': 'Sw',
         'SG': 'Sg',
+        'SO': 'So',
         'KRW': 'Krw',
         'KRG': 'Krg',
         'KROW': 'Kro',
-- 
2.43.0


From ecf3faf98e4b7d6c9bfc4289856df76658ee48a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 051/270] fix: dataframe with columns of differing types could
 not be stored as a realization

---
 resqpy/olio/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index bd29bc6..2906120 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -231,7 +231,7 @@ class DataFrame:
                                      nj = self.n_rows,
                                      dxyz_dij = dxyz_dij,
                                      origin = origin,
-                                     z_values = np.array(self.df),
+                                     z_values = np.array(self.df, dtype = float),
                                      crs_uuid = crs_uuid)
             else:
                 self.mesh = rqs.Mesh(self.model,
@@ -254,7 +254,7 @@ class DataFrame:
                 dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
                 dataframe_pk.create_xml()
                 dataframe_pk_uuid = dataframe_pk.uuid
-            self.pc.add_cached_array_to_imported_list(np.array(self.df),
+            self.pc.add_cached_array_to_imported_list(np.array(self.df, dtype = float),
                                                       'dataframe',
                                                       self.title,
                                                       uom = 'Euc',
-- 
2.43.0


From 61b6442872f0e1956be5c593c610fd64876f453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 052/270] fix: relperm text with no capillary pressure values
 could not be read

---
 resqpy/olio/relperm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 50c03e5..22656a9 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -316,6 +316,8 @@ def text_to_relperm_dict(relperm_data, is_file = True):
             table_end = len(data)
         table_cols = data[l + 1]
         table_rows = data[l + 2:table_end]
+        # pad rows where trailing (capillary pressure) values are missing
+        table_rows = [row + [None] * (len(table_cols) - len(row)) for row in table_rows]
         df = pd.DataFrame(table_rows, columns = table_cols)
         df.columns = df.columns.map(df_cols_dict)
         sat_col = [x for x in df.columns if 'S' in x][0]
-- 
2.43.0


From a245f0a585201b218e2984d1c422c5c1875aed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 053/270] fix: dataframe using a lookup table with another
 title could not be loaded

---
 resqpy/olio/dataframe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index 2906120..41826f6 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -182,7 +182,8 @@ class DataFrame:
 
         self._set_mesh_from_df()  # writes hdf5 data and creates xml for mesh (and property)
 
-        if self.column_lookup is None:
+        # note: lookup tables are identified by their titles when a dataframe is loaded
+        if self.column_lookup is None or self.column_lookup.title != 'dataframe columns':
             self.column_lookup = rqp.StringLookup(self.model,
                                                   int_to_str_dict = dict(enumerate(self.df.columns)),
                                                   title = 'dataframe columns')
@@ -193,7 +194,7 @@ class DataFrame:
         if sl_node is not None:
             self.model.create_reciprocal_relationship(self.mesh.root, 'destinationObject', sl_node, 'sourceObject')
 
-        if self.uom_list and self.uom_lookup is None:
+        if self.uom_list and (self.uom_lookup is None or self.uom_lookup.title != 'dataframe units'):
             self.uom_lookup = rqp.StringLookup(self.model,
                                                int_to_str_dict = dict(enumerate(self.uom_list)),
                                                title = 'dataframe units')
-- 
2.43.0


From 63f3cfaf8f723a7d37545906ccb7b61386da85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 054/270] fix: grid_from_cp set the raw layer indices of grids
 with k gaps one too high

---
 resqpy/rq_import/_grid_from_cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index ede7fb6..6e46fd4 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -227,7 +227,7 @@ class _GridFromCp:
                 layer_gap_unmasked = np.where(gap[k].mask, 0.0, layer_gap)
                 self.__masked_cp_array[k + 1, :, :, 0, :, :, :] -= layer_gap_unmasked
                 self.__masked_cp_array[k, :, :, 1, :, :, :] += layer_gap_unmasked
-            self.__k_gap_raw_index[k + 1] = k + self.__k_gaps
+            self.__k_gap_raw_index[k + 1] = k + 1 + self.__k_gaps
 
     def __close_gaps(self, gap):
         # close voids (includes shifting x & y)
-- 
2.43.0


From 80804cfcf3c4465e83cd6378d1cce806f717f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 055/270] fix: composite_bounding_box modified the first of the
 boxes it was given

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..8e8e11d 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -97,7 +97,7 @@ def bounding_box(grid, cell_kji0, points_root = None, cache_cp_array = False):
 def composite_bounding_box(grid, bounding_box_list):
     """Returns the xyz box which envelopes all the boxes in the list, as a numpy array of shape (2, 3)."""
 
-    result = bounding_box_list[0]
+    result = np.array(bounding_box_list[0], dtype = float)
     for box in bounding_box_list[1:]:
         result[0] = np.minimum(result[0], box[0])
         result[1] = np.maximum(result[1], box[1])
-- 
2.43.0


From 8f07a638130bde16a560ed9bef0b01a65d5578e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 056/270] fix: xyz_box in global coordinates was wrong for a
 rotated crs

---
 resqpy/grid/_xyz.py | 50 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index 8e8e11d..5f24e81 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -32,33 +32,37 @@ def xyz_box(grid, points_root = None, lazy = True, local = False):
     :meta common:
     """
 
+    def corners():  # the 8 outermost logical corners of the grid
+        eight_corners = np.full((2, 2, 2, 3), np.nan)
+        for kp in [0, 1]:
+            for jp in [0, 1]:
+                for ip in [0, 1]:
+                    cell_kji0 = [
+                        kp * (grid.extent_kji[0] - 1), jp * (grid.extent_kji[1] - 1), ip * (grid.extent_kji[2] - 1)
+                    ]
+                    p = grid.point(cell_kji0 = cell_kji0,
+                                   corner_index = [kp, jp, ip],
+                                   points_root = points_root,
+                                   cache_array = False)
+                    if p is not None:
+                        eight_corners[kp, jp, ip] = p
+        return eight_corners.reshape((-1, 3))
+
+    def min_max(p):
+        return np.stack((np.nanmin(p, axis = 0), np.nanmax(p, axis = 0)))
+
     if grid.xyz_box_cached is None or (not lazy and not grid.xyz_box_cached_thoroughly):
-        grid.xyz_box_cached = np.zeros((2, 3))
-        if lazy:
-            eight_corners = np.zeros((2, 2, 2, 3))
-            for kp in [0, 1]:
-                for jp in [0, 1]:
-                    for ip in [0, 1]:
-                        cell_kji0 = [
-                            kp * (grid.extent_kji[0] - 1), jp * (grid.extent_kji[1] - 1), ip * (grid.extent_kji[2] - 1)
-                        ]
-                        eight_corners[kp, jp, ip] = grid.point(cell_kji0 = cell_kji0,
-                                                               corner_index = [kp, jp, ip],
-                                                               points_root = points_root,
-                                                               cache_array = False)
-            grid.xyz_box_cached[0, :] = np.nanmin(eight_corners, axis = (0, 1, 2))
-            grid.xyz_box_cached[1, :] = np.nanmax(eight_corners, axis = (0, 1, 2))
-        else:
-            ps = grid.points_ref()
-            if grid.has_split_coordinate_lines:
-                grid.xyz_box_cached[0, :] = np.nanmin(ps, axis = (0, 1))
-                grid.xyz_box_cached[1, :] = np.nanmax(ps, axis = (0, 1))
-            else:
-                grid.xyz_box_cached[0, :] = np.nanmin(ps, axis = (0, 1, 2))
-                grid.xyz_box_cached[1, :] = np.nanmax(ps, axis = (0, 1, 2))
+        grid.xyz_box_cached = min_max(corners() if lazy else grid.points_ref(masked = False).reshape((-1, 3)))
         grid.xyz_box_cached_thoroughly = not lazy
     if local:
         return grid.xyz_box_cached
+    crs = None if grid.crs_uuid is None else rqc.Crs(grid.model, uuid = grid.crs_uuid)
+    if crs is not None and crs.rotated:  # the global box does not follow from the local box
+        if grid.xyz_box_cached_thoroughly:
+            p = grid.points_ref(masked = False).reshape((-1, 3)).copy()
+        else:
+            p = corners()
+        return min_max(grid.local_to_global_crs(p, crs_uuid = grid.crs_uuid))
     global_xyz_box = grid.xyz_box_cached.copy()
     return grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
 
-- 
2.43.0


From f2b059c204da14d94a8d6fb7cd226cbd2a120c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 057/270] fix: split_gap_x_section_points failed for unsplit
 grids with k gaps

---
 resqpy/grid/_points_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..3a2c213 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -565,7 +565,8 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape(
+            (grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From d33424c06ea3b2fb250ae557233f7cfc7a8aa2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 058/270] fix: x_section_corner_points with rotate failed for a
 single column

---
 resqpy/grid/_points_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 3a2c213..918452e 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -680,7 +680,7 @@ def x_section_corner_points(grid,
 
     if rotate:
         if azimuth is None:
-            direction = vec.points_direction_vector(x_sect, axis = 1)
+            direction = vec.points_direction_vector(x_sect, axis = 1 if nj_or_ni > 1 else 3)
         else:
             direction = vec.unit_vector_from_azimuth(azimuth)
         x_sect = vec.rotate_xyz_array_around_z_axis(x_sect, direction)
-- 
2.43.0


From fe99ada086e0c1d2838612f5b4a32c91522999c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 059/270] fix: grid_from_cp did not set the crs of the grid
 object

---
 resqpy/rq_import/_grid_from_cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 6e46fd4..414aadf 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -426,6 +426,7 @@ class _GridFromCp:
         self.grid.crs_uuid = self.__crs_uuid
         self.grid.crs_root = self.__model.root_for_uuid(self.__crs_uuid)
         self.__crs = rqc.Crs(self.__model, uuid = self.__crs_uuid)
+        self.grid.crs = self.__crs
 
         # add pillar points array to grid object
         log.debug('attaching points array to grid object')
-- 
2.43.0


From eab69c402401b3a6ac5d392719d5127044420c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 060/270] fix: grid_from_cp lost points of defined cells where
 the primary column at a pillar is undefined

---
 resqpy/rq_import/_grid_from_cp.py | 36 +++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 414aadf..2320bce 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -314,26 +314,40 @@ class _GridFromCp:
             self.__split_pillars = False
         log.debug('number of extra pillars: ' + str(len(self.__extras_list)))
 
+    def __aligned(self, corner, reference):
+        # returns True if column corner data matches that of reference corner (where both defined), in which case
+        # any points undefined in the reference are filled in from the corner (as the corner will share the reference)
+        corner_points = self.__k_reduced_cp_array[(slice(None),) + corner]
+        reference_points = self.__k_reduced_cp_array[(slice(None),) + reference]
+        discrepancy = np.max(np.abs(corner_points - reference_points))
+        if discrepancy is not ma.masked and not discrepancy <= self.__split_tolerance:
+            return False
+        self.__fill_undefined(corner, reference)
+        return True
+
+    def __fill_undefined(self, corner, reference):
+        # fill in any undefined points of the reference column corner with data from another column corner
+        reference_points = self.__k_reduced_cp_array[(slice(None),) + reference]
+        undefined = ma.getmaskarray(reference_points)
+        if np.any(undefined):
+            corner_points = self.__k_reduced_cp_array[(slice(None),) + corner]
+            self.__k_reduced_cp_array[(slice(None),) + reference] = ma.where(undefined, corner_points, reference_points)
+
     def __append_single_pillar(self, i, j, ip, jp, col_j, p_col_i, p_col_j, primary_ip, primary_jp):
         col_i = i - ip
         if col_i < 0 or col_i >= self.__ni:
             return  # no column this side of pillar in i
         if jp == primary_jp and ip == primary_ip:
             return  # this column is the primary for this pillar
-        discrepancy = np.max(
-            np.abs(self.__k_reduced_cp_array[:, col_j, col_i, jp, ip, :] -
-                   self.__k_reduced_cp_array[:, p_col_j, p_col_i, primary_jp, primary_ip, :]))
-        if discrepancy <= self.__split_tolerance:
+        if self.__aligned((col_j, col_i, jp, ip), (p_col_j, p_col_i, primary_jp, primary_ip)):
             return  # data for this column's corner aligns with primary
         for e in range(self.__extras_count[j, i]):
             eli = self.__extras_list_index[j, i] + e
             pillar_j_extra = j - self.__extras_list[eli][0]
             pillar_i_extra = i - self.__extras_list[eli][1]
-            discrepancy = np.max(
-                np.abs(self.__k_reduced_cp_array[:, col_j, col_i, jp, ip, :] -
-                       self.__k_reduced_cp_array[:, pillar_j_extra, pillar_i_extra, self.__extras_list[eli][0],
-                                                 self.__extras_list[eli][1], :]))
-            if discrepancy <= self.__split_tolerance:  # data for this corner aligns with existing extra
+            if self.__aligned((col_j, col_i, jp, ip),
+                              (pillar_j_extra, pillar_i_extra, self.__extras_list[eli][0],
+                               self.__extras_list[eli][1])):  # data for this corner aligns with existing extra
                 self.__extras_use[col_j, col_i, jp, ip] = e
                 break
         if self.__extras_use[col_j, col_i, jp, ip] >= 0:  # reusing an existing extra for this pillar
@@ -367,6 +381,10 @@ class _GridFromCp:
             for j in range(self.__nj_plus_1):
                 for i in range(self.__ni_plus_1):
                     (jp, ip) = self.__primary_pillar_jip[j, i]
+                    for other_jp in range(max(0, j - self.__nj + 1), min(1, j) + 1):
+                        for other_ip in range(max(0, i - self.__ni + 1), min(1, i) + 1):
+                            self.__fill_undefined((j - other_jp, i - other_ip, other_jp, other_ip),
+                                                  (j - jp, i - ip, jp, ip))
                     slice = self.__k_reduced_cp_array[:, j - jp, i - ip, jp, ip, :]
                     self.__points_array[:, j, i, :] = np.where(slice.mask, np.nan,
                                                                slice)  # NaN indicates undefined/invalid geometry
-- 
2.43.0


From dddad28b6f3186123b8ed120a3896416a4272e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 061/270] fix: grid_from_cp dropped the mask so that undefined
 geometry was given data

---
 resqpy/rq_import/_grid_from_cp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 2320bce..1cd78c3 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -248,8 +248,8 @@ class _GridFromCp:
         else:
             slice = self.__masked_cp_array[1:, :, :, 0, :, :, :]
             # where cell geometry undefined, if cell above is defined, take data from cell above with kp = 1 and set shared point defined
-            self.__k_reduced_cp_array[1:-1, :, :, :, :, :] = np.where(slice.mask, self.__masked_cp_array[:-1, :, :,
-                                                                                                         1, :, :, :],
+            self.__k_reduced_cp_array[1:-1, :, :, :, :, :] = ma.where(ma.getmaskarray(slice),
+                                                                      self.__masked_cp_array[:-1, :, :, 1, :, :, :],
                                                                       slice)
 
     def __get_k_reduced_cp_array_kgaps(self):
@@ -263,9 +263,9 @@ class _GridFromCp:
                 raw_k += 1
             else:  # take data from either possible cp slice, whichever is defined
                 slice = self.__masked_cp_array[k + 1, :, :, 0, :, :, :]
-                self.__k_reduced_cp_array[raw_k, :, :, :, :, :] = np.where(slice.mask,
-                                                                           self.__masked_cp_array[k, :, :,
-                                                                                                  1, :, :, :], slice)
+                self.__k_reduced_cp_array[raw_k, :, :, :, :, :] = ma.where(ma.getmaskarray(slice),
+                                                                           self.__masked_cp_array[k, :, :, 1, :, :, :],
+                                                                           slice)
                 raw_k += 1
         assert raw_k == self.__nk + self.__k_gaps
 
-- 
2.43.0


From 449821cfa8758db58e7dccc7a35de8f37d620ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 062/270] fix: point_raw failed for a grid stored with
 parametric lines

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 918452e..69420e4 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -262,6 +262,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         delattr(grid, 'temp_cpp')
         delattr(grid, 'temp_cp')
         delattr(grid, 'temp_parameters')
+        if index is not None:
+            value = grid.points_cached[tuple(index)]
     else:
         raise NotImplementedError(f'grid gepmetry loading for points type: {points_type}')
     if index is None:
-- 
2.43.0


From 3a8d8945ab9f7d211147c83bf547714b450fdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 063/270] fix: rotate_array failed on masked arrays

---
 resqpy/olio/vector_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 4d60234..2ef55d0 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -384,6 +384,8 @@ def rotate_vector(rotation_matrix, vector):  # pragma: no cover
 
 def rotate_array(rotation_matrix, a):
     """Returns a copy of array a with each vector rotated by the rotation matrix."""
+    if isinstance(a, np.ma.MaskedArray):
+        return np.ma.masked_array(rotate_array(rotation_matrix, a.data), mask = a.mask)
     return np.matmul(rotation_matrix, a.reshape(-1, 3).T).T.reshape(a.shape)
 
 
-- 
2.43.0


From 43d92fb64ebc73e4c46551d99c83585622c722b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 064/270] fix: parametric lines points failed with split
 pillars unless the split indices were already loaded

---
 resqpy/grid/_points_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 69420e4..18d6cad 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -190,6 +190,9 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
             raise
     elif points_type == 'Point3dParametricArray':
         # Point3dParametricArray handling for 2 point segmented line (straight line) only
+        if grid.has_split_coordinate_lines and getattr(grid, 'split_pillar_indices_cached', None) is None:
+            grid.cache_all_geometry_arrays()  # loads the split pillar indices, needed here, and then the points
+            return grid.points_cached if index is None else grid.points_cached[tuple(index)]
         pp_count = (grid.nj + 1) * (grid.ni + 1)  # primary pillar count
         pl_node = rqet.find_tag(p_root, 'ParametricLines')
         assert pl_node is not None
-- 
2.43.0


From 16e338fccda8f29ab1dc821626b98f4d5a1002e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 065/270] fix: split_column_faces missed split faces at the far
 edges

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From f3ec536590188fce648fde0d894161377cab7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 066/270] fix: set_cached_points_from_property left the xyz box
 and pinchout mask of the former points cached

---
 resqpy/grid/_points_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 18d6cad..9c7f949 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -105,6 +105,9 @@ def set_cached_points_from_property(grid,
     # invalidate anything cached that is derived from geometry
     grid.geometry_defined_for_all_pillars_cached = None
     grid.geometry_defined_for_all_cells_cached = None
+    grid.xyz_box_cached = None
+    grid.xyz_box_cached_thoroughly = False
+    grid.pinchout = None
     for attr in ('array_unsplit_points', 'array_corner_points', 'array_centre_point', 'array_thickness', 'array_volume',
                  'array_half_cell_t', 'array_k_transmissibility', 'array_j_transmissibility',
                  'array_i_transmissibility', 'fgcs', 'array_fgcs_transmissibility', 'pgcs',
-- 
2.43.0


From ae0ef0b7b227b83cbf0f5910c67954aa397940f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 067/270] fix: RegularGrid lost its origin when given a crs
 without offsets, and shifted it wrongly for a rotated crs

---
 resqpy/grid/_regular_grid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index eac0b6c..fdbc6be 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -152,7 +152,7 @@ class RegularGrid(grr_g.Grid):
                 self.pillar_shape = 'straight'
 
             new_crs = None
-            shift_origin = np.any(origin != 0.0) and uuid is None and not as_irregular_grid
+            shift_origin = np.any(np.array(origin) != 0.0) and uuid is None and not set_points_cached
             if crs_uuid is None and self.extra_metadata is not None:
                 crs_uuid = bu.uuid_from_string(self.extra_metadata.get('crs uuid'))
                 shift_origin = shift_origin and crs_uuid is None
@@ -166,9 +166,13 @@ class RegularGrid(grr_g.Grid):
             if shift_origin:
                 new_crs = rqc.Crs(parent_model, uuid = crs_uuid)
                 new_crs.uuid = bu.new_uuid()
-                new_crs.x_offset += origin[0]
-                new_crs.y_offset += origin[1]
+                dx, dy = origin[:2]
+                if new_crs.rotated:  # offsets are not in the rotated axes
+                    dx, dy, _ = vec.rotate_vector(new_crs.reverse_rotation_matrix, np.array(origin, dtype = float))
+                new_crs.x_offset += dx
+                new_crs.y_offset += dy
                 new_crs.z_offset += origin[2]
+                new_crs.set_rotation_matrices()  # refreshes the null transform flag
                 new_crs.create_xml(reuse = True)
                 crs_uuid = new_crs.uuid
             self.crs_uuid = crs_uuid
-- 
2.43.0


From 24490551f6d6910df9deffd6635ac67a01166893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 068/270] fix: extract_children listed the uuid of the grid
 itself instead of those of its local grids

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..049b85c 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -462,7 +462,7 @@ def extract_children(grid):
                 continue
             parent_uuid = bu.uuid_from_string(parent_uuid)
             if bu.matching_uuids(grid.uuid, parent_uuid):
-                grid.local_grid_uuid_list.append(parent_uuid)
+                grid.local_grid_uuid_list.append(rqet.uuid_for_part_root(related_root))
     return grid.local_grid_uuid_list
 
 
-- 
2.43.0


From aaf6b57bd99dd236af5234c0a4ca3f32a135afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 069/270] fix: null stratigraphic unit indices of a grid were
 stored as large positive values

---
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..e7cb3e3 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -44,7 +44,7 @@ def _write_hdf5_from_caches(grid,
     h5_reg = rwh5.H5Register(grid.model)
 
     if stratigraphy and grid.stratigraphic_units is not None:
-        h5_reg.register_dataset(grid.uuid, 'unitIndices', grid.stratigraphic_units, dtype = 'uint32')
+        h5_reg.register_dataset(grid.uuid, 'unitIndices', grid.stratigraphic_units, dtype = 'int32')
 
     if geometry:
         __write_geometry(grid, h5_reg, use_parametric_lines)
-- 
2.43.0


From b52b106d94758c63bb2f3278a605167c412cc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 070/270] fix: parent window of a coarsened grid with varying
 ratios was stored with the wrong number of intervals

---
 resqpy/grid/_create_grid_xml.py        | 5 +----
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..eb055a3 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -145,10 +145,7 @@ def _create_grid_xml(grid,
             if grid.parent_window.constant_ratios[axis] is not None:
                 interval_count = 1
             else:
-                if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
-                else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index e7cb3e3..697cf2d 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From 7f0a8602fc3672c9de9bb1f96afe1ae07c158741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 071/270] fix: projected triangle areas were NaN where rounding
 made Heron's formula negative for a degenerate projection

---
 resqpy/olio/transmission.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 4704c3f..0cd8613 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -1169,13 +1169,8 @@ def projected_tri_area(pa, pb, pc):
     for xyz in range(3):
         xyz_0 = (xyz + 1) % 3
         xyz_1 = (xyz + 2) % 3
-        pap = np.stack((pa[..., xyz_0], pa[..., xyz_1]), axis = -1)  # points projected onto 2D
-        pbp = np.stack((pb[..., xyz_0], pb[..., xyz_1]), axis = -1)
-        pcp = np.stack((pc[..., xyz_0], pc[..., xyz_1]), axis = -1)
-        lap = vec.naive_lengths(pbp - pap)  # 2D triangle edge vector lengths
-        lbp = vec.naive_lengths(pcp - pbp)
-        lcp = vec.naive_lengths(pap - pcp)
-        s = 0.5 * (lap + lbp + lcp)  # 2D triangle semi perimeter lengths
-        area[..., xyz] = np.sqrt(s * (s - lap) * (s - lbp) * (s - lcp))
+        ab = pb - pa  # edge vectors, with points projected onto 2D by selection of components below
+        ac = pc - pa
+        area[..., xyz] = 0.5 * np.abs(ab[..., xyz_0] * ac[..., xyz_1] - ab[..., xyz_1] * ac[..., xyz_0])
 
     return area
-- 
2.43.0


From d1c61d97f9e0533328209534f299bfa025c06613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 072/270] fix: RegularGrid xyz_box, slice_points and
 find_cell_for_point_xy ignored the block origin held by the grid

---
 resqpy/grid/_regular_grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index fdbc6be..16847a4 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -676,6 +676,7 @@ class RegularGrid(grr_g.Grid):
                 grid_cp = grid_cp.reshape((8, 3))
                 grid.xyz_box_cached[0] = np.amin(grid_cp, axis = 0)
                 grid.xyz_box_cached[1] = np.amax(grid_cp, axis = 0)
+            grid.xyz_box_cached += grid.block_origin
             grid.xyz_box_cached_thoroughly = True
         if local:
             return grid.xyz_box_cached
@@ -698,8 +699,8 @@ class RegularGrid(grr_g.Grid):
             y = a[0, 1]
         log.debug(f'find for local x: {x}; y: {y}')
         if self.is_aligned:
-            i0 = maths.floor(x / self.block_dxyz_dkji[2, 0])
-            j0 = maths.floor(y / self.block_dxyz_dkji[1, 1])
+            i0 = maths.floor((x - self.block_origin[0]) / self.block_dxyz_dkji[2, 0])
+            j0 = maths.floor((y - self.block_origin[1]) / self.block_dxyz_dkji[1, 1])
         else:
             # TODO
             raise NotImplementedError('finding cell for x,y in unaligned regular grid')
@@ -852,6 +853,7 @@ class RegularGrid(grr_g.Grid):
             p[a, 0] = p[0, 0] + a * dxyz_da
         for b in range(1, shape[1]):
             p[:, b] = p[:, 0] + b * dxyz_db
+        p += self.block_origin
         if not local:
             assert self.crs is not None
             self.crs.local_to_global_array(p)
-- 
2.43.0


From 0dd3b29722120c8a528ffa4dda3492117d02b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 073/270] fix: a regular grid made from a mesh had its K step
 applied to x and y as well as z

---
 resqpy/grid/_regular_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index 16847a4..0dccad0 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -129,7 +129,7 @@ class RegularGrid(grr_g.Grid):
                 assert dxyz is None and dxyz_dkji is None
                 origin = mesh.regular_origin
                 dxyz_dkji = np.empty((3, 3))
-                dxyz_dkji[0, :] = mesh_dz_dk
+                dxyz_dkji[0, :] = (0.0, 0.0, mesh_dz_dk)
                 dxyz_dkji[1, :] = mesh.regular_dxyz_dij[1]  # J axis
                 dxyz_dkji[2, :] = mesh.regular_dxyz_dij[0]  # I axis
                 if crs_uuid is None:
-- 
2.43.0


From 965b70e85fbbc3f764cfdb956838efa1f666e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 074/270] fix: a new RegularGrid was always recorded as left
 handed whatever its axes and crs

---
 resqpy/grid/_regular_grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index 0dccad0..dc4cbe3 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -116,7 +116,7 @@ class RegularGrid(grr_g.Grid):
             self.extent_kji = np.array(extent_kji).copy()
             self.nk, self.nj, self.ni = self.extent_kji
             self.k_direction_is_down = True  # assumed direction
-            self.grid_is_right_handed = False  # todo: work it out from dxyz_dkji and crs xyz handedness
+            self.grid_is_right_handed = False  # updated below, when the crs is known
             self.has_split_coordinate_lines = False
             self.k_gaps = None
             self.k_gap_after_array = None
@@ -177,6 +177,9 @@ class RegularGrid(grr_g.Grid):
                 crs_uuid = new_crs.uuid
             self.crs_uuid = crs_uuid
             self.crs = rqc.Crs(parent_model, uuid = crs_uuid) if new_crs is None else new_crs
+            # note: rows of block vectors are in K, J, I order
+            ijk_is_as_xyz = (np.linalg.det(self.block_dxyz_dkji[::-1]) >= 0.0)
+            self.grid_is_right_handed = (ijk_is_as_xyz == self.crs.is_right_handed_xyz())
 
         else:
 
-- 
2.43.0


From b7aea8bbb32c2a132b4efed3c0b8f0673bdaca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 075/270] fix: auto handedness of a grid made from corner
 points was wrong where the crs z increases upwards

---
 resqpy/rq_import/_grid_from_cp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 1cd78c3..4729feb 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -532,9 +532,13 @@ class _GridFromCp:
             sample_cp = self.__cp_array[sample_kji0]
             self.__cell_ijk_lefthanded = (vec.clockwise(sample_cp[0, 0, 0], sample_cp[0, 1, 0], sample_cp[0, 0, 1]) >=
                                           0.0)
-            if not self.grid.k_direction_is_down:
+            k_is_down = self.grid.k_direction_is_down
+            sample_dz = np.mean(sample_cp[1, ..., 2]) - np.mean(sample_cp[0, ..., 2])
+            if sample_dz != 0.0:
+                k_is_down = ((sample_dz > 0.0) == bool(self.__crs.z_inc_down))
+            if not k_is_down:
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
-            if self.__crs.is_right_handed_xyz():
+            if self.__crs.is_right_handed_xy():
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
             self.grid.grid_is_right_handed = not self.__cell_ijk_lefthanded
         else:
-- 
2.43.0


From a8ab1457e861ec211f025ca8b6ea9fd58c75e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 076/270] fix: import_nexus did not convert y when xy and z
 length units differ

---
 resqpy/rq_import/_import_nexus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..eb70cab 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -251,7 +251,7 @@ def import_nexus(
     if corp_xy_units == corp_z_units and resqml_xy_units == resqml_z_units:
         bwam.convert_lengths(cp_array, corp_xy_units, resqml_xy_units)
     else:
-        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:1], corp_xy_units, resqml_xy_units)
+        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:2], corp_xy_units, resqml_xy_units)
         bwam.convert_lengths(cp_array[:, :, :, :, :, :, 2], corp_z_units, resqml_z_units)
 
     # invert z if required
-- 
2.43.0


From 5663cb310553885cf48ea86705a1a7da60f40333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 077/270] fix: import_nexus ignored the corp_eight_mode
 argument

---
 resqpy/rq_import/_import_nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index eb70cab..6a5013b 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -208,7 +208,8 @@ def import_nexus(
                 corp_bin = True,
                 comment_char = None,  # comment char will be detected automatically
                 data_free_of_comments = False,
-                use_binary = use_binary)
+                use_binary = use_binary,
+                eight_mode = corp_eight_mode)
         else:
             cp_binary_file = abt.cp_binary_filename(
                 corp_file, nexus_ordering = False)  # pure binary, not bespoke corp bin used above
@@ -226,7 +227,8 @@ def import_nexus(
                     corp_bin = False,
                     comment_char = None,  # comment char will be detected automatically
                     data_free_of_comments = False,
-                    use_binary = use_binary)
+                    use_binary = use_binary,
+                    eight_mode = corp_eight_mode)
                 if use_binary:
                     wd.write_pure_binary_data(cp_binary_file,
                                               cp_array)  # NB: this binary file is resequenced, not in nexus ordering!
-- 
2.43.0


From d90b3dcda4aad0a0e46292ca45d2f65aeea198ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 078/270] fix: import_nexus lost the active cell mask when a
 corner point file was imported without other properties

---
 resqpy/rq_import/_import_nexus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 6a5013b..3f82f19 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -486,6 +486,10 @@ def import_nexus(
     elif not ensemble_case_dirs_root:
         log.info('no static grid properties to import')
         prop_import_collection = None
+    if prop_import_collection is None and not using_vdb and grid.inactive is not None and np.any(grid.inactive):
+        # no other properties: a collection is still needed for the active cell property
+        prop_import_collection = rp.GridPropertyCollection()
+        prop_import_collection.set_grid(grid)
     grid.write_hdf5_from_caches(resqml_file_root + '.h5',
                                 geometry = False,
                                 imported_properties = prop_import_collection,
-- 
2.43.0


From b14beeb8d80cf747b12bb17196f75860fc85a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 079/270] fix: the volume of a cell with a face that is not
 planar took the twist of the face with the wrong sign

---
 resqpy/olio/volume.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..9c1d744 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -58,17 +58,17 @@ def tetra_cell_volume(cp, centre = None, off_hand = False):
     r0 = cp[0, 0, 0] - centre
     r1 = cp[1, 1, 1] - centre
     v = 0.0
-    v += _pyr(r0, cp[0, 0, 1] - cp[0, 0, 0], cp[0, 1, 1] - cp[0, 0, 0], cp[0, 1, 0] - cp[0, 0, 0],
+    v += _pyr(r0, cp[0, 1, 0] - cp[0, 0, 0], cp[0, 1, 1] - cp[0, 0, 0], cp[0, 0, 1] - cp[0, 0, 0],
               cp[0, 1, 0] - cp[0, 0, 1])
-    v += _pyr(r0, cp[1, 0, 0] - cp[0, 0, 0], cp[1, 0, 1] - cp[0, 0, 0], cp[0, 0, 1] - cp[0, 0, 0],
+    v += _pyr(r0, cp[0, 0, 1] - cp[0, 0, 0], cp[1, 0, 1] - cp[0, 0, 0], cp[1, 0, 0] - cp[0, 0, 0],
               cp[0, 0, 1] - cp[1, 0, 0])
-    v += _pyr(r0, cp[0, 1, 0] - cp[0, 0, 0], cp[1, 1, 0] - cp[0, 0, 0], cp[1, 0, 0] - cp[0, 0, 0],
+    v += _pyr(r0, cp[1, 0, 0] - cp[0, 0, 0], cp[1, 1, 0] - cp[0, 0, 0], cp[0, 1, 0] - cp[0, 0, 0],
               cp[1, 0, 0] - cp[0, 1, 0])
-    v += _pyr(r1, cp[1, 0, 1] - cp[1, 1, 1], cp[1, 0, 0] - cp[1, 1, 1], cp[1, 1, 0] - cp[1, 1, 1],
+    v += _pyr(r1, cp[1, 1, 0] - cp[1, 1, 1], cp[1, 0, 0] - cp[1, 1, 1], cp[1, 0, 1] - cp[1, 1, 1],
               cp[1, 1, 0] - cp[1, 0, 1])
-    v += _pyr(r1, cp[1, 1, 0] - cp[1, 1, 1], cp[0, 1, 0] - cp[1, 1, 1], cp[0, 1, 1] - cp[1, 1, 1],
+    v += _pyr(r1, cp[0, 1, 1] - cp[1, 1, 1], cp[0, 1, 0] - cp[1, 1, 1], cp[1, 1, 0] - cp[1, 1, 1],
               cp[0, 1, 1] - cp[1, 1, 0])
-    v += _pyr(r1, cp[0, 1, 1] - cp[1, 1, 1], cp[0, 0, 1] - cp[1, 1, 1], cp[1, 0, 1] - cp[1, 1, 1],
+    v += _pyr(r1, cp[1, 0, 1] - cp[1, 1, 1], cp[0, 0, 1] - cp[1, 1, 1], cp[0, 1, 1] - cp[1, 1, 1],
               cp[1, 0, 1] - cp[0, 1, 1])
 
     if off_hand:
@@ -114,8 +114,8 @@ def tetra_volumes(cp, centres = None, off_hand = False):
        those length units cubed
     """
 
-    def pyrs(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid (for each cell)
-        return np.sum(ra * np.cross(db, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
+    def pyrs(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid (for each cell)
+        return np.sum(ra * np.cross(bd, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ab, ad), axis = -1)
 
     # Pagoda style corner point data
     assert cp.ndim == 7
-- 
2.43.0


From 9703e9204f20cd549a896af6a57a63d99d829716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 080/270] fix: cells of a hexahedral grid made from a grid with
 z upwards had negative volumes: handedness of faces

---
 resqpy/unstructured/_hexa_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..51db6b2 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -190,8 +190,8 @@ class HexaGrid(rug.UnstructuredGrid):
         # here the assumption is clockwise ordering of nodes viewed from within cell means 'right handed'
         hexa_grid.cell_face_is_right_handed = np.zeros(6 * hexa_grid.cell_count,
                                                        dtype = bool)  # initially set to left handed
-        # if IJK grid's ijk handedness matches the xyz handedness, then set +ve faces to right handed; else -ve faces
-        if ijk_grid.off_handed():
+        # if IJK grid is right handed, the above node ordering makes the -ve faces right handed; else +ve faces
+        if ijk_grid.extract_grid_is_right_handed():
             hexa_grid.cell_face_is_right_handed[0::2] = True  # negative faces are right handed
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
-- 
2.43.0


From 4356bb4214d0eb96d59feb7070c9c20876883f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 081/270] fix: pinched_out() ignored the tolerance once flags
 were cached, and differed for a single undefined cell

---
 resqpy/grid/_cell_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..a264551 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -292,7 +292,7 @@ def pinched_out(grid,
     if cache_pinchout_array is None:
         cache_pinchout_array = (cell_kji0 is None)
 
-    if grid.pinchout is not None:
+    if grid.pinchout is not None and getattr(grid, 'pinchout_tolerance', tolerance) == tolerance:
         if cell_kji0 is None:
             return grid.pinchout
         return grid.pinchout[tuple(cell_kji0)]
@@ -308,12 +308,13 @@ def pinched_out(grid,
         cache_cp_array = cache_cp_array,  # deprecated
         cache_thickness_array = cache_thickness_array or cache_pinchout_array)
     if cache_pinchout_array:
+        grid.pinchout_tolerance = tolerance
         grid.pinchout = np.where(np.isnan(grid.array_thickness), True, np.logical_not(grid.array_thickness > tolerance))
         if cell_kji0 is None:
             return grid.pinchout
         return grid.pinchout[tuple(cell_kji0)]
     if thick is not None:
-        return thick <= tolerance
+        return not (thick > tolerance)
     return None
 
 
-- 
2.43.0


From 3e1a17f01f9c90e457026095d616987eb25d0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 082/270] fix: asking for volumes in another unit changed
 arrays already returned, and the volume property

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index a264551..a728841 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,7 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom, required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From 53d329308f17fe202d177c595a8a86b393866e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 083/270] fix: thickness of one cell from a property, without
 caching, raised AttributeError

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index a728841..ec70021 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -85,7 +85,7 @@ def thickness(grid,
             grid.array_thickness = thick.copy()
         if cell_kji0 is None:
             return grid.array_thickness
-        return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
+        return thick[tuple(cell_kji0)]  # could check for nan here and return None
 
     points_root = grid.resolve_geometry_child('Points', child_node = points_root)
     if cache_thickness_array:
-- 
2.43.0


From 0bf0790f8cf98e6b5ca6e4d7e2d1441f57d4e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 084/270] fix: extract_inactive_mask returned an array of
 floats for a fully active grid

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 049b85c..9650030 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -501,7 +501,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
     geom_defined = grr_dg.cell_geometry_is_defined_ref(grid)
     if grid.inactive is None:
         if geom_defined is None or geom_defined is True:
-            grid.inactive = np.zeros(tuple(grid.extent_kji))  # ie. all active
+            grid.inactive = np.zeros(tuple(grid.extent_kji), dtype = bool)  # ie. all active
         else:
             grid.inactive = np.logical_not(grr_dg.cell_geometry_is_defined_ref(grid))
     if check_pinchout:
-- 
2.43.0


From 639d8cfb49084c64d50452eda401e2a0b2c588b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 085/270] fix: pinch-out connections: the second of two
 pinch-outs in a column was missed; cells apart from each other were connected
 across cells without geometry and layer gaps

---
 resqpy/fault/_gcs_functions.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..0e0f196 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -36,6 +36,8 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
     assert grid is not None
 
     po = grid.pinched_out()
+    # cells without geometry are flagged as pinched out but do not bring the cells above and below into contact
+    undefined = np.isnan(grid.thickness())
     dead = grid.extract_inactive_mask() if skip_inactive else None
 
     cip_list = []  # cell index pair list
@@ -51,20 +53,17 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                 if ka >= grid.nk - 1:
                     break
                 # ka now in non-pinched out cell above pinchout
-                if (skip_inactive and dead[ka, j, i]) or (grid.k_gaps and grid.k_gap_after_array[ka]):
-                    ka += 1
-                    continue
                 kb = ka + 1
                 while kb < grid.nk and po[kb, j, i]:
                     kb += 1
                 if kb >= grid.nk:
                     break
-                if skip_inactive and dead[kb, j, i]:
-                    ka = kb + 1
-                    continue
                 # kb now beneath pinchout
-                cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
-                ka = kb + 1
+                separated = (np.any(undefined[ka:kb + 1, j, i]) or
+                             (grid.k_gaps and np.any(grid.k_gap_after_array[ka:kb])))
+                if not (separated or (skip_inactive and (dead[ka, j, i] or dead[kb, j, i]))):
+                    cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
+                ka = kb  # which may itself be above another pinchout
 
     log.debug(f'{len(cip_list)} pinchout connections found')
 
-- 
2.43.0


From 2671046ffedf52c70f8a9989d14c242f5a1d559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 086/270] fix: find_faults lost a fault when every internal
 column face is faulted

---
 resqpy/grid/_faults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_faults.py b/resqpy/grid/_faults.py
index 33df029..97cd74b 100644
--- a/resqpy/grid/_faults.py
+++ b/resqpy/grid/_faults.py
@@ -78,8 +78,8 @@ def find_faults(grid, set_face_sets = False, create_organizing_objects_where_nee
                     kelp_i = np.where(kelp_i == i_id, j_id, kelp_i)
                     kelp_j = np.where(kelp_j == i_id, j_id, kelp_j)
 
-    fault_id_list = np.unique(np.concatenate(
-        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))[1:]  # discard zero from list
+    fault_id_list = np.unique(np.concatenate((np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))
+    fault_id_list = fault_id_list[fault_id_list > 0]  # discard zero from list
     log.info('number of distinct faults: ' + str(fault_id_list.size))
     # for each fault id, make pair of tuples of kelp locations
     grid.fault_dict = {}  # maps fault_id to pair (j faces, i faces) of array of [j, i] kelp indices for that fault_id
-- 
2.43.0


From 77d35b870c524175b5fdfddbd53a2d9a60bdfe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 087/270] fix: fault connections: crash or no connections for
 pillars partly without geometry, wrong fractions for pillars of zero length

---
 resqpy/olio/transmission.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 0cd8613..ed969eb 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -515,6 +515,20 @@ def fault_connection_set(grid, skip_inactive = False):
         # return True if no valid points in pillar
         return np.all(np.any(np.isnan(pillar), axis = -1))
 
+    def pillar_vectors(p):
+        # return unit vectors between first and last valid points of pillars; zero vector for a pillar of zero length
+        valid = np.logical_not(np.any(np.isnan(p), axis = -1))
+        pillars = np.arange(p.shape[1])
+        first = np.argmax(valid, axis = 0)
+        last = p.shape[0] - 1 - np.argmax(valid[::-1], axis = 0)
+        v = np.nan_to_num(p[last, pillars] - p[first, pillars])
+        length = np.sqrt(np.sum(v * v, axis = -1, keepdims = True))
+        return v / np.where(length > 0.0, length, 1.0)
+
+    def mean_pillar_vector(pv_m, pv_p):
+        # return mean of a pair of unit vectors, disregarding either one if it is zero
+        return 0.5 * (pv_m + pv_p) if np.any(pv_m) and np.any(pv_p) else pv_m + pv_p
+
     def juxtapose(grid, p, pv, pam, pap, pbm, pbp, tol = 0.001):
         # return list of juxtaposed layer pairs and fractional areas: list of (ka, kb, fa, fb) and error info
         # TODO: orthogonal offset tolerance on pillars
@@ -949,10 +963,14 @@ def fault_connection_set(grid, skip_inactive = False):
             else:
                 raise Exception(f'unexpected juxtaposition pattern ({fla}, {flb})')
 
-        pav = 0.5 * (pv[pam] + pv[pap])  # mean pillar unit vector for -I side of J face
-        pbv = 0.5 * (pv[pbm] + pv[pbp])  # mean pillar unit vector for +I side of J face
         if all_nan(p[:, pam, :]) or all_nan(p[:, pap, :]) or all_nan(p[:, pbm, :]) or all_nan(p[:, pbp, :]):
-            return []
+            return [], (0, 0, 1.0, 1.0)
+        pav = mean_pillar_vector(pv[pam], pv[pap])  # mean pillar unit vector for -I side of J face
+        pbv = mean_pillar_vector(pv[pbm], pv[pbp])  # mean pillar unit vector for +I side of J face
+        if not np.any(pav):
+            pav = pbv  # all cells are pinched out at the pillar
+        elif not np.any(pbv):
+            pbv = pav
         o = np.nanmin(p[:, pam, :], axis = 0)  # arbitrary local origin
         oe = np.expand_dims(o, 0)
         paml = p[:, pam, :] - oe  # pillar points translated to local space
@@ -1063,7 +1081,7 @@ def fault_connection_set(grid, skip_inactive = False):
     skip_inactive = skip_inactive and hasattr(grid, 'inactive') and grid.inactive is not None
 
     p = grid.points_ref(masked = False)  # shape (nk + k_gaps + 1, np, 3)
-    pv = vec.unit_vectors(p[-1] - p[0])  # pillar vectors; shape (np, 3); could postpone to individual pillar work
+    pv = pillar_vectors(p)  # pillar vectors; shape (np, 3); could postpone to individual pillar work
     col_j_split, col_i_split = grid.split_column_faces(
     )  # internal only column faces; shapes (nj - 1, ni), (nj, ni - 1)
     pfc = grid.create_column_pillar_mapping()  # pillars for column; shape (nj, ni, 2, 2)
-- 
2.43.0


From 7c6774534c9cc077a7f58f3a3d066f8890b5b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 088/270] fix: half cell transmissibilities could not be
 computed for an unfaulted grid with layer gaps

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index ed969eb..0c10028 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -290,8 +290,8 @@ def half_cell_t_irregular(grid,
                 if grid.k_gaps:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][kp][:, :, 1:] + edge_vectors[1][kp][:, :, :-1] +
                                                        edge_vectors[1][km][:, :, 1:] + edge_vectors[1][km][:, :, :-1])
-                    face_areas = (projected_tri_area(p[km][:, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
-                                  projected_tri_area(p[km][:, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
+                    face_areas = (projected_tri_area(p[km][:, :, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
+                                  projected_tri_area(p[km][:, :, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
                 else:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][1:, :, 1:] + edge_vectors[1][1:, :, :-1] +
                                                        edge_vectors[1][:-1, :, 1:] + edge_vectors[1][:-1, :, :-1])
-- 
2.43.0


From 600d90820a97007cfce9d21a36f163aafab99b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 089/270] fix: face multipliers and absolute face
 transmissibilities could not be applied: arrays of mismatched shape

---
 resqpy/grid/_transmissibility.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..e308f2b 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -209,6 +209,7 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj, grid.ni + 1)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, :, 1:-1]))
+            tr_mult = tr_mult[:, :, 1:-1]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -223,7 +224,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute I face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, :, 1:-1] <= 0.0)
+            tr_abs = tr_abs[:, :, 1:-1]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     return i_tr
@@ -262,6 +264,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj + 1, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, 1:-1, :]))
+            tr_mult = tr_mult[:, 1:-1, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -276,7 +279,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute J face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, 1:-1, :] <= 0.0)
+            tr_abs = tr_abs[:, 1:-1, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
@@ -314,6 +318,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_mult is not None:
             assert tr_mult.shape == (grid.nk + 1, grid.nj, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[1:-1, :, :]))
+            tr_mult = tr_mult[1:-1, :, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -342,7 +347,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute K face transmissibility modification')
             assert tr_abs.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[1:-1, :, :] <= 0.0)
+            tr_abs = tr_abs[1:-1, :, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
-- 
2.43.0


From 05b17564769abd4802f6d93e10249f56cb05c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 090/270] fix: transmissibility() without use of properties
 raised UnboundLocalError; arrays cached with one modifier mode were returned
 for another

---
 resqpy/grid/_transmissibility.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index e308f2b..2131f20 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -65,8 +65,12 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
     # todo: improve handling of units: check uom for half cell transmissibility property and for absolute modifiers
 
     k_tr = j_tr = i_tr = None
+    pc = grid.extract_property_collection()
 
-    if realization is None:
+    # cached arrays are those for the default options only
+    use_cache = (realization is None and use_tr_properties and modifier_mode is None)
+
+    if use_cache:
         if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
             k_tr = grid.array_k_transmissibility
         if hasattr(grid, 'array_j_transmissibility') and grid.array_j_transmissibility is not None:
@@ -76,8 +80,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
 
-        pc = grid.extract_property_collection()
-
         composite_tr = pc.single_array_ref(property_kind = 'transmissibility',
                                            realization = realization,
                                            continuous = True,
@@ -96,7 +98,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                 k_tr = composite_tr[:(grid.nk + 1) * grid.nj * grid.ni].reshape((grid.nk + 1, grid.nj, grid.ni))
             if k_tr is not None:
                 assert k_tr.shape == (grid.nk + 1, grid.nj, grid.ni)
-                if realization is None:
+                if use_cache:
                     grid.array_k_transmissibility = k_tr
 
         if j_tr is None:
@@ -113,7 +115,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                     (grid.nk, grid.nj + 1, grid.ni))
             if j_tr is not None:
                 assert j_tr.shape == (grid.nk, grid.nj + 1, grid.ni)
-                if realization is None:
+                if use_cache:
                     grid.array_j_transmissibility = j_tr
 
         if i_tr is None:
@@ -129,7 +131,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
                 i_tr = composite_tr[offset:].reshape((grid.nk, grid.nj, grid.ni + 1))
             if i_tr is not None:
                 assert i_tr.shape == (grid.nk, grid.nj, grid.ni + 1)
-                if realization is None:
+                if use_cache:
                     grid.array_i_transmissibility = i_tr
 
     if k_tr is None or j_tr is None or i_tr is None:
@@ -148,10 +150,14 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
         if k_tr is None:
             k_tr = __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization, tolerance)
+            if use_cache:
+                grid.array_k_transmissibility = k_tr
 
         if j_tr is None:
             j_tr = __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization, split_column_edges_j,
                                             tolerance)
+            if use_cache:
+                grid.array_j_transmissibility = j_tr
 
         if i_tr is None:
             i_tr = __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization, split_column_edges_i,
@@ -283,8 +289,6 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
-        grid.array_j_transmissibility = j_tr
     return j_tr
 
 
@@ -351,8 +355,6 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
-        grid.array_k_transmissibility = k_tr
     return k_tr
 
 
-- 
2.43.0


From 683dc7b01a530d319f0e2c0568a772aed76ed936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 091/270] fix: half cell transmissibility or faces per cell
 multiplier properties could not be used; tolerance was ignored

---
 resqpy/grid/_transmissibility.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 2131f20..8373c6d 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -179,6 +179,7 @@ def __faces_per_cell_multiplier(grid, half_t, pc, realization):
         log.warning('no faces per cell transmissibility multiplier found when calculating transmissibilities')
     else:
         log.debug('applying faces per cell transmissibility multipliers')
+        half_t_mult = pc.combobulated_face_array(half_t_mult)
         half_t = np.where(np.isnan(half_t_mult), half_t, half_t * half_t_mult)
     return half_t, pc
 
@@ -384,27 +385,27 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
 
     # todo: allow passing of property uuids for ntg, k_k, j, i
 
-    if realization is None and hasattr(grid, 'array_half_cell_t'):
+    if realization is None and use_property and hasattr(grid, 'array_half_cell_t'):
         return grid.array_half_cell_t
 
     half_t = None
 
     if use_property:
-        pc = grid.property_collection
+        pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
                                             realization = realization,
                                             continuous = True,
                                             count = 1,
                                             indexable = 'faces per cell')
-        if half_t_resqml:
+        if half_t_resqml is not None:
             assert half_t_resqml.shape == (grid.nk, grid.nj, grid.ni, 6)
-            half_t = pc.combobulate(half_t_resqml)
+            half_t = pc.combobulated_face_array(half_t_resqml)
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-        half_t = rqtr.half_cell_t(grid, realization = realization)
+        half_t = rqtr.half_cell_t(grid, realization = realization, tolerance = tolerance)
 
-    if realization is None:
+    if realization is None and use_property:
         grid.array_half_cell_t = half_t
 
     return half_t
-- 
2.43.0


From 4225823b3180db17c5789c8d4722cb55eb8620f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 092/270] fix: transmissibility of a connection used the face
 of the first cell for both cells; crash for a set with arrays not loaded; NaN
 results

---
 resqpy/fault/_grid_connection_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..05eb886 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1882,6 +1882,7 @@ class GridConnectionSet(BaseResqpy):
             if mult_array is None:
                 feature_mult_list = self.get_property_by_feature_index_list()
 
+        self.cache_arrays()
         count = self.count
         if fa is not None:
             assert fa.shape == (count, 2)
@@ -1896,7 +1897,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
@@ -1907,7 +1908,7 @@ class GridConnectionSet(BaseResqpy):
                 kji0_p = self.grid_list[gi_p].denaturalized_cell_index(self.cell_index_pairs[e, 1])
             half_t_m = half_t_list[gi_m][kji0_m[0], kji0_m[1], kji0_m[2], axis_m, polarity_m]
             half_t_p = half_t_list[gi_p][kji0_p[0], kji0_p[1], kji0_p[2], axis_p, polarity_p]
-            if half_t_m < tol_half_t or half_t_p < tol_half_t:
+            if not (half_t_m >= tol_half_t and half_t_p >= tol_half_t):  # note: NaNs yield zero
                 continue
             if fa is not None:
                 fa_m, fa_p = fa[e]
-- 
2.43.0


From 635ec77c255d1dfddd28f920848fdf3ebfe0ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 093/270] fix: transmissibilities cached for one connection set
 were returned for another; property not added when values were already cached

---
 resqpy/grid/_connection_sets.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/resqpy/grid/_connection_sets.py b/resqpy/grid/_connection_sets.py
index 4325d7c..01c6a42 100644
--- a/resqpy/grid/_connection_sets.py
+++ b/resqpy/grid/_connection_sets.py
@@ -40,14 +40,14 @@ def fault_connection_set(grid,
     if not hasattr(grid, 'fgcs') or grid.fgcs_skip_inactive != skip_inactive:
         grid.fgcs, grid.fgcs_fractional_area = rqtr.fault_connection_set(grid, skip_inactive = skip_inactive)
         grid.fgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_fgcs_transmissibility'):
+            del grid.array_fgcs_transmissibility  # values are for a previous connection set
 
     if grid.fgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_fgcs_transmissibility'):
         grid.array_fgcs_transmissibility = grid.fgcs.tr_property_array(grid.fgcs_fractional_area)
-        new_tr = True
 
     tr = grid.array_fgcs_transmissibility if hasattr(grid, 'array_fgcs_transmissibility') else None
 
@@ -59,7 +59,7 @@ def fault_connection_set(grid,
         if grid.model.uuid(uuid = grid.fgcs.uuid) is None:
             grid.fgcs.write_hdf5()
             grid.fgcs.create_xml(title = title)
-        if new_tr:
+        if compute_transmissibility and not getattr(grid.fgcs, 'transmissibility_added', False):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.fgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -74,6 +74,7 @@ def fault_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.fgcs.transmissibility_added = True
 
     return grid.fgcs, tr
 
@@ -105,14 +106,14 @@ def pinchout_connection_set(grid,
     if not hasattr(grid, 'pgcs') or grid.pgcs_skip_inactive != skip_inactive:
         grid.pgcs = rqf.pinchout_connection_set(grid, skip_inactive = skip_inactive)
         grid.pgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_pgcs_transmissibility'):
+            del grid.array_pgcs_transmissibility  # values are for a previous connection set
 
     if grid.pgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_pgcs_transmissibility'):
         grid.array_pgcs_transmissibility = grid.pgcs.tr_property_array()
-        new_tr = True
 
     tr = grid.array_pgcs_transmissibility if hasattr(grid, 'array_pgcs_transmissibility') else None
 
@@ -120,7 +121,7 @@ def pinchout_connection_set(grid,
         if grid.model.uuid(uuid = grid.pgcs.uuid) is None:
             grid.pgcs.write_hdf5()
             grid.pgcs.create_xml()
-        if new_tr:
+        if compute_transmissibility and not getattr(grid.pgcs, 'transmissibility_added', False):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.pgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -135,6 +136,7 @@ def pinchout_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.pgcs.transmissibility_added = True
 
     return grid.pgcs, tr
 
@@ -172,14 +174,14 @@ def k_gap_connection_set(grid,
     if not hasattr(grid, 'kgcs') or grid.kgcs_skip_inactive != skip_inactive:
         grid.kgcs = rqf.k_gap_connection_set(grid, skip_inactive = skip_inactive, tolerance = tolerance)
         grid.kgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_kgcs_transmissibility'):
+            del grid.array_kgcs_transmissibility  # values are for a previous connection set
 
     if grid.kgcs is None:
         return None, None
 
-    new_tr = False
     if compute_transmissibility and not hasattr(grid, 'array_kgcs_transmissibility'):
         grid.array_kgcs_transmissibility = grid.kgcs.tr_property_array()
-        new_tr = True
 
     tr = grid.array_kgcs_transmissibility if hasattr(grid, 'array_kgcs_transmissibility') else None
 
@@ -187,7 +189,7 @@ def k_gap_connection_set(grid,
         if grid.model.uuid(uuid = grid.kgcs.uuid) is None:
             grid.kgcs.write_hdf5()
             grid.kgcs.create_xml()
-        if new_tr:
+        if compute_transmissibility and not getattr(grid.kgcs, 'transmissibility_added', False):
             tr_pc = rprop.PropertyCollection()
             tr_pc.set_support(support = grid.kgcs)
             tr_pc.add_cached_array_to_imported_list(
@@ -202,5 +204,6 @@ def k_gap_connection_set(grid,
                 count = 1)
             tr_pc.write_hdf5_for_imported_list()
             tr_pc.create_xml_for_imported_list_and_add_parts_to_model()
+            grid.kgcs.transmissibility_added = True
 
     return grid.kgcs, tr
-- 
2.43.0


From c433868c3f2f0fbe090b3e990e7b9503fc747f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 094/270] fix: a vertical prism grid with one layer could not
 be used

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..15aaca9 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -412,7 +412,7 @@ class VerticalPrismGrid(PrismGrid):
     def column_count(self):
         """Returns the number of columns in the grid."""
 
-        assert self.nk > 1, 'no layer information set for vertical prism grid'
+        assert self.nk is not None and self.nk > 0, 'no layer information set for vertical prism grid'
         n_col, remainder = divmod(self.cell_count, self.nk)
         assert remainder == 0, 'code failure for vertical prism grid: cell and layer counts not compatible'
         return n_col
-- 
2.43.0


From 9abee41d7ebdf22f3fb2ecd72687ede05264b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 095/270] fix: half cell transmissibilities of upright prism
 faces lacked the height of the face

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 0c10028..3e510d4 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -425,8 +425,8 @@ def half_cell_t_vertical_prism(vpg,
     dt_full = np.empty((vpg.nk, vpg.cell_count // vpg.nk, 3), dtype = float)
     dt_full[:] = d_t
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
-                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape(
-                             (-1, 3))
+                         2.0 * np.expand_dims(half_thickness, axis = -1) * triple_perm_horizontal.reshape(
+                             (vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape((-1, 3))
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
 
-- 
2.43.0


From dde2f0bae91e93592c3bf0a7df824196a43552f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:10 +0000
Subject: [PATCH 096/270] fix: half cell transmissibilities and permeabilities
 of upright prism faces were not in the order of the faces

---
 resqpy/olio/transmission.py        | 4 +++-
 resqpy/unstructured/_prism_grid.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 3e510d4..b5fac75 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -374,7 +374,7 @@ def half_cell_t_vertical_prism(vpg,
     arguments:
        vpg (VerticalPrismGrid): the grid for which the half cell transmissibilities are required
        triple_perm_horizontal (numpy float array of shape (N, 3)): the directional permeabilities to apply
-          to each of the three vertical faces per cell
+          to each of the three vertical faces per cell, being the face opposite each node of the top triangle
        perm_k (numpy float array of shape (N,)): the permeability to use for the vertical transmissibilities
        ntg (numpy float array of shape (N,), optional): if present, acts as a multiplier in the
           computation of non-vertical transmissibilities
@@ -427,6 +427,8 @@ def half_cell_t_vertical_prism(vpg,
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
                          2.0 * np.expand_dims(half_thickness, axis = -1) * triple_perm_horizontal.reshape(
                              (vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape((-1, 3))
+    # re-order from face opposite each vertex of the top triangle, to order of faces in faces per cell
+    tr[:, 2:] = tr[:, (3, 4, 2)]
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
 
diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 15aaca9..41a8da6 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -549,7 +549,7 @@ class VerticalPrismGrid(PrismGrid):
         # mid point of triangle edges
         m = np.empty((t.shape[0], 3, 3), dtype = float)
         for e in range(3):
-            m[:, e, :] = 0.5 * (p[t[:, e]] + p[t[:, e - 1]])
+            m[:, e, :] = 0.5 * (p[t[:, e - 2]] + p[t[:, e - 1]])  # edge opposite vertex e
         # cell centre points
         c = self.centre_point()
         # todo: decide which directions to use: cell centre to face centre; or face normal?
-- 
2.43.0


From 0a77683cf793bec6f37475589a8d2f7d9221d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 097/270] fix: half cell transmissibility property of a prism
 grid could not be used; property collection not loaded

---
 resqpy/unstructured/_prism_grid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 41a8da6..7990ac0 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -601,11 +601,11 @@ class VerticalPrismGrid(PrismGrid):
            tolerance will only be used if the half cell transmissibilities are actually computed
         """
 
-        if realization is None and hasattr(self, 'array_half_cell_t'):
+        if realization is None and use_property and hasattr(self, 'array_half_cell_t'):
             return self.array_half_cell_t
 
         half_t = None
-        pc = self.property_collection
+        pc = self.extract_property_collection()
 
         if use_property:
             half_t = pc.single_array_ref(property_kind = 'transmissibility',
@@ -613,7 +613,7 @@ class VerticalPrismGrid(PrismGrid):
                                          continuous = True,
                                          count = 1,
                                          indexable = 'faces per cell')
-            if half_t:
+            if half_t is not None:
                 assert half_t.size == 5 * self.cell_count
                 half_t = half_t.reshape(self.cell_count, 5)
 
@@ -685,9 +685,10 @@ class VerticalPrismGrid(PrismGrid):
             half_t = rqtr.half_cell_t_vertical_prism(self,
                                                      triple_perm_horizontal = triple_perm_horizontal,
                                                      perm_k = perm_k,
-                                                     ntg = ntg)
+                                                     ntg = ntg,
+                                                     tolerance = tolerance)
 
-        if realization is None:
+        if realization is None and use_property:
             self.array_half_cell_t = half_t
 
         return half_t
-- 
2.43.0


From 91022f83b31e57766fa7c9a5efb6dff7b580bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 098/270] fix: thickness of prisms was negative with z
 increasing upwards

---
 resqpy/unstructured/_prism_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7990ac0..f532927 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -483,12 +483,13 @@ class VerticalPrismGrid(PrismGrid):
             return self.array_thickness[cell]
 
         cp = self.corner_points(cell = cell)
+        sign = 1.0 if rqc.Crs(self.model, uuid = self.crs_uuid).z_inc_down else -1.0  # note: layers are ordered downwards
 
         if cell is None:
-            thick = np.mean(cp[:, 1, :, 2] - cp[:, 0, :, 2], axis = -1)
+            thick = sign * np.mean(cp[:, 1, :, 2] - cp[:, 0, :, 2], axis = -1)
             self.array_thickness = thick
         else:
-            thick = np.mean(cp[1, :, 2] - cp[0, :, 2])
+            thick = sign * np.mean(cp[1, :, 2] - cp[0, :, 2])
 
         return thick
 
-- 
2.43.0


From 7a5228559eb1b4b1123766e04d95cfb70d392f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 099/270] fix: from_faces_indices used the default grid, not
 the one given; properties not sorted with face indices without duplicates

---
 resqpy/fault/_grid_connection_set.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 05eb886..2d189ae 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -252,7 +252,7 @@ class GridConnectionSet(BaseResqpy):
         """
         assert isinstance(grid, grr.Grid)
 
-        gcs = cls(grid.model, title = title, originator = originator, extra_metadata = extra_metadata)
+        gcs = cls(grid.model, grid = grid, title = title, originator = originator, extra_metadata = extra_metadata)
 
         gcs._sort_out_organizing_objects(feature_type, feature_name, create_organizing_objects_where_needed)
 
@@ -2318,8 +2318,6 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
-        return a
     if not no_props:
         for i in range(len(props)):
             p = props[i][si]
-- 
2.43.0


From 8fefafac5b72b18b60f79480963ec4a713936de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 100/270] fix: face table for faults with existing
 interpretations, or without creation of objects, raised UnboundLocalError

---
 resqpy/fault/_grid_connection_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 2d189ae..76ea9c4 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -719,6 +719,7 @@ class GridConnectionSet(BaseResqpy):
         const_mult = True
         for fi_part in fi_parts_list:
             fi_dict[self.model.title_for_part(fi_part).split()[0].lower()] = self.model.uuid_for_part(fi_part)
+        tbf_parts_list = []
         if create_organizing_objects_where_needed:
             tbf_parts_list = self.model.parts_list_of_type('TectonicBoundaryFeature')
 
@@ -2084,11 +2085,11 @@ class GridConnectionSet(BaseResqpy):
             if name.lower() in fault_tmult_dict:
                 fault_dict_multiplier = float(fault_tmult_dict[name.lower()])
         # fetch uuid for fault interpretation object
+        fi_root = None  # only set for a new interpretation
         if name.lower() in fi_dict:
             fi_uuid = fi_dict[name.lower()]
         elif create_organizing_objects_where_needed:
             tbf = None
-            fi_root = None
             for tbf_part in tbf_parts_list:
                 if name.lower() == self.model.title_for_part(tbf_part).split()[0].lower():
                     tbf = rqo.TectonicBoundaryFeature(self.model, uuid = self.model.uuid_for_part(tbf_part))
-- 
2.43.0


From 435c8e445e4af1133214f8f98d05b10f8dc04f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 101/270] fix: face table with lower case single letter faces,
 or with other than a range index, raised an error

---
 resqpy/fault/_gcs_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0e0f196..dd003db 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -489,7 +489,7 @@ def standardize_face_indicator_in_faces_df(faces):
 
     # todo: convert XYZ into IJK respectively?
     temp = faces['face'].copy().str.upper()
-    temp[faces['face'].str.len() == 1] = faces['face'][faces['face'].str.len() == 1] + '+'
+    temp[temp.str.len() == 1] += '+'
     for u in temp.unique():
         s = str(u)
         assert len(s) == 2, 'incorrect length to face string in fault dataframe: ' + s
@@ -518,7 +518,7 @@ def remove_external_faces_from_faces_df(faces, extent_kji, remove_all_k_faces =
         if remove_all_k_faces and f[0] == 'K':
             continue
         filtered.append(i)
-    return faces.loc[filtered]
+    return faces.iloc[filtered]
 
 
 def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
-- 
2.43.0


From 4e4676e021f823d820062254e53b8a53e2f36fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 102/270] fix: filtering by layer range with one limit raised
 TypeError; unused features kept when nothing to filter; crash filtering a set
 with arrays not loaded by mask

---
 resqpy/fault/_grid_connection_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 76ea9c4..13e06ea 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -847,13 +847,15 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by layer range'
         grid = self.grid_list[0]
-        if min_k0 <= 0:
+        if min_k0 is not None and min_k0 <= 0:
             min_k0 = None
-        if max_k0 >= grid.extent_kji[0] - 1:
+        if max_k0 is not None and max_k0 >= grid.extent_kji[0] - 1:
             max_k0 = None
         if min_k0 is None and max_k0 is None:
             dupe = GridConnectionSet(self.model, grid = grid)
             dupe.append(self)
+            if pare_down:
+                dupe.clean_feature_list()
             return (dupe, np.arange(self.count)) if return_indices else dupe
         mask = np.zeros(grid.extent_kji, dtype = bool)
         if min_k0 is not None and max_k0 is not None:
@@ -887,6 +889,7 @@ class GridConnectionSet(BaseResqpy):
            select equivalent entries from associated properties
         """
 
+        self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by cell mask'
         grid = self.grid_list[0]
         flat_extent = grid.cell_count()
-- 
2.43.0


From 6100aefdb91a52ec11fa3e8d2ce92ccc7d144ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 103/270] fix: append to a connection set loaded from file
 failed; features list changed in sets sharing it; feature indices overflowed

---
 resqpy/fault/_grid_connection_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 13e06ea..ce58094 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -775,17 +775,18 @@ class GridConnectionSet(BaseResqpy):
             self.cell_index_pairs = other.cell_index_pairs.copy()
             self.face_index_pairs = other.face_index_pairs.copy()
         else:
+            self.cache_arrays()
             if self.feature_list is None or other.feature_list is None:
                 feature_offset = 0
                 self.feature_list = None
                 self.feature_indices = None
             else:
                 feature_offset = len(self.feature_list)
-                self.feature_list += other.feature_list
+                self.feature_list = self.feature_list + other.feature_list
             if self.feature_indices is None or other.feature_indices is None:
                 combined_feature_indices = None
             else:
-                combined_feature_indices = np.concatenate((self.feature_indices, other.feature_indices))
+                combined_feature_indices = np.concatenate((self.feature_indices, other.feature_indices)).astype(np.int32)
                 combined_feature_indices[self.count:] += feature_offset
             combined_cell_index_pairs = np.concatenate((self.cell_index_pairs, other.cell_index_pairs))
             combined_face_index_pairs = np.concatenate((self.face_index_pairs, other.face_index_pairs))
-- 
2.43.0


From d218294f99765fca0f5d603d5d135d83f02a42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:39 +0000
Subject: [PATCH 104/270] fix: inherit_features raised TypeError for a feature
 already present; feature indices wrong after removal of an unused feature

---
 resqpy/fault/_grid_connection_set.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index ce58094..b316aaa 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1972,14 +1972,16 @@ class GridConnectionSet(BaseResqpy):
         assert tuple(self.grid_list[0].extent_kji) == tuple(featured.grid_list[0].extent_kji)
 
         # build combined feature list and mapping of feature indices
+        self.cache_arrays()
         featured.cache_arrays()
+        self.feature_list = self.feature_list.copy()
         original_feature_count = len(self.feature_list)
         featured_index_map = []  # maps from feature index in featured to extended feature list in this set
         feature_uuid_list = [bu.uuid_from_string(u) for _, u, _ in self.feature_list]  # bu call probably not needed
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
@@ -2023,12 +2025,9 @@ class GridConnectionSet(BaseResqpy):
         for fi in range(original_feature_count):
             if fi not in self.feature_indices:
                 removals.append(fi)
-        reduction = len(removals)
-        if reduction > 0:
-            while len(removals) > 0:
-                self.feature_list.pop(removals[-1])
-                removals.pop()
-            self.feature_indices[:] -= reduction
+        for fi in reversed(removals):
+            self.feature_list.pop(fi)
+            self.feature_indices[self.feature_indices > fi] -= 1
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
-- 
2.43.0


From ad10155c42ac3a0014a21dfcfae440c1f47f746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:21 +0000
Subject: [PATCH 105/270] fix: multi grid connection sets: listing pairs and
 single_feature failed or gave cell indices of the wrong grid

---
 resqpy/fault/_grid_connection_set.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index b316aaa..1457193 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -815,8 +815,11 @@ class GridConnectionSet(BaseResqpy):
         if feature_index < 0 or feature_index >= len(self.feature_list):
             return None
         singleton = GridConnectionSet(self.model, grid = self.grid_list[0])
-        singleton.cell_index_pairs, singleton.face_index_pairs =  \
-           self.raw_list_of_cell_face_pairs_for_feature_index(feature_index)
+        raw_lists = self.raw_list_of_cell_face_pairs_for_feature_index(feature_index)
+        singleton.cell_index_pairs, singleton.face_index_pairs = raw_lists[:2]
+        if len(raw_lists) > 2:
+            singleton.grid_list = self.grid_list.copy()
+            singleton.grid_index_pairs = raw_lists[2]
         singleton.count = singleton.cell_index_pairs.shape[0]
         singleton.feature_indices = np.zeros((singleton.count,), dtype = np.int32)
         singleton.feature_list = [self.feature_list[feature_index]]
@@ -1199,6 +1202,8 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         if feature_index is None:
             pairs_tuple = (self.cell_index_pairs, self.face_index_pairs)
+            if len(self.grid_list) > 1:
+                pairs_tuple = (self.cell_index_pairs, self.face_index_pairs, self.grid_index_pairs)
         else:
             if self.feature_indices is None:
                 return None
@@ -1210,6 +1215,10 @@ class GridConnectionSet(BaseResqpy):
             raw_cell_pairs, raw_face_pairs, grid_pairs = pairs_tuple
 
         cell_pairs = self.grid_list[0].denaturalized_cell_indices(raw_cell_pairs)
+        if grid_pairs is not None:
+            for grid_index in range(1, len(self.grid_list)):
+                mask = (grid_pairs == grid_index)
+                cell_pairs[mask] = self.grid_list[grid_index].denaturalized_cell_indices(raw_cell_pairs[mask])
         face_pairs = self.face_index_inverse_map[raw_face_pairs]
 
         if grid_pairs is None:
-- 
2.43.0


From 4cec7116122bbdb1073f3158edcf0d2a876cf201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 106/270] fix: baffle flags used as indices: wrong faces set to
 zero in grid_face_arrays

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 1457193..fec2f96 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2253,7 +2253,7 @@ class GridConnectionSet(BaseResqpy):
 
         baffle_mask = None
         if baffle_uuid is not None:
-            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref()
+            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref(dtype = bool)
             assert baffle_mask is not None
 
         # note that following arrays include external faces, in line with grid properties for 'faces'
-- 
2.43.0


From cd246aac7436fa3f076dadd5715052beb8668aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:52 +0000
Subject: [PATCH 107/270] fix: write_simulator merged rows of faces with
 different multipliers and wrote the multiplier of the next row

---
 resqpy/fault/_grid_connection_set.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index fec2f96..302f374 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1594,13 +1594,13 @@ class GridConnectionSet(BaseResqpy):
                     tmult_values = feat_mult_array[msi]
                     del both
                     k = None
-                    i = j = k2 = axis = polarity = None  # only needed to placate flake8 which whinges incorrectly otherwise
+                    i = j = k2 = axis = polarity = tmult = None  # only needed to placate flake8 which whinges incorrectly otherwise
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_values[row] != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1609,6 +1609,7 @@ class GridConnectionSet(BaseResqpy):
                             i = ip
                             j = jp
                             k = k2 = kp
+                            tmult = tmult_values[row]
                             axis = axis_p
                             polarity = polarity_p
                     if k is not None:
-- 
2.43.0


From c81a3fcc9095fbe38cc55579a5fe8734715cb946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 108/270] fix: columns property from a discrete connection set
 property failed with the default null value

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index dd003db..2e17e0c 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -285,7 +285,7 @@ def grid_columns_property_from_gcs_property(model,
             multiple_handling = 'mean'
     else:
         dtype = int
-        if null_value == np.nan:
+        if np.isnan(null_value):
             null_value = -1
         elif type(null_value) is float:
             null_value = int(null_value)
-- 
2.43.0


From 9e6cd8b1d1d998eba77a767076bc7085b9c4c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 109/270] fix: connection set made without any faces had index
 arrays of the wrong shape

---
 resqpy/fault/_grid_connection_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 302f374..afdc096 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -668,8 +668,8 @@ class GridConnectionSet(BaseResqpy):
                 else:
                     cell_pair_list.append((cell, cell + 1))
                     face_pair_list.append((self.face_index_map[2, 1], self.face_index_map[2, 0]))
-        self.cell_index_pairs = np.array(cell_pair_list, dtype = self.cell_index_dtype)
-        self.face_index_pairs = np.array(face_pair_list, dtype = np.int8)
+        self.cell_index_pairs = np.array(cell_pair_list, dtype = self.cell_index_dtype).reshape((-1, 2))
+        self.face_index_pairs = np.array(face_pair_list, dtype = np.int8).reshape((-1, 2))
         self.count = len(self.cell_index_pairs)
         self.feature_indices = np.zeros(self.count, dtype = np.int8)
         assert len(self.face_index_pairs) == self.count
@@ -731,8 +731,8 @@ class GridConnectionSet(BaseResqpy):
                 feature_index += 1
 
         self.feature_indices = np.array(fi_list, dtype = np.int32)
-        self.cell_index_pairs = np.array(cell_pair_list, dtype = self.cell_index_dtype)
-        self.face_index_pairs = np.array(face_pair_list, dtype = np.int8)
+        self.cell_index_pairs = np.array(cell_pair_list, dtype = self.cell_index_dtype).reshape((-1, 2))
+        self.face_index_pairs = np.array(face_pair_list, dtype = np.int8).reshape((-1, 2))
         self.count = len(self.cell_index_pairs)
         assert len(self.face_index_pairs) == self.count
         if create_mult_prop and self.count > 0:
-- 
2.43.0


From de6cec589cc2a905258a8ab050084d8d57701add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 110/270] fix: looking up a feature by name returned one whose
 name merely starts with the name given, when one with that name exists

---
 resqpy/fault/_grid_connection_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index afdc096..252ac3a 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1066,6 +1066,10 @@ class GridConnectionSet(BaseResqpy):
 
         if self.feature_list is None:
             return (None, None)
+        # an exact match is preferred, as the name of one fault can be the start of the name of another
+        for index, (_, uuid, title) in enumerate(self.feature_list):
+            if title == fault_name:
+                return (index, uuid)
         # the protocol adopted here is that the citation title must start with the fault name
         index = 0
         for (_, uuid, title) in self.feature_list:
-- 
2.43.0


From 040b8f94677d1ecffa91f067e17f01d6d30fd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 111/270] fix: column edge values of a feature without faces in
 the layer raised AttributeError

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 252ac3a..5a455f9 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1775,9 +1775,9 @@ class GridConnectionSet(BaseResqpy):
                                                                            max_k0 = ref_k,
                                                                            pare_down = False,
                                                                            return_indices = True)
-            assert layer_gcs.count == len(layer_indices)
-            if layer_gcs.count == 0:  # feature does not have any faces in reference layer
+            if layer_gcs is None or layer_gcs.count == 0:  # feature does not have any faces in reference layer
                 return None
+            assert layer_gcs.count == len(layer_indices)
             layer_prop_array = feature_prop_array[layer_indices]
             # fill in individual values rather laboriously
             property_value_by_column_edge = np.full(fault_by_column_edge_mask.shape, np.nan)
-- 
2.43.0


From f21e9f642f31583750de090e142391ac1dbade1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 112/270] fix: merging connection sets with a categorical
 property failed

---
 resqpy/fault/_grid_connection_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 5a455f9..8325240 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -405,11 +405,14 @@ class GridConnectionSet(BaseResqpy):
                     gcs_a[cumm_len:cumm_len + len(a)] = a
                     cumm_len += len(a)
                 assert cumm_len == gcs.count, 'size of merging grid connection set properties does not add up'
+                if sl_uuid is not None and source_model is not parent_model:
+                    parent_model.copy_uuid_from_other_model(source_model, sl_uuid)
                 pc.add_similar_to_imported_list(similar_uuid = prop_zero.uuid,
                                                 cached_array = gcs_a,
                                                 similar_model = source_model)
-            pc.write_hdf5_for_imported_list()
-            pc.create_xml_for_imported_list_and_add_parts_to_model(support_uuid = gcs.uuid)
+                pc.write_hdf5_for_imported_list()
+                pc.create_xml_for_imported_list_and_add_parts_to_model(support_uuid = gcs.uuid,
+                                                                       string_lookup_uuid = sl_uuid)
         return gcs
 
     def _load_from_xml(self):
-- 
2.43.0


From 90487f9edd9f4d6819a953d90143ed91ca214957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 113/270] fix: planar_face_points tilted faces the wrong way,
 so faces neither horizontal nor vertical were distorted

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..2684ced 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -691,11 +691,11 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         face_points[..., 2] = 0.0
         if not xy_plane:
             face_centre[2] = 0.0
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
             face_points[..., 2] += z_centre
-- 
2.43.0


From 512eea723c1c989f5c8ae538e4027feb10fcb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 114/270] fix: centre point of a single cell of a vertical
 prism grid had shape (1, 3)

---
 resqpy/unstructured/_prism_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index f532927..59558ec 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,7 +428,9 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
-        return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        if cell is None:
+            return np.mean(cp.reshape((-1, 6, 3)), axis = 1)
+        return np.mean(cp.reshape((6, 3)), axis = 0)
 
     def corner_points(self, cell = None):
         """Returns corner points for all cells or for a single cell.
-- 
2.43.0


From c7f7faeaa0e8cef239e890c1f613a8ecb13a374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 115/270] fix: hexa grid made without inheriting properties
 lost the inactive cells when stored

---
 resqpy/unstructured/_hexa_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 51db6b2..b1c9aa9 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -196,6 +196,8 @@ class HexaGrid(rug.UnstructuredGrid):
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
 
+        if write_active is None and not inherit_properties and hexa_grid.inactive is not None:
+            write_active = True  # otherwise any active property will be amongst those inherited
         hexa_grid.write_hdf5(write_active = write_active)
         hexa_grid.create_xml(write_active = write_active)
 
-- 
2.43.0


From d0bf366b43534d922bf1c1cbf03076f65597bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 116/270] fix: hexa grid from a grid with properties other than
 for cells raised ValueError

---
 resqpy/unstructured/_hexa_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index b1c9aa9..8f39428 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -205,6 +205,9 @@ class HexaGrid(rug.UnstructuredGrid):
             ijk_pc = ijk_grid.extract_property_collection()
             hexa_pc = rqp.PropertyCollection(support = hexa_grid)
             for part in ijk_pc.parts():
+                if ijk_pc.indexable_for_part(part) != 'cells':
+                    log.warning(f'property not inherited by hexa grid: {ijk_pc.citation_title_for_part(part)}')
+                    continue
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
                 hexa_pc.add_cached_array_to_imported_list(
-- 
2.43.0


From 211cd3f501dd795bf644b87a6107ab35811904d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 117/270] fix: handedness not set for tetra grid from a
 tetrahedral cell

---
 resqpy/unstructured/_tetra_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_tetra_grid.py b/resqpy/unstructured/_tetra_grid.py
index 06795da..8c59c01 100644
--- a/resqpy/unstructured/_tetra_grid.py
+++ b/resqpy/unstructured/_tetra_grid.py
@@ -269,8 +269,9 @@ class TetraGrid(rug.UnstructuredGrid):
             tetra.nodes_per_face = np.array(t_face_list, dtype = int).flatten()
 
             tetra.cell_face_is_right_handed = np.ones(len(tetra.faces_per_cell), dtype = bool)
-            if set_handedness:
-                tetra.set_cell_face_is_right_handed_from_geometry()
+
+        if set_handedness:
+            tetra.set_cell_face_is_right_handed_from_geometry()
 
         tetra.check_tetra()
 
-- 
2.43.0


From c99f8ad29b91aaf4e530ff9ce417a2fd8a89f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 118/270] fix: maximum face and node counts raised ValueError
 for a single cell or face

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 2684ced..ee8e274 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -453,7 +453,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of faces in use by any one cell."""
 
         self.cache_all_geometry_arrays()
-        return max(self.faces_per_cell_cl[0], np.max(self.faces_per_cell_cl[1:] - self.faces_per_cell_cl[:-1]))
+        return np.max(np.diff(self.faces_per_cell_cl, prepend = 0))
 
     def node_count_for_face(self, face_index):
         """Returns the number of nodes for a particular face."""
@@ -466,7 +466,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of nodes in use by any one face."""
 
         self.cache_all_geometry_arrays()
-        return max(self.nodes_per_face_cl[0], np.max(self.nodes_per_face_cl[1:] - self.nodes_per_face_cl[:-1]))
+        return np.max(np.diff(self.nodes_per_face_cl, prepend = 0))
 
     def node_indices_for_face(self, face_index):
         """Returns numpy list of node indices for a single face.
-- 
2.43.0


From bd978a91a8bdee5b78eab8758d5f54cc25d9b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 119/270] fix: area_of_face mixed units where the z units of
 the crs differ from the xy units

---
 resqpy/unstructured/_unstructured_grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index ee8e274..e94f3c8 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -736,7 +736,8 @@ class UnstructuredGrid(BaseResqpy):
            float being the area of the face
 
         notes:
-           units of measure of the area is implied by the units of the crs in use by the grid
+           units of measure of the area is implied by the units of the crs in use by the grid (the xy units
+           are used if they differ from the z units)
         """
 
         if in_plane:
@@ -746,6 +747,9 @@ class UnstructuredGrid(BaseResqpy):
         else:
             global_triangulation = self.face_triangulation(face_index)
             triangulated_points = self.points_cached[global_triangulation]
+            crs = rqc.Crs(self.model, uuid = self.crs_uuid)
+            if crs.xy_units != crs.z_units:
+                wam.convert_lengths(triangulated_points[..., 2], crs.z_units, crs.xy_units)
         assert triangulated_points.ndim == 3 and triangulated_points.shape[1:] == (3, 3)
         area = 0.0
         for tp in triangulated_points:
-- 
2.43.0


From b8c6a9dfe9cecdba458beb0c31e2c48d87fcd586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 120/270] fix: face_centre_point failed for a grid just loaded

---
 resqpy/unstructured/_unstructured_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index e94f3c8..d4e708b 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -440,6 +440,7 @@ class UnstructuredGrid(BaseResqpy):
            its barycentre
         """
 
+        self.cache_all_geometry_arrays()
         return np.mean(self.points_cached[self.node_indices_for_face(face_index)], axis = 0)
 
     def face_count_for_cell(self, cell):
-- 
2.43.0


From b242a4c5c30d4b1dcab0a3c0a67951fe71b069a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 121/270] fix: hexa grid from a grid with constant array
 properties raised AssertionError

---
 resqpy/unstructured/_hexa_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 8f39428..2b27071 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -210,8 +210,9 @@ class HexaGrid(rug.UnstructuredGrid):
                     continue
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
+                const_value = ijk_pc.constant_value_for_part(part)
                 hexa_pc.add_cached_array_to_imported_list(
-                    ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape),
+                    ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape) if const_value is None else None,
                     'inherited from grid ' + str(ijk_grid.title),
                     ijk_pc.citation_title_for_part(part),
                     discrete = not ijk_pc.continuous_for_part(part),
@@ -225,7 +226,7 @@ class HexaGrid(rug.UnstructuredGrid):
                     realization = ijk_pc.realization_for_part(part),
                     indexable_element = ijk_pc.indexable_for_part(part),
                     count = count,
-                    const_value = ijk_pc.constant_value_for_part(part))
+                    const_value = const_value)
                 # todo: patch min & max values if present in ijk part
                 hexa_pc.write_hdf5_for_imported_list()
                 hexa_pc.create_xml_for_imported_list_and_add_parts_to_model(
-- 
2.43.0


From c65be4c5ad118c13e0196b96619679e6afeed841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 122/270] fix: hexa grid from a grid with a points property
 raised ValueError

---
 resqpy/unstructured/_hexa_grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 2b27071..1bb3335 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -210,6 +210,9 @@ class HexaGrid(rug.UnstructuredGrid):
                     continue
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
+                points = ijk_pc.points_for_part(part)
+                if points:
+                    hexa_part_shape += (3,)
                 const_value = ijk_pc.constant_value_for_part(part)
                 hexa_pc.add_cached_array_to_imported_list(
                     ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape) if const_value is None else None,
@@ -226,6 +229,7 @@ class HexaGrid(rug.UnstructuredGrid):
                     realization = ijk_pc.realization_for_part(part),
                     indexable_element = ijk_pc.indexable_for_part(part),
                     count = count,
+                    points = points,
                     const_value = const_value)
                 # todo: patch min & max values if present in ijk part
                 hexa_pc.write_hdf5_for_imported_list()
-- 
2.43.0


From 100c6193645a221cf5c021c61ab3fa268a76e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 123/270] fix: copy_grid into another model put a second crs in
 the source model and left the copy without one

---
 resqpy/derived_model/_copy_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_copy_grid.py b/resqpy/derived_model/_copy_grid.py
index 4a17778..f2b0dde 100644
--- a/resqpy/derived_model/_copy_grid.py
+++ b/resqpy/derived_model/_copy_grid.py
@@ -49,7 +49,8 @@ def copy_grid(source_grid, target_model = None, copy_crs = True):
     if target_model is source_grid.model:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     elif copy_crs and source_grid.crs_uuid is not None:
-        model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        target_model.duplicate_node(model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(target_model, uuid = grid.crs_uuid)
     else:
         grid.crs = None
 
-- 
2.43.0


From 9e7af06932400f88994edb19ef991ef8fddea4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 124/270] fix: extract_box and unsplit_grid failed for a source
 grid stored in lattice or parametric lines form

---
 resqpy/derived_model/_extract_box.py  | 4 +++-
 resqpy/derived_model/_unsplit_grid.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..65470ee 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -155,8 +155,10 @@ def extract_box(epc_file = None,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
+        # note: points of a source grid stored in lattice or parametric lines form are not in an explicit hdf5 array
+        h5_key_pair = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
                                                       'Coordinates')
+        ext_uuid = None if h5_key_pair is None else h5_key_pair[0]
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
diff --git a/resqpy/derived_model/_unsplit_grid.py b/resqpy/derived_model/_unsplit_grid.py
index 422b3ad..c6d9510 100644
--- a/resqpy/derived_model/_unsplit_grid.py
+++ b/resqpy/derived_model/_unsplit_grid.py
@@ -91,8 +91,10 @@ def unsplit_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
+        # note: points of a source grid stored in lattice or parametric lines form are not in an explicit hdf5 array
+        h5_key_pair = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
                                                       'Coordinates')
+        ext_uuid = None if h5_key_pair is None else h5_key_pair[0]
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
-- 
2.43.0


From dff92c9edcae1855476fb6f72a1dc310018b2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 125/270] fix: extract_box with inherit_properties removed the
 active property from the source grid's property collection

---
 resqpy/derived_model/_extract_box.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 65470ee..ace8639 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -246,6 +246,11 @@ def _inherit_collection(source_grid, grid, inherit_properties, box, inherit_real
         source_collection = source_grid.extract_property_collection()
         if source_collection is not None:
             # do not inherit the inactive property array by this mechanism
+            # note: work with a copy of the collection so that the source grid's own collection is not modified
+            main_collection = source_collection
+            source_collection = rqp.GridPropertyCollection()
+            source_collection.set_grid(source_grid)
+            source_collection.inherit_parts_from_other_collection(main_collection)
             active_collection = rqp.selective_version_of_collection(source_collection, property_kind = 'active')
             source_collection.remove_parts_list_from_dict(active_collection.parts())
             inactive_collection = rqp.selective_version_of_collection(
-- 
2.43.0


From e7f35ea47d3de3946a1ed6a77516f7f33d22dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 126/270] fix: extract_box or unsplit_grid to a new epc left
 out the time series and string lookups of inherited properties

---
 resqpy/derived_model/_common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..602c2c3 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -143,7 +143,12 @@ def _write_grid(epc_file,
         log.debug('write_grid(): creating new model object')
         model = rq.new_model(epc_file)
         ext_uuid = model.h5_uuid()
-        crs_root = model.duplicate_node(grid.model.root_for_uuid(grid.crs_uuid))
+        crs_root = model.duplicate_node(working_model.root_for_uuid(grid.crs_uuid))
+        if property_collection is not None:  # include time series and string lookups referred to by properties
+            for entry in property_collection.imported_list:
+                for uuid in entry[19:21]:
+                    if uuid is not None and working_model.root(uuid = uuid) is not None:
+                        model.copy_uuid_from_other_model(working_model, uuid)
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
-- 
2.43.0


From 5fad9f931cc2e9ca4da355c818d705175c98c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 127/270] fix: extract_box from a grid with undefined pillars
 mixed up the pillar mask or failed

---
 resqpy/derived_model/_extract_box.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index ace8639..dbffcbe 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -109,7 +109,7 @@ def extract_box(epc_file = None,
     source_grid.cache_all_geometry_arrays()
 
     # determine cell geometry is defined
-    if hasattr(source_grid, 'array_cell_geometry_is_defined'):
+    if getattr(source_grid, 'array_cell_geometry_is_defined', None) is not None:
         grid.array_cell_geometry_is_defined = _array_box(source_grid.array_cell_geometry_is_defined, box)
         grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     else:
@@ -117,8 +117,9 @@ def extract_box(epc_file = None,
 
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
-    if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
-        grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
+    if getattr(source_grid, 'array_pillar_geometry_is_defined', None) is not None:
+        grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined[
+            box[0, 1]:box[1, 1] + 2, box[0, 2]:box[1, 2] + 2].copy()
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
     # get reference to points for source grid geometry
-- 
2.43.0


From 617d0969fa948cf6962d7985d838b320d3572e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 128/270] fix: extract_box took wrong corner points where a
 pillar of the source grid is split more than once

---
 resqpy/derived_model/_extract_box.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index dbffcbe..3ac1579 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -288,24 +288,20 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
     for index in range(len(source_grid.split_pillar_indices_cached)):
         source_pi = source_grid.split_pillar_indices_cached[index]
         local_pi = _local_pillar_index(source_grid.extent_kji, box, source_pi)
-        if local_pi is None:
-            continue
+        if local_pi is None or source_pi in source_grid.split_pillar_indices_cached[:index]:
+            continue  # note: all the splits of a pillar are handled together
         cols = _cols_for_pillar(source_grid.extent_kji, source_pi)
         local_cols = _cols_for_pillar(grid.extent_kji, local_pi)
-        if index == 0:
-            start = 0
-        else:
-            start = source_grid.cols_for_split_pillars_cl[index - 1]
-        finish = source_grid.cols_for_split_pillars_cl[index]
-        source_pis = np.zeros((4,), dtype = int)
-        for c_i in range(4):
-            if local_cols[c_i] < 0:
-                source_pis[c_i] = -1
-                continue
-            if cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
-                source_pis[c_i] = source_base_pillar_count + index
+        source_pis = np.where(local_cols < 0, -1, source_pi)
+        for split_index in np.where(source_grid.split_pillar_indices_cached == source_pi)[0]:
+            if split_index == 0:
+                start = 0
             else:
-                source_pis[c_i] = source_pi
+                start = source_grid.cols_for_split_pillars_cl[split_index - 1]
+            finish = source_grid.cols_for_split_pillars_cl[split_index]
+            for c_i in range(4):
+                if local_cols[c_i] >= 0 and cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
+                    source_pis[c_i] = source_base_pillar_count + split_index
         unique_source_pis = np.unique(source_pis)
         unique_count = len(unique_source_pis)
         unique_index = 0
-- 
2.43.0


From 22282cc59135d37103f0a7879ce3291ee8a0a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 129/270] fix: unsplit_grid failed for a grid with k gaps

---
 resqpy/derived_model/_unsplit_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_unsplit_grid.py b/resqpy/derived_model/_unsplit_grid.py
index c6d9510..ed7880f 100644
--- a/resqpy/derived_model/_unsplit_grid.py
+++ b/resqpy/derived_model/_unsplit_grid.py
@@ -67,7 +67,8 @@ def unsplit_grid(epc_file,
     grid.cache_all_geometry_arrays()  # probably already cached anyway
     unsplit = source_grid.unsplit_points_ref()
     grid.points_cached = unsplit.copy()
-    assert grid.points_cached.shape == (grid.nk + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
+    assert grid.points_cached.shape == (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1,
+                                        3), 'unsplit points have incorrect shape'
 
     grid.has_split_coordinate_lines = False
     delattr(grid, 'split_pillar_indices_cached')
-- 
2.43.0


From eecaf4d451675571a252b041edbc42c6a2f48187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 130/270] fix: extract_box_for_well never accepted column_xy

---
 resqpy/derived_model/_extract_box_for_well.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 573cb75..54bf5fa 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -112,7 +112,7 @@ def extract_box_for_well(epc_file = None,
     if max_k0 is None:
         max_k0 = source_grid.nk - 1
     assert 0 <= min_k0 <= max_k0 < source_grid.nk
-    assert trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None
+    assert trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None or column_xy is not None
     if radius is None:
         radius = 0.0  # cells directly penetrated through a k face will still be included
     assert radius >= 0.0
@@ -162,6 +162,8 @@ def extract_box_for_well(epc_file = None,
         bw_cells = blocked_well.cell_indices_for_grid_uuid(source_grid.uuid)
     else:
         column_ji0, well_name = _check_column(source_grid, column_ji0, column_xy, well_name)
+        if column_ji0 is None:
+            return None, None
 
     # create cell mask
     inclusion_mask, outer_inactive_mask = _build_cell_masks(source_grid, centres, min_k0, max_k0, trajectory,
@@ -356,7 +358,7 @@ def _check_column(source_grid, column_ji0, column_xy, well_name):
         column_ji0 = source_grid.find_cell_for_point_xy(column_xy[0], column_xy[1])
         if column_ji0[0] is None or column_ji0[1] is None:
             log.error('no column found for x, y: ' + str(column_xy[0]) + ', ' + str(column_xy[1]))
-        return None, None
+            return None, None
     assert len(column_ji0) == 2
     assert 0 <= column_ji0[0] < source_grid.nj and 0 <= column_ji0[1] < source_grid.ni
     if not well_name:
-- 
2.43.0


From 17af6327cb434ef88b0c307844b4413fac259d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 131/270] fix: extract_box_for_well for a column or blocked
 well included cells beyond the radius in layer above

---
 resqpy/derived_model/_extract_box_for_well.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 54bf5fa..d3af8fb 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -261,7 +261,7 @@ def _build_cell_masks(source_grid, centres, min_k0, max_k0, trajectory, blocked_
                     if outer_radius is not None:
                         outer_layer_mask = np.logical_and(outer_layer_mask,
                                                           np.greater_equal(distance_sqr, outer_radius_sqr))
-                if k > 0 and (not source_grid.k_gaps or k >= source_grid.nk - 1 or
+                if trajectory is not None and k > 0 and (not source_grid.k_gaps or k >= source_grid.nk - 1 or
                               not source_grid.k_gap_after_array[k - 1]):
                     vectors = centres[k - 1] - intersect_points[intersect].reshape((1, 1, 3))
                     distance_sqr = vectors[..., 0] * vectors[..., 0] + vectors[..., 1] * vectors[..., 1]
@@ -275,7 +275,7 @@ def _build_cell_masks(source_grid, centres, min_k0, max_k0, trajectory, blocked_
             inclusion_mask[k] = layer_mask
             if outer_radius is not None:
                 outer_inactive_mask[k] = outer_layer_mask
-        if k > min_k0:
+        if trajectory is not None and k > min_k0:  # working with horizon, so layer above is also affected
             inclusion_mask[k - 1] = np.logical_or(inclusion_mask[k - 1], layer_mask)
             if outer_radius is not None:
                 outer_inactive_mask[k - 1] = np.logical_and(outer_inactive_mask[k - 1], outer_layer_mask)
-- 
2.43.0


From 4b8818e4e83c38f02b93f1b46f6c91f0297fd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 132/270] fix: extract_box_for_well with outer_radius and
 new_epc_file failed, source grid not copied as documented

---
 resqpy/derived_model/_extract_box_for_well.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index d3af8fb..b517dd8 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -304,7 +304,10 @@ def _invent_title(new_grid_title, trajectory, blocked_well, column_ji0):
 
 def _add_outer_mask_property(epc_file, new_epc_file, outer_inactive_mask, source_grid, well_name):
     if new_epc_file:
-        # TODO: copy source grid and reassign source_grid to new copy
+        newer_model = rq.Model(new_epc_file)
+        newer_model.copy_uuid_from_other_model(source_grid.model, source_grid.uuid)
+        newer_model.h5_release()
+        newer_model.store_epc()
         outer_epc = new_epc_file
     else:
         outer_epc = epc_file
-- 
2.43.0


From e584ebf01332f612b935c8f79f8a1963791e22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 133/270] fix: properties inherited by a derived grid lost null
 value, count, string lookup and indexable element

---
 resqpy/property/grid_property_collection.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..618d5e1 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -774,8 +774,13 @@ class GridPropertyCollection(rqp.PropertyCollection):
 
 def _array_box(collection, part, box = None, uncache_other_arrays = True):
     full_array = collection.cached_part_array_ref(part)
+    indexable = collection.indexable_for_part(part)
     if box is None:
         a = full_array.copy()
+    elif indexable == 'columns':
+        a = full_array[box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
+    elif indexable == 'layers':
+        a = full_array[box[0, 0]:box[1, 0] + 1].copy()
     else:
         a = full_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
     full_array = None
@@ -1116,6 +1121,12 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    indexable = info[6]
+    if (refinement is not None and indexable != 'cells') or (box is not None and indexable not in [
+            'cells', 'columns', 'layers', 'faces per cell', 'nodes per cell', 'edges per cell']):
+        log.warning(f'property not inherited by derived grid: {info[10]}; indexable element: {indexable}')
+        return
+
     const_value = info[20]
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
@@ -1130,10 +1141,11 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = indexable,
+        count = info[5],
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,7 +1153,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-- 
2.43.0


From 33e6c6103c5bf6c4b68f074df46b72cd6d0a7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 134/270] fix: extract_box_for_well found no overlap of
 trajectory and grid where the crs has an offset

---
 resqpy/derived_model/_extract_box_for_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index b517dd8..b4d65e3 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -146,7 +146,7 @@ def extract_box_for_well(epc_file = None,
         traj_box = np.empty((2, 3))
         traj_box[0] = np.amin(trajectory.control_points, axis = 0)
         traj_box[1] = np.amax(trajectory.control_points, axis = 0)
-        grid_box = source_grid.xyz_box(lazy = False)
+        grid_box = source_grid.xyz_box(lazy = False, local = True)
         if not bx.boxes_overlap(traj_box, grid_box):
             log.error('no overlap of xyz boxes for trajectory and grid for trajectory uuid: ' + str(trajectory.uuid))
             return None, None
-- 
2.43.0


From e2d83898f29694aa065b39faf51ce541aea1cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 135/270] fix: refined_grid and coarsened_grid failed for a
 source grid stored in lattice or parametric lines form

---
 resqpy/derived_model/_coarsened_grid.py | 4 +++-
 resqpy/derived_model/_refined_grid.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_coarsened_grid.py b/resqpy/derived_model/_coarsened_grid.py
index 54a7475..636c22b 100644
--- a/resqpy/derived_model/_coarsened_grid.py
+++ b/resqpy/derived_model/_coarsened_grid.py
@@ -165,8 +165,10 @@ def coarsened_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
+        # note: points of a source grid stored in lattice or parametric lines form are not in an explicit hdf5 array
+        h5_key_pair = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
                                                       'Coordinates')
+        ext_uuid = None if h5_key_pair is None else h5_key_pair[0]
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..fcfff09 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -134,8 +134,10 @@ def refined_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
+        # note: points of a source grid stored in lattice or parametric lines form are not in an explicit hdf5 array
+        h5_key_pair = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
                                                       'Coordinates')
+        ext_uuid = None if h5_key_pair is None else h5_key_pair[0]
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
-- 
2.43.0


From 247edecd9fb76765a432d40e80487610ec112a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 136/270] fix: coarsened_grid with a net to gross property and
 no rock volume property raised TypeError

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 618d5e1..b267cb6 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -964,6 +964,8 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
         else:
             fine_rv_array = source_rv_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
         coarse_rv_array = collection.support.volume()
+        if coarse_rv_array is None:  # volumes are not available for a grid which is yet to be stored
+            coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
     else:
         for (part, info) in source_rv.dict.items():
             if not copy_all_realizations and info[0] != realization:
-- 
2.43.0


From a1b9d88f9291319b96bcfd55c413c64d9292ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 137/270] fix: coarsening of saturation modified rock volume
 weights and cached cell volumes in situ

---
 resqpy/property/grid_property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index b267cb6..0b70e3d 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1033,8 +1033,9 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        # note: not in situ, as the weights are also in use for other properties
+        fine_sat_weight = fine_sat_weight * fine_poro_array
+        coarse_sat_weight = coarse_sat_weight * coarse_poro_array
     for (part, info) in source_sat.dict.items():
         if not copy_all_realizations and info[0] != realization:
             continue
-- 
2.43.0


From b7e37e3beb7ed0081b23fc13a8c403ca6b213906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 138/270] fix: coarsened properties lost string lookup and null
 value; column, layer, points or multi-valued properties raised AssertionError

---
 resqpy/property/grid_property_collection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 0b70e3d..473f008 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -871,7 +871,7 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         indexable_element = 'cells',
         uom = info[15],
         time_index = info[12],
-        null_value = null_value,
+        null_value = info[19] if null_value is None else null_value,
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -879,7 +879,8 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_initial_assertions(other, box, refinement, coarsening):
@@ -1096,6 +1097,9 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
             continue
         if info[7] in handled_kinds:
             continue
+        if info[5] != 1 or info[6] != 'cells' or info[21]:
+            log.warning(f'property not inherited by coarsened grid: {info[10]}; indexable element: {info[6]}')
+            continue
         fine_ordinary_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         if info[4]:
             coarse_ordinary_array = _coarsening_weighted_mean(coarsening,
-- 
2.43.0


From e1e4e72df9df03f627b640bab5874ce113e97afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 139/270] fix: refined volumes and constant cell lengths not
 shared out between fine cells

---
 resqpy/property/grid_property_collection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 473f008..07cd8e5 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1135,6 +1135,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         return
 
     const_value = info[20]
+    if refinement is not None and info[7] in ['cell length', 'volume', 'rock volume', 'pore volume', 'fluid volume']:
+        const_value = None  # values will be shared out between fine cells
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
     else:
@@ -1168,7 +1170,7 @@ def _extend_imported_no_coarsening_single_resampling(a, info, collection, refine
     if info[6] != 'cells':
         # todo: appropriate refinement of data for other indexable elements
         return
-    # todo: dividing up of values when needed, eg. volumes, areas, lengths
+    # todo: dividing up of values when needed for other kinds, eg. areas
     assert tuple(a.shape) == tuple(refinement.coarse_extent_kji)
     assert collection.support is not None and tuple(collection.support.extent_kji) == tuple(refinement.fine_extent_kji)
     k_ratio_vector = refinement.coarse_for_fine_axial_vector(0)
@@ -1187,6 +1189,11 @@ def _extend_imported_no_coarsening_single_resampling(a, info, collection, refine
     # for cell length properties, scale down the values in accordance with refinement
     if info[4] and info[7] == 'cell length' and info[8] == 'direction' and info[5] == 1:
         a = _extend_imported_no_coarsening_single_resampling_length(a, info, refinement)
+    # share out volumes between the fine cells, in accordance with refinement
+    elif info[4] and info[7] in ['volume', 'rock volume', 'pore volume', 'fluid volume'] and info[5] == 1:
+        a *= refinement.proportions_for_axis(0).reshape((-1, 1, 1))
+        a *= refinement.proportions_for_axis(1).reshape((1, -1, 1))
+        a *= refinement.proportions_for_axis(2).reshape((1, 1, -1))
     return a
 
 
-- 
2.43.0


From 7b2b9930a26b6124f2d3d9d1f4322fee8ba846fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 140/270] fix: coarsened volumes and pore volumes were averaged
 instead of totalled

---
 resqpy/property/grid_property_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 07cd8e5..0ca2d8f 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1101,7 +1101,9 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
             log.warning(f'property not inherited by coarsened grid: {info[10]}; indexable element: {info[6]}')
             continue
         fine_ordinary_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
-        if info[4]:
+        if info[4] and info[7] in ['volume', 'pore volume', 'fluid volume']:
+            coarse_ordinary_array = _coarsening_sum(coarsening, fine_ordinary_array)
+        elif info[4]:
             coarse_ordinary_array = _coarsening_weighted_mean(coarsening,
                                                               fine_ordinary_array,
                                                               fine_rv_array,
-- 
2.43.0


From 1a5421f825a7895e87dc6a5147b544122ca962bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 141/270] fix: coarsening failed when rock volume properties
 exist only for other realizations

---
 resqpy/property/grid_property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 0ca2d8f..8b05bb2 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -957,7 +957,7 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
                                          coarsening, copy_all_realizations):
     # bulk rock volume
     fine_rv_array = coarse_rv_array = None
-    if source_rv.number_of_parts() == 0:
+    if not any(copy_all_realizations or info[0] == realization for info in source_rv.dict.values()):
         log.debug('computing bulk rock volume from fine and coarse grid geometries')
         source_rv_array = other.support.volume()
         if box is None:
-- 
2.43.0


From 2e59734d305dcc14374cb4cb007bb34da786c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 142/270] fix: refined_grid to a new epc left out time series
 and string lookups of inherited properties, failed without properties

---
 resqpy/derived_model/_refined_grid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index fcfff09..b21cfe5 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -323,6 +323,8 @@ def _refined_unfaulted_grid(model, source_grid, fine_coarse):
 
 def _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inherit_all_realizations):
     source_collection = source_grid.extract_property_collection()
+    if source_collection is None:
+        return None
     source_collection = rqp.selective_version_of_collection(source_collection,
                                                             indexable = 'cells',
                                                             count = 1,
@@ -338,6 +340,11 @@ def _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inh
             refinement = fine_coarse,
             realization = inherit_realization,
             copy_all_realizations = inherit_all_realizations)
+        if source_grid.model is not grid.model:
+            uuids = source_collection.time_series_uuid_list(sort_list = False)
+            uuids += source_collection.string_lookup_uuid_list(sort_list = False)
+            for uuid in uuids:
+                grid.model.copy_uuid_from_other_model(source_grid.model, uuid)
     return collection
 
 
-- 
2.43.0


From c64c2fc7650d22930dc1c833780ed2b9b1003c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 143/270] fix: grid returned after writing to a new epc had the
 wrong crs object

---
 resqpy/derived_model/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index 602c2c3..9c8c4b3 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -151,7 +151,7 @@ def _write_grid(epc_file,
                         model.copy_uuid_from_other_model(working_model, uuid)
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
-        grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
+        grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
-- 
2.43.0


From 981d04c3307bf4c0b1664f1f1dfaf70fdf732fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 144/270] fix: inherit_all_realizations was not ignored when
 inherit_realization is given

---
 resqpy/property/grid_property_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 8b05bb2..2ba9e07 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -136,6 +136,9 @@ class GridPropertyCollection(rqp.PropertyCollection):
 
         _extend_imported_initial_assertions(other, box, refinement, coarsening)
 
+        if realization is not None:
+            copy_all_realizations = False
+
         if coarsening is not None:  # static upscaling of key property kinds, simple sampling of others
             _extend_imported_with_coarsening(self, other, box, coarsening, realization, copy_all_realizations,
                                              uncache_other_arrays)
-- 
2.43.0


From e95ac4087f2553ad88d0e955d4c8a3626e73bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 145/270] fix: refined_grid failed for a RegularGrid source

---
 resqpy/derived_model/_refined_grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index b21cfe5..e2e303b 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -391,13 +391,13 @@ def _establish_models_and_source_grid(epc_file, new_epc_file, source_grid, sourc
                 source_grid = model_in.grid()
             else:
                 log.debug('selecting source grid from existing epc based on uuid')
-                source_grid = grr.Grid(model_in, uuid = source_grid_uuid)
+                source_grid = grr.any_grid(model_in, uuid = source_grid_uuid)
         else:
             if source_grid_uuid is not None:
                 assert bu.matching_uuids(source_grid_uuid, source_grid.uuid)
             grid_uuid = source_grid.uuid
             log.debug('reloading source grid from existing epc file')
-            source_grid = grr.Grid(model_in, uuid = grid_uuid)
+            source_grid = grr.any_grid(model_in, uuid = grid_uuid)
         if model is None:
             model = model_in
     else:
@@ -406,4 +406,7 @@ def _establish_models_and_source_grid(epc_file, new_epc_file, source_grid, sourc
     assert model is not None
     assert source_grid is not None
     assert source_grid.grid_representation in ['IjkGrid', 'IjkBlockGrid']
+    # ensure geometry exists as points in case of a regular (block) grid
+    if source_grid.grid_representation == 'IjkBlockGrid':
+        source_grid.make_regular_points_cached()
     return epc_file, model, model_in, source_grid
-- 
2.43.0


From 311f3256810cb25dc1d7b84eaa1ab53f0c04df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 146/270] fix: refined grid lost the inactive cells of its
 source

---
 resqpy/derived_model/_refined_grid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index e2e303b..505f159 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -110,6 +110,12 @@ def refined_grid(epc_file,
 
         grid = _refined_unfaulted_grid(model, source_grid, fine_coarse)
 
+    # inherit the inactive cell mask
+    if source_grid.inactive is not None and np.any(source_grid.inactive):
+        k_vector, j_vector, i_vector = [fine_coarse.coarse_for_fine_axial_vector(axis) for axis in range(3)]
+        grid.inactive = source_grid.inactive[k_vector][:, j_vector][:, :, i_vector]
+        grid.all_inactive = np.all(grid.inactive)
+
     # todo: option of re-draping interpolated pillars to surface
 
     collection = None
@@ -333,6 +339,8 @@ def _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inh
     collection = None
     if source_collection is not None:
         #  do not inherit the inactive property array by this mechanism
+        active_collection = rqp.selective_version_of_collection(source_collection, property_kind = 'active')
+        source_collection.remove_parts_list_from_dict(active_collection.parts())
         collection = rqp.GridPropertyCollection()
         collection.set_grid(grid)
         collection.extend_imported_list_copying_properties_from_other_grid_collection(
-- 
2.43.0


From 9d63d8d8f81887ea9a3eb34cdcde4032ec2a62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 147/270] fix: zone_layer_ranges_from_array failed for masked
 arrays with wholly inactive layers

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 394a00e..0380d6c 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -34,12 +34,13 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         max_k0 = zone_array.shape[0] - 1
     if use_dominant_zone:
         _dominant_zone(zone_array)
-    zone_list = np.unique(zone_array)
+    zone_list = np.unique(np.ma.compressed(zone_array))  # zones of active cells only, if masked
     log.debug('list of zones: ' + str(zone_list))
     assert len(zone_list) > 0, 'no zone values present (all cells inactive?)'
+    inactive = np.ma.getmaskarray(zone_array)
     zone_layer_range_list = []  # list of (zone_min_k0, zone_max_k0, zone)
     for zone in zone_list:
-        single_zone_mask = (zone_array == zone)
+        single_zone_mask = np.ma.filled(zone_array == zone, False)
         zone_min_k0 = None
         zone_max_k0 = None
         for k0 in range(min_k0, max_k0 + 1):
@@ -56,7 +57,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
                 break
         # require all active cells in zone layer range to be for this zone
         for k0 in range(zone_min_k0, zone_max_k0 + 1):
-            assert np.all(single_zone_mask[k0]), 'unacceptable zone variation with layer ' + str(k0 + 1)
+            assert np.all(np.logical_or(single_zone_mask[k0], inactive[k0])), 'unacceptable zone variation with layer ' + str(k0 + 1)
         zone_layer_range_list.append((zone_min_k0, zone_max_k0, zone))
     assert len(zone_layer_range_list) > 0, 'no zone layer ranges derived from zone array'
     zone_layer_range_list.sort()
@@ -66,7 +67,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         if zone_layer_range_list[zone_i][0] > zone_layer_range_list[zone_i - 1][1] + 1:
             log.warning('gap in zonal layer ranges, missing layer(s) being arbitrarily assigned to zone below'
                        )  # todo: add more info to log
-            zone_layer_range_list[zone_i][0] = zone_layer_range_list[zone_i - 1][1] + 1
+            zone_layer_range_list[zone_i] = (zone_layer_range_list[zone_i - 1][1] + 1,) + zone_layer_range_list[zone_i][1:]
     return zone_layer_range_list
 
 
-- 
2.43.0


From e70a55a9a4fc352cecba435907eb9688ab959b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:14 +0000
Subject: [PATCH 148/270] fix: dominant zones were counted wrongly when masked
 cells were present

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 0380d6c..e88f860 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -74,15 +74,9 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
 def _dominant_zone(zone_array):
     # modifies data in zone_array such that each layer has a single (most common) value
     for k in range(zone_array.shape[0]):
-        unique_zones = np.unique(zone_array[k])
+        unique_zones, counts = np.unique(np.ma.compressed(zone_array[k]), return_counts = True)
         if len(unique_zones) <= 1:
             continue
-        dominant = unique_zones[0]
-        dominant_count = np.count_nonzero(zone_array[k] == dominant)
-        for contender in unique_zones[1:]:
-            contender_count = np.count_nonzero(zone_array[k] == contender)
-            if contender_count > dominant_count:
-                dominant = contender
-                dominant_count = contender_count
+        dominant = unique_zones[np.argmax(counts)]
         zone_array[k] = dominant
         log.info('layer ' + str(k + 1) + ' (1 based) zone set to most common value ' + str(dominant))
-- 
2.43.0


From 1a224619ff71abc328aef2ca722e50ce52535a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 149/270] fix: zonal_grid ignored a zone layer range list with
 one entry

---
 resqpy/derived_model/_zonal_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..ddf4b6b 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -88,6 +88,8 @@ def zonal_grid(epc_file,
         for (zone_min_k0, zone_max_k0, zone) in zone_layer_range_list:
             log.info('zone id {0:1d} covers layers {1:1d} to {2:1d}'.format(zone, zone_min_k0 + 1, zone_max_k0 + 1))
     else:
+        if zone_layer_range_list:
+            k0_min, k0_max = _set_or_check_k_min_max(*zone_layer_range_list[0][:2], source_grid)
         zone_layer_range_list = [(k0_min, k0_max, 0)]
         zone_count = 1
     assert zone_count > 0, 'unexpected lack of zones'
-- 
2.43.0


From c821c1d44e1e349b4887df29bc29b338353bc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 150/270] fix: single layer version of a regular grid ignored
 k0_min for its top

---
 resqpy/derived_model/_zonal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index ddf4b6b..237120f 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -95,7 +95,7 @@ def zonal_grid(epc_file,
     assert zone_count > 0, 'unexpected lack of zones'
 
     # create a new, empty grid object
-    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode
+    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode and k0_min == 0
     grid = _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count)
 
     # aggregate inactive cell mask depending on laissez faire argument
-- 
2.43.0


From 54ab0df7bbbed633e4cef0bc79a6cce3cfe6386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 151/270] fix: surfaces generated for grid layer interfaces had
 no crs

---
 resqpy/grid_surface/_grid_skin.py             | 12 ++++++------
 resqpy/grid_surface/_grid_surface.py          | 12 ++++++------
 resqpy/grid_surface/_trajectory_intersects.py |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index c9d10c1..2f75d27 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -43,23 +43,23 @@ class GridSkin:
                     xyz_box[:, axis] = (xyz_box[1, axis], xyz_box[0, axis])
             min_x, min_y, min_z = xyz_box[0]
             max_x, max_y, max_z = xyz_box[1]
-            top_surf = rqs.Surface(grid.model)
+            top_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             top_surf.set_to_horizontal_plane(0.0, xyz_box)
-            base_surf = rqs.Surface(grid.model)
+            base_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             base_surf.set_to_horizontal_plane(grid.nk * grid.block_dxyz_dkji[0, 2], xyz_box)
-            j_minus_surf = rqs.Surface(grid.model)
+            j_minus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, min_y, min_z), (max_x, min_y, min_z), (min_x, min_y, max_z),
                                 (max_x, min_y, max_z)])
             j_minus_surf.set_to_triangle_pair(corners)
-            j_plus_surf = rqs.Surface(grid.model)
+            j_plus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, max_y, min_z), (max_x, max_y, min_z), (min_x, max_y, max_z),
                                 (max_x, max_y, max_z)])
             j_plus_surf.set_to_triangle_pair(corners)
-            i_minus_surf = rqs.Surface(grid.model)
+            i_minus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, min_y, min_z), (min_x, max_y, min_z), (min_x, min_y, max_z),
                                 (min_x, max_y, max_z)])
             i_minus_surf.set_to_triangle_pair(corners)
-            i_plus_surf = rqs.Surface(grid.model)
+            i_plus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(max_x, min_y, min_z), (max_x, max_y, min_z), (max_x, min_y, max_z),
                                 (max_x, max_y, max_z)])
             i_plus_surf.set_to_triangle_pair(corners)
diff --git a/resqpy/grid_surface/_grid_surface.py b/resqpy/grid_surface/_grid_surface.py
index 4fdf76e..699438b 100644
--- a/resqpy/grid_surface/_grid_surface.py
+++ b/resqpy/grid_surface/_grid_surface.py
@@ -38,7 +38,7 @@ def generate_untorn_surface_for_layer_interface(grid,
        messed up.
     """
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     kp = 1 if ref_k_faces == 'base' else 0
     mesh = grid.horizon_points(ref_k0 = k0, heal_faults = True, kp = kp)
     if border is None or border <= 0.0:
@@ -94,7 +94,7 @@ def generate_torn_surface_for_layer_interface(grid, k0 = 0, ref_k_faces = 'top',
        single patch regardless.
     """
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     kp = 1 if ref_k_faces == 'base' else 0
     mesh = grid.split_horizon_points(ref_k0 = k0, kp = kp)
     surf.set_from_torn_mesh(mesh, quad_triangles = quad_triangles)
@@ -148,7 +148,7 @@ def generate_torn_surface_for_x_section(grid,
     else:
         x_sect_mesh = grid.split_gap_x_section_points(axis, ref_slice0 = ref_slice0, plus_face = plus_face)
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     surf.set_from_torn_mesh(x_sect_mesh, quad_triangles = quad_triangles)
 
     return surf
@@ -198,7 +198,7 @@ def generate_untorn_surface_for_x_section(grid,
 
     log.debug(f'x_sect_mesh.shape: {x_sect_mesh.shape}; grid.extent_kji: {grid.extent_kji}')
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     surf.set_from_irregular_mesh(x_sect_mesh, quad_triangles = quad_triangles)
 
     return surf
@@ -211,7 +211,7 @@ def point_is_within_cell(xyz, grid, kji0, cell_surface = None, false_on_pinchout
         return False
     if cell_surface is None:
         cp = grid.corner_points(kji0)
-        cell_surface = rqs.Surface(grid.model)
+        cell_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         cell_surface.set_to_single_cell_faces_from_corner_points(cp, quad_triangles = True)
     t, p = cell_surface.triangles_and_points()
     triangles = p[t]
@@ -253,7 +253,7 @@ def create_column_face_mesh_and_surface(grid, col_ji0, axis, polarity, quad_tria
 
     if not as_single_layer and grid.k_gaps:
         col_face_mesh = None
-        col_face_surface = rqs.Surface(grid.model)
+        col_face_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         mesh = np.empty((1, grid.nk, 2, 2, 3))
         mesh[0, :, 0, 0, :] = points[grid.k_raw_index_array, pillar_index_pair[0], :]
         mesh[0, :, 1, 0, :] = points[grid.k_raw_index_array, pillar_index_pair[1], :]
diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..c08b9c7 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -268,7 +268,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     # log.debug('generating surface for layer: ' + str(k0) + ' ' + ref_k_faces)
     if is_regular:
         interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
-        surface = rqs.Surface(grid.model)
+        surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
     elif grid.has_split_coordinate_lines and not heal_faults:
         surface = rqgs.generate_torn_surface_for_layer_interface(grid,
@@ -313,7 +313,7 @@ def find_first_intersection_of_trajectory_with_cell_surface(trajectory,
     """Return first intersection with cell's surface found along a trajectory."""
 
     cp = grid.corner_points(kji0)
-    cell_surface = rqs.Surface(grid.model)
+    cell_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     cell_surface.set_to_single_cell_faces_from_corner_points(cp, quad_triangles = quad_triangles)
     t, p = cell_surface.triangles_and_points()
     triangles = p[t]
-- 
2.43.0


From 0df1798f70b07487f019a36a54c6a001d4a57570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 152/270] fix: drape to surface used the wrong reference layer
 with k gaps

---
 resqpy/derived_model/_drape_to_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..788f17c 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -134,6 +134,8 @@ def drape_to_surface(epc_file,
     log.debug('setting up pillar sample points and directional vectors')
     line_p = unsplit_points[0, :, :, :].reshape((-1, 3))
     line_v = unsplit_points[-1, :, :, :].reshape((-1, 3)) - line_p
+    if grid.k_gaps:
+        ref_k0 = grid.k_raw_index_array[ref_k0]
     if ref_k_faces == 'base':
         ref_k0 += 1
 
-- 
2.43.0


From 8a19bff5eb47ad416429c33253119e27862a1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 153/270] fix: drape to surface modified the caller's surface
 when its crs differed

---
 resqpy/derived_model/_drape_to_surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 788f17c..e590935 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -114,6 +114,7 @@ def drape_to_surface(epc_file,
     if source_grid.crs is None:
         source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
     if surface_crs != source_grid.crs:
+        surface = copy.deepcopy(surface)  # avoid modifying caller's surface
         surface.triangles_and_points()
         surface_crs.convert_array_to(source_grid.crs, surface.points)
 
-- 
2.43.0


From 4e75fb491da57b15053143c3c977abf83f89c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:21 +0000
Subject: [PATCH 154/270] fix: local depth adjustment ignored a negative z
 direction or rotated crs for global coordinates

---
 resqpy/derived_model/_local_depth_adjustment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 7c3b283..8cc6c61 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -91,8 +91,7 @@ def local_depth_adjustment(epc_file,
     if grid.crs is None:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     if not use_local_coords:
-        rotation = grid.crs.rotation
-        if rotation > 0.001:
+        if grid.crs.rotated:
             log.error('unable to account for rotation in crs: use local coordinates')
             return
         centre_x -= grid.crs.x_offset
-- 
2.43.0


From 99287cadc9e674c391ee8f4ee0416f9e483f2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 155/270] fix: local depth adjustment and fault throw scaling
 went wrong with k gaps

---
 resqpy/derived_model/_fault_throw_scaling.py    | 10 ++++++----
 resqpy/derived_model/_local_depth_adjustment.py |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 3127b66..243383c 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -88,9 +88,11 @@ def fault_throw_scaling(epc_file,
     assert source_grid.has_split_coordinate_lines, 'cannot scale fault throws in unfaulted grid'
     assert scaling_factor is not None or (connection_set is not None and scaling_dict is not None)
 
+    assert ref_k0 >= 0 and ref_k0 < source_grid.nk, 'reference layer out of range'
+    if source_grid.k_gaps:
+        ref_k0 = source_grid.k_raw_index_array[ref_k0]
     if ref_k_faces == 'base':
         ref_k0 += 1
-    assert ref_k0 >= 0 and ref_k0 <= source_grid.nk, 'reference layer out of range'
 
     # take a copy of the grid
     log.debug('copying grid')
@@ -249,7 +251,7 @@ def global_fault_throw_scaling(epc_file,
 def _set_offsets_based_on_scaling_factor(grid, scaling_factor, offsets, ref_k0, primaries):
     # fetch unsplit equivalent of grid points for reference layer interface
     log.debug('fetching unsplit equivalent grid points')
-    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk + 1, -1, 3)
+    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk_plus_k_gaps + 1, -1, 3)
     # determine existing throws on split pillars
     semi_throws = np.zeros(grid.points_cached.shape[1:])  # same throw applied to all layers
     unique_spi = np.unique(grid.split_pillar_indices_cached)
@@ -348,8 +350,8 @@ def _neighbourly_adjustment(grid, offsets, adjusted, cell_range):
                     contributions += 1
             if contributions == 0:
                 continue
-            dxy_dz = ((grid.points_cached[grid.nk, p, :2] - grid.points_cached[0, p, :2]) /
-                      (grid.points_cached[grid.nk, p, 2] - grid.points_cached[0, p, 2]))
+            dxy_dz = ((grid.points_cached[-1, p, :2] - grid.points_cached[0, p, :2]) /
+                      (grid.points_cached[-1, p, 2] - grid.points_cached[0, p, 2]))
             offsets[p, 2] = offset_decay * accum / float(contributions)
             offsets[p, :2] = offsets[p, 2] * dxy_dz
             grid.points_cached[:, p, :] += offsets[p, :].reshape((1, 3))
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 8cc6c61..023fe39 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -109,7 +109,9 @@ def local_depth_adjustment(epc_file,
         nkp1, njp1, nip1, xyz = grid.points_cached.shape
         reshaped_points = grid.points_cached.copy().reshape((nkp1, njp1 * nip1, xyz))
     assert reshaped_points.ndim == 3 and reshaped_points.shape[2] == 3
-    assert ref_k0 >= 0 and ref_k0 < reshaped_points.shape[0]
+    assert ref_k0 >= 0 and ref_k0 < grid.nk
+    if grid.k_gaps:
+        ref_k0 = grid.k_raw_index_array[ref_k0]
 
     log.debug('reshaped_points.shape: ' + str(reshaped_points.shape))
 
-- 
2.43.0


From 226918f6cc9c22857a31e605ba1a4f8d4e1dfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 156/270] fix: fault throw scaling smoothing gave NaN for zero
 height pillars

---
 resqpy/derived_model/_fault_throw_scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 243383c..8e1c863 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -350,8 +350,8 @@ def _neighbourly_adjustment(grid, offsets, adjusted, cell_range):
                     contributions += 1
             if contributions == 0:
                 continue
-            dxy_dz = ((grid.points_cached[-1, p, :2] - grid.points_cached[0, p, :2]) /
-                      (grid.points_cached[-1, p, 2] - grid.points_cached[0, p, 2]))
+            dxyz = grid.points_cached[-1, p] - grid.points_cached[0, p]
+            dxy_dz = np.zeros(2) if dxyz[2] == 0.0 else dxyz[:2] / dxyz[2]
             offsets[p, 2] = offset_decay * accum / float(contributions)
             offsets[p, :2] = offsets[p, 2] * dxy_dz
             grid.points_cached[:, p, :] += offsets[p, :].reshape((1, 3))
-- 
2.43.0


From 9cd74c8e5af2c5dfce66bce8c257de744271c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 157/270] fix: interpolated grid ignored k gaps

---
 resqpy/derived_model/_interpolated_grid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 014d991..92dfdb6 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -129,7 +129,11 @@ def interpolated_grid(epc_file,
 
 
 def _determine_work_from_pillars(grid_a, grid_b):
-    if not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
+    gaps_a, gaps_b = (np.zeros(grid.nk - 1, dtype = bool) if not grid.k_gaps else grid.k_gap_after_array
+                      for grid in (grid_a, grid_b))
+    if np.any(gaps_a != gaps_b):
+        work_from_pillars = False
+    elif not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
         work_from_pillars = True
     elif (grid_a.has_split_coordinate_lines and grid_b.has_split_coordinate_lines and
           grid_a.points_cached.shape == grid_b.points_cached.shape and
@@ -175,6 +179,10 @@ def _inherit_basics(grid, grid_a, grid_b):
 def _interpolate_points_cached_from_pillars(grid, grid_a, grid_b, a_weight, b_weight):
     grid.points_cached = grid_a.points_cached * a_weight + grid_b.points_cached * b_weight
     grid.has_split_coordinate_lines = grid_a.has_split_coordinate_lines
+    if grid_a.k_gaps:
+        grid.k_gaps = grid_a.k_gaps
+        grid.k_gap_after_array = grid_a.k_gap_after_array.copy()
+        grid.k_raw_index_array = grid_a.k_raw_index_array.copy()
     if grid.has_split_coordinate_lines:
         grid.split_pillar_indices_cached = grid_a.split_pillar_indices_cached.copy()
         grid.cols_for_split_pillars = grid_a.cols_for_split_pillars.copy()
-- 
2.43.0


From b5c49438332aec813690f38b0d75872403a9f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 158/270] fix: interpolated grid failed with k gaps in split
 pillar grids

---
 resqpy/derived_model/_interpolated_grid.py | 32 ++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 92dfdb6..b35a3ba 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -128,10 +128,12 @@ def interpolated_grid(epc_file,
     return grid
 
 
+def _gap_after(grid):
+    return grid.k_gap_after_array if grid.k_gaps else np.zeros(grid.nk - 1, dtype = bool)
+
+
 def _determine_work_from_pillars(grid_a, grid_b):
-    gaps_a, gaps_b = (np.zeros(grid.nk - 1, dtype = bool) if not grid.k_gaps else grid.k_gap_after_array
-                      for grid in (grid_a, grid_b))
-    if np.any(gaps_a != gaps_b):
+    if np.any(_gap_after(grid_a) != _gap_after(grid_b)):
         work_from_pillars = False
     elif not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
         work_from_pillars = True
@@ -161,6 +163,12 @@ def _inherit_basics(grid, grid_a, grid_b):
     grid.grid_is_right_handed = grid_a.grid_is_right_handed
     grid.pillar_shape = grid_a.pillar_shape
     grid.has_split_coordinate_lines = (grid_a.has_split_coordinate_lines or grid_b.has_split_coordinate_lines)
+    gap_after = np.logical_or(_gap_after(grid_a), _gap_after(grid_b))
+    if np.any(gap_after):
+        grid.k_gaps = np.count_nonzero(gap_after)
+        grid.k_gap_after_array = gap_after
+        grid.k_raw_index_array = np.arange(grid.nk, dtype = int)
+        grid.k_raw_index_array[1:] += np.cumsum(gap_after)
     # inherit the coordinate reference system used by the grid geometry
     grid.crs_uuid = grid_a.crs_uuid
     if grid_a.model is not grid.model:
@@ -179,10 +187,6 @@ def _inherit_basics(grid, grid_a, grid_b):
 def _interpolate_points_cached_from_pillars(grid, grid_a, grid_b, a_weight, b_weight):
     grid.points_cached = grid_a.points_cached * a_weight + grid_b.points_cached * b_weight
     grid.has_split_coordinate_lines = grid_a.has_split_coordinate_lines
-    if grid_a.k_gaps:
-        grid.k_gaps = grid_a.k_gaps
-        grid.k_gap_after_array = grid_a.k_gap_after_array.copy()
-        grid.k_raw_index_array = grid_a.k_raw_index_array.copy()
     if grid.has_split_coordinate_lines:
         grid.split_pillar_indices_cached = grid_a.split_pillar_indices_cached.copy()
         grid.cols_for_split_pillars = grid_a.cols_for_split_pillars.copy()
@@ -199,11 +203,10 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
     _close_vertical_voids(grid, grid_cp, grid_a.z_units())
     # reduce cp array extent in k
     log.debug('reducing k extent of interpolated corner point array (sharing points vertically)')
-    k_reduced_cp_array = np.zeros((grid.nk + 1, grid.nj, grid.ni, 2, 2, 3))  # (nk+1, nj, ni, jp, ip, xyz)
-    k_reduced_cp_array[0, :, :, :, :, :] = grid_cp[0, :, :, 0, :, :, :]
-    k_reduced_cp_array[-1, :, :, :, :, :] = grid_cp[-1, :, :, 1, :, :, :]
-    if grid.nk > 1:
-        k_reduced_cp_array[1:-1, :, :, :, :, :] = grid_cp[:-1, :, :, 1, :, :, :]
+    k_reduced_cp_array = np.zeros((grid.nk_plus_k_gaps + 1, grid.nj, grid.ni, 2, 2, 3))  # (nk+gaps+1, nj, ni, jp, ip, xyz)
+    raw_k = grid.k_raw_index_array if grid.k_gaps else np.arange(grid.nk, dtype = int)
+    k_reduced_cp_array[raw_k] = grid_cp[:, :, :, 0]
+    k_reduced_cp_array[raw_k + 1] = grid_cp[:, :, :, 1]
     # create primary pillar reference indices as one of four column corners around pillar, active column preferred
     log.debug('creating primary pillar reference neighbourly indices')
     primary_pillar_jip = np.zeros((grid.nj + 1, grid.ni + 1, 2), dtype = 'int')  # (nj + 1, ni + 1, jp:ip)
@@ -264,7 +267,7 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
     # create points array as used in resqml
     log.debug('creating points array as used in resqml format')
     if grid.has_split_coordinate_lines:
-        points_array = np.zeros((grid.nk + 1, (grid.nj + 1) * (grid.ni + 1) + len(extras_list), 3))
+        points_array = np.zeros((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1) + len(extras_list), 3))
         index = 0
         # primary pillars
         for pillar_j in range(grid.nj + 1):
@@ -284,7 +287,7 @@ def _interpolate_points_cached_from_cp(grid, grid_a, grid_b, a_weight, b_weight,
                     index += 1
         assert index == (grid.nj + 1) * (grid.ni + 1) + len(extras_list)
     else:  # unsplit pillars
-        points_array = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1, 3))
+        points_array = np.zeros((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3))
         for j in range(grid.nj + 1):
             for i in range(grid.ni + 1):
                 (jp, ip) = primary_pillar_jip[j, i]
@@ -335,6 +338,7 @@ def _add_split_pillars_for_extras(grid, extras_count, extras_use, extras_list):
 def _close_vertical_voids(grid, grid_cp, z_units):
     if grid.nk > 1:
         z_gap = grid_cp[1:, :, :, 0, :, :, :] - grid_cp[:-1, :, :, 1, :, :, :]
+        z_gap[_gap_after(grid)] = 0.0  # k gaps are kept
         max_gap = np.max(np.abs(z_gap))
         log.info('maximum vertical void distance after corner point interpolation: {0:.3f} {1}'.format(
             max_gap, z_units))
-- 
2.43.0


From 49f85fa85ab09c49f6682dd5d40067949ebc7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 159/270] fix: fault pillar vector ignored the bottom layer

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..4a844b5 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -231,7 +231,7 @@ def _pillar_vector(grid, p_index):
     k_top = 0
     while np.any(np.isnan(grid.points_cached[k_top, p_index])):
         k_top += 1
-    k_bot = grid.nk_plus_k_gaps - 1
+    k_bot = grid.nk_plus_k_gaps
     while np.any(np.isnan(grid.points_cached[k_bot, p_index])):
         k_bot -= 1
     if k_bot == k_top:  # following coded to treat None directions as downwards
-- 
2.43.0


From 71fbe287f118d01ea56b81f89428d7e843d87803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 160/270] fix: store_displacement with inherit_properties
 always failed

---
 resqpy/derived_model/_drape_to_surface.py       | 2 +-
 resqpy/derived_model/_fault_throw_scaling.py    | 2 +-
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 resqpy/derived_model/_tilted_grid.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index e590935..efcc553 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -181,7 +181,7 @@ def drape_to_surface(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid flexed from ' + str(rqet.citation_title_for_node(source_grid.root))
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 8e1c863..bf01720 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -143,7 +143,7 @@ def fault_throw_scaling(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid with fault throws scaled by ' + str(scaling_factor) + ' from ' +  \
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 023fe39..e6b1ff9 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -167,7 +167,7 @@ def local_depth_adjustment(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid derived from {0} with local depth shift of {1:3.1f} applied'.format(
diff --git a/resqpy/derived_model/_tilted_grid.py b/resqpy/derived_model/_tilted_grid.py
index cd347f1..efe7ba6 100644
--- a/resqpy/derived_model/_tilted_grid.py
+++ b/resqpy/derived_model/_tilted_grid.py
@@ -82,7 +82,7 @@ def tilted_grid(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'tilted version ({0:4.2f} degree dip) of '.format(abs(dip)) + str(
-- 
2.43.0


From 70642f163e26d4f5b4e8e74b0da18ba3d2fc5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 161/270] fix: adding faults which split no pillar left an
 invalid split representation

---
 resqpy/derived_model/_add_faults.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 4a844b5..af2aec6 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -360,6 +360,12 @@ def _process_full_pillar_list_dict(grid, full_pillar_list_dict, left_right_throw
         log.debug(
             f'generating fault {fault_key} pillar count {len(full_pillar_list)}; left, right throw {left_right_throw}')
         _fault_from_pillar_list(grid, full_pillar_list, left_right_throw[0], left_right_throw[1])
+    if grid.has_split_coordinate_lines and len(grid.split_pillar_indices_cached) == 0:  # no pillars have been split
+        grid.points_cached = grid.points_cached.reshape((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3))
+        grid.split_pillar_indices_cached = None
+        grid.cols_for_split_pillars = None
+        grid.cols_for_split_pillars_cl = None
+        grid.has_split_coordinate_lines = False
 
 
 def _populate_composite_face_sets_for_polylines(model, grid, polylines, lines_crs_uuid, grid_crs, lines_file_list,
-- 
2.43.0


From c764fe95b4451f8c800492e7c2f95d8cd6655dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 162/270] fix: fault throw scaling to a new epc left out
 feature interpretations of inherited connection sets

---
 resqpy/derived_model/_fault_throw_scaling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index bf01720..f1bbeca 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -372,6 +372,9 @@ def _inherit_gcs_list(epc_file, gcs_list, source_grid, grid):
         assert len(grid_list_modifications)
         for gi in grid_list_modifications:
             gcs.grid_list[gi] = grid
+        for _, uuid, _ in gcs.feature_list:  # interpretations are needed if inheriting to a new epc
+            if gcs_inheritance_model.root(uuid = uuid) is None:
+                gcs_inheritance_model.copy_uuid_from_other_model(gcs.model, uuid)
         gcs.model = gcs_inheritance_model
         gcs.write_hdf5()
         gcs.create_xml(title = gcs_title)
-- 
2.43.0


From 7398b153b05a9717c143f1122b19259a8594b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 163/270] fix: adding faults with a connection set to a new epc
 file failed

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index af2aec6..8dcccdf 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -269,7 +269,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
-- 
2.43.0


From 107388678ee471657a5c48952d2b4ff92038fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 164/270] fix: grid with added faults held a stale pillars for
 column cache

---
 resqpy/derived_model/_add_faults.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 8dcccdf..feb9ff2 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -366,6 +366,10 @@ def _process_full_pillar_list_dict(grid, full_pillar_list_dict, left_right_throw
         grid.cols_for_split_pillars = None
         grid.cols_for_split_pillars_cl = None
         grid.has_split_coordinate_lines = False
+    # discard anything cached that depended on the geometry prior to the splitting
+    for attr in ('pillars_for_column', 'array_unsplit_points', 'array_corner_points'):
+        if hasattr(grid, attr):
+            delattr(grid, attr)
 
 
 def _populate_composite_face_sets_for_polylines(model, grid, polylines, lines_crs_uuid, grid_crs, lines_file_list,
-- 
2.43.0


From 9c8233407c167bd0fd2db26ebfcd9468d2e2e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 165/270] fix: multi patch surface kept stale composite arrays

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..d99c2f6 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -558,7 +558,7 @@ class Surface(rqsb.BaseSurface):
         """Populate this (empty) Surface object from a list of paits: array of triangle corner indices, array of points."""
 
         self.patch_list = []
-        self.trianges = None
+        self.triangles = None
         self.points = None
         for patch, entry in enumerate(triangles_and_points_list):
             assert len(entry) == 2, 'expecting pair of arrays (triangles, points) for each patch'
-- 
2.43.0


From eb2e374398d33d961958c010cedfbf432d5e10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 166/270] fix: point set from polyline set modified the lines
 when crs differ

---
 resqpy/surface/_pointset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 8a55ee0..e53bad1 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -213,7 +213,7 @@ class PointSet(rqsb.BaseSurface):
             assert master_crs is not None
             assert poly_coords is not None
             if not curr_crs.is_equivalent(master_crs):
-                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                 poly_coords = concat_polyset_points(poly.isclosed, shifted, poly_coords)
             else:
                 poly_coords = concat_polyset_points(poly.isclosed, poly.coordinates, poly_coords)
-- 
2.43.0


From ce3ed6e8bab4c4f5c1c442f3c962c754ba6281ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 167/270] fix: combining polylines modified them when crs
 differ

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..c394523 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -519,7 +519,7 @@ class PolylineSet(rql_c._BasePolyline):
             else:
                 curr_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 if not curr_crs.is_equivalent(master_crs):
-                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                     self.coordinates = np.concatenate((self.coordinates, shifted))
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly.coordinates))
-- 
2.43.0


From d7c6e32459bff0def9cb0b029dd9ad8646432dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 168/270] fix: polyline set create_xml failed when saving
 individual polylines

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index c394523..a741086 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -372,7 +372,7 @@ class PolylineSet(rql_c._BasePolyline):
                                                               'sourceObject')
                 if self.save_polys:
                     for poly in self.polys:
-                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root_node,
+                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root,
                                                                   'sourceObject')
 
                 ext_part = rqet.part_name_for_object('obj_EpcExternalPartReference', ext_uuid, prefixed = False)
-- 
2.43.0


From 1988db086f8808765a6942ca7c9fd4ab404832bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 169/270] fix: surface role was not read back for surfaces

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d99c2f6..217520c 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -226,6 +226,9 @@ class Surface(rqsb.BaseSurface):
         root_node = self.root
         assert root_node is not None
         self.extract_patches(root_node)
+        role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if role:
+            self.surface_role = role
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
             interp_root = self.model.referenced_node(ref_node)
-- 
2.43.0


From 32e0fde1fc2d495dbd6c0c3b45b827c18d95ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 170/270] fix: surface normal vector was stale after change of
 crs

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 217520c..31966b4 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -388,6 +388,9 @@ class Surface(rqsb.BaseSurface):
             patch.crs_uuid = self.crs_uuid
         self.triangles = None  # clear cached arrays for surface
         self.points = None
+        self.normal_vector = None  # normal vector is crs dependent; will be recomputed on demand
+        if self.extra_metadata:
+            self.extra_metadata.pop('normal vector', None)
         self.uuid = bu.new_uuid()  # hope this doesn't cause problems
         assert self.root is None
 
-- 
2.43.0


From 40e29b58dbbb4e53b1a719c5a36d6944baedc73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 171/270] fix: face_from_triangle_index of a triangulated patch
 always failed

---
 resqpy/surface/_triangulated_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_triangulated_patch.py b/resqpy/surface/_triangulated_patch.py
index 9600ff9..ad2b92f 100644
--- a/resqpy/surface/_triangulated_patch.py
+++ b/resqpy/surface/_triangulated_patch.py
@@ -542,11 +542,11 @@ class TriangulatedPatch:
         """For patch freshly built for cell faces, returns (axis, polarity) for given triangle index."""
 
         if self.quad_triangles:
-            assert self.node_count == 30 and self.triangle_count == 24
+            assert self.node_count == 14 and self.triangle_count == 24
             assert 0 <= triangle_index < 24
             face = triangle_index // 4
         else:
-            assert self.node_count == 24 and self.triangle_count == 12
+            assert self.node_count == 8 and self.triangle_count == 12
             assert 0 <= triangle_index < 12
             face = triangle_index // 2
         axis, polarity = divmod(face, 2)
-- 
2.43.0


From 091d0ecbe5eefb6c22daf048d10512fe0377b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 172/270] fix: make_all_clockwise_xy was lost when the surface
 was stored

---
 resqpy/surface/_surface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 31966b4..85d31f9 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -727,6 +727,13 @@ class Surface(rqsb.BaseSurface):
         else:
             p_xy = p
         triangulate.make_all_clockwise_xy(self.triangles, p_xy)  # modifies t in situ
+        # apply the same re-ordering to the individual patches
+        t_offset = 0
+        p_offset = 0
+        for tri_patch in self.patch_list:
+            tri_patch.triangles = self.triangles[t_offset:t_offset + tri_patch.triangle_count] - p_offset
+            t_offset += tri_patch.triangle_count
+            p_offset += tri_patch.node_count
         # assert np.all(vec.clockwise_triangles(p_xy, self.triangles) >= 0.0)
 
     def unit_adjusted_points(self):
-- 
2.43.0


From 7f9bc2229a4a9bc26f8b0296369ddd6756620f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 173/270] fix: make_clockwise was not in the reoriented space
 for surfaces from point sets

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 85d31f9..47c8124 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -699,7 +699,7 @@ class Surface(rqsb.BaseSurface):
             t = triangulate.dt(p_xy_e[:, :2], container_size_factor = convexity_parameter * 1.1)
         log.debug('number of triangles: ' + str(len(t)))
         if make_clockwise:
-            triangulate.make_all_clockwise_xy(t, p_e)  # modifies t in situ
+            triangulate.make_all_clockwise_xy(t, p_xy_e)  # modifies t in situ
         if extend_with_flange:
             flange_array = np.zeros(len(t), dtype = bool)
             flange_array[:] = np.where(np.any(t >= len(p), axis = 1), True, False)
-- 
2.43.0


From 60952d0990d7d07ee44bf695dc2691bc8f6fb1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 174/270] fix: saucer flange failed for a surface created
 without a crs

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 47c8124..d14143c 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -704,7 +704,7 @@ class Surface(rqsb.BaseSurface):
             flange_array = np.zeros(len(t), dtype = bool)
             flange_array[:] = np.where(np.any(t >= len(p), axis = 1), True, False)
             if saucer_parameter is not None:
-                _adjust_flange_z(self.model, self.crs_uuid, p_xy_e, len(p), t, flange_array, saucer_parameter)
+                _adjust_flange_z(self.model, point_set.crs_uuid, p_xy_e, len(p), t, flange_array, saucer_parameter)
                 p_e = vec.rotate_array(reorient_matrix.T, p_xy_e)
         if crs.xy_units != crs.z_units and reorient:
             wam.convert_lengths(p_e[:, 2], crs.xy_units, crs.z_units)
-- 
2.43.0


From b4528b02dd488df510e313283b35c86e477182b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 175/270] fix: vertical rescale of a surface read from file
 failed or left a stale normal

---
 resqpy/surface/_surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d14143c..745d2c0 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -1005,12 +1005,14 @@ class Surface(rqsb.BaseSurface):
             return
         if ref_depth is None:
             for patch in self.patch_list:
-                patch_min = np.min(patch.points[:, 2])
+                _, patch_points = patch.triangles_and_points()  # ensure points are loaded
+                patch_min = np.min(patch_points[:, 2])
                 if ref_depth is None or patch_min < ref_depth:
                     ref_depth = patch_min
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
         self.triangles = None  # invalidate any cached triangles & points in surface object
         self.points = None
+        self.normal_vector = None
         for patch in self.patch_list:
             patch.vertical_rescale_points(ref_depth, scaling_factor)
 
-- 
2.43.0


From 37a548a516b7bad19585fd98221d3fbbcd850bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 176/270] fix: tri mesh axial edge crossings in x and y ignored
 the origin, mixed units and paired the wrong nodes

---
 resqpy/surface/_tri_mesh.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resqpy/surface/_tri_mesh.py b/resqpy/surface/_tri_mesh.py
index 2b531fa..78b74b6 100644
--- a/resqpy/surface/_tri_mesh.py
+++ b/resqpy/surface/_tri_mesh.py
@@ -485,11 +485,13 @@ class TriMesh(rqs.Mesh):
 
         if axis == 0:  # x axis
 
+            if self.origin is not None:
+                value -= self.origin[0]
             xi, xr = divmod(value, self.t_side)
-            if xi >= 0.0 and xi + xr < (float(self.ni) - 0.5) * self.t_side:
+            if xi >= 0.0 and value < (float(self.ni) - 0.5) * self.t_side:
                 i = round(xi)
                 xrf = xr / self.t_side
-                if xi + xr < float(self.ni - 1) * self.t_side:
+                if value < float(self.ni - 1) * self.t_side:
                     # I edges, even node j
                     p = xyz[::2, i] * (1.0 - xrf) + xyz[::2, i + 1] * xrf
                 if i or xrf > 0.5:
@@ -517,9 +519,11 @@ class TriMesh(rqs.Mesh):
 
         elif axis == 1:
 
+            if self.origin is not None:
+                value -= self.origin[1]
             yi, yr = divmod(value, self.t_side * root_3_by_2)
 
-            if yi >= 0 and yi + yr <= (self.nj - 1) * self.t_side * root_3_by_2:
+            if yi >= 0.0 and value <= (self.nj - 1) * self.t_side * root_3_by_2:
                 j = round(yi)
                 if yr == 0.0:  # add first and last points from in-line edges
                     p = np.array([xyz[j, 0], xyz[j, -1]], dtype = float)
@@ -527,10 +531,10 @@ class TriMesh(rqs.Mesh):
                     yrp = yr / (self.t_side * root_3_by_2)
                     p = xyz[j, :] * (1.0 - yrp) + xyz[j + 1, :] * yrp
                     if j % 2:
-                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
-                    else:
                         pp = xyz[j, :-1] * (1.0 - yrp) + xyz[j + 1, 1:] * yrp
-                p = np.concatenate((p, pp))
+                    else:
+                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
+                    p = np.concatenate((p, pp))
 
         else:  # z axis
 
-- 
2.43.0


From c3b70771c441f4376cfe6c415395b34e88841131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 177/270] fix: tri mesh stencil result did not inherit title

---
 resqpy/surface/_tri_mesh_stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_tri_mesh_stencil.py b/resqpy/surface/_tri_mesh_stencil.py
index f5f2784..0316e6c 100644
--- a/resqpy/surface/_tri_mesh_stencil.py
+++ b/resqpy/surface/_tri_mesh_stencil.py
@@ -271,7 +271,7 @@ class TriMeshStencil:
                          ni = tri_mesh.ni,
                          origin = tri_mesh.origin,
                          z_uom = tri_mesh.z_uom,
-                         title = title,
+                         title = title if title else tri_mesh.title,
                          z_values = tm_z_applied,
                          surface_role = tri_mesh.surface_role,
                          crs_uuid = tri_mesh.crs_uuid)
-- 
2.43.0


From cac585165ea446a2517e131298e4de2837c20a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 178/270] fix: zonal_grid geometry was wrong for more than one
 zone, k gaps and undefined cells

---
 resqpy/derived_model/_zonal_grid.py | 96 ++++++++++++-----------------
 1 file changed, 38 insertions(+), 58 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 237120f..4774a77 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -212,36 +212,29 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
     return grid
 
 
-def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, zone_count):
-    source_points = source_grid.points_ref()
-    log.debug('scanning columns (split pillars) for reference geometry')
-    if not hasattr(source_grid, 'pillars_for_column'):
+def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, raw_k, top):
+    # sets top and base of each zone, within a column, from uppermost and lowermost cells in zone with defined geometry
+    log.debug('scanning columns for reference geometry')
+    if grid.has_split_coordinate_lines and not hasattr(source_grid, 'pillars_for_column'):
         source_grid.create_column_pillar_mapping()
-    grid.pillars_for_column = source_grid.pillars_for_column.copy()
-    no_cgid = (not hasattr(source_grid, 'array_cell_geometry_is_defined') or
-               source_grid.array_cell_geometry_is_defined is None)
-    for zone_i in range(zone_count):
-        zk0_min, zk0_max = zone_layer_range_list[zone_i][0:2]
-        for j in range(grid.nj):
-            for i in range(grid.ni):
-                if grid.inactive[zone_i, j, i]:
+    source_points = source_grid.points_ref()
+    cell_defined = source_grid.array_cell_geometry_is_defined
+    for j in range(grid.nj):
+        for i in range(grid.ni):
+            if grid.has_split_coordinate_lines:
+                pillars = (source_grid.pillars_for_column[j, i],)
+            else:
+                pillars = (slice(j, j + 2), slice(i, i + 2))
+            for zone_i, zone_range in enumerate(zone_layer_range_list):
+                zk0_min, zk0_max = zone_range[:2]
+                defined_k = zk0_min + np.where(cell_defined[zk0_min:zk0_max + 1, j, i])[0]
+                if len(defined_k) == 0:
                     continue
-                if zone_i == 0:
-                    for k in range(zk0_min, zk0_max + 1):
-                        if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                            for jp in range(2):
-                                for ip in range(2):
-                                    pillar = grid.pillars_for_column[j, i, jp, ip]
-                                    grid.points_cached[0, pillar] = source_points[k, pillar]
-                            break
-                for k in range(zk0_max + 1, zk0_min - 1, -1):
-                    if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                        for jp in range(2):
-                            for ip in range(2):
-                                pillar = grid.pillars_for_column[j, i, jp, ip]
-                                grid.points_cached[zone_i + 1, pillar] = source_points[k + 1, pillar]
-                        grid.array_cell_geometry_is_defined[zone_i, j, i] = True
-                        break
+                if (zone_i == 0 or top[zone_i] != top[zone_i - 1] + 1 or
+                        not grid.array_cell_geometry_is_defined[zone_i - 1, j, i]):
+                    grid.points_cached[(top[zone_i],) + pillars] = source_points[(raw_k[defined_k[0]],) + pillars]
+                grid.points_cached[(top[zone_i] + 1,) + pillars] = source_points[(raw_k[defined_k[-1]] + 1,) + pillars]
+                grid.array_cell_geometry_is_defined[zone_i, j, i] = True
 
 
 def _set_inactive_cell_mask(source_grid, grid, inactive_laissez_faire, single_layer_mode, k0_min, k0_max,
@@ -293,41 +286,28 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
         grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined.copy()
     # get reference to points for source grid geometry
     source_points = source_grid.points_ref()
+    # establish source and target points indices for top and base of each zone, allowing for layers left out and k gaps
+    raw_k = source_grid.k_raw_index_array if source_grid.k_gaps else np.arange(source_grid.nk, dtype = int)
+    last_k = source_grid.nk_plus_k_gaps  # a zone below the base of the source grid has zero thickness
+    source_top = np.array([raw_k[z[0]] if z[0] < source_grid.nk else last_k for z in zone_layer_range_list], dtype = int)
+    source_base = np.array([raw_k[z[1]] + 1 if z[1] < source_grid.nk else last_k for z in zone_layer_range_list], dtype = int)
+    gap_after = (source_top[1:] != source_base[:-1])
+    top = np.arange(zone_count, dtype = int)
+    top[1:] += np.cumsum(gap_after)
+    if np.any(gap_after):
+        grid.k_gaps = np.count_nonzero(gap_after)
+        grid.k_gap_after_array = gap_after
+        grid.k_raw_index_array = top
     # slice top and base points
     points_shape = list(source_points.shape)
-    points_shape[0] = zone_count + 1  # nk + 1
+    points_shape[0] = top[-1] + 2  # nk + k_gaps + 1
     grid.points_cached = np.zeros(points_shape)
     if grid.geometry_defined_for_all_cells_cached:
-        if single_layer_mode:
-            grid.points_cached[0] = source_points[k0_min]
-            grid.points_cached[1] = source_points[k0_max + 1]  # base face
-        else:
-            for zone_i in range(zone_count):
-                if zone_i == 0:
-                    grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
-    elif not grid.has_split_coordinate_lines:
-        log.debug('scanning columns (unsplit pillars) for reference geometry')
-        # fill in geometry: todo: replace with array operations if possible
-        no_cgid = (not hasattr(source_grid, 'array_cell_geometry_is_defined') or
-                   source_grid.array_cell_geometry_is_defined is None)
-        for zone_i in range(zone_count):
-            zk0_min, zk0_max = zone_layer_range_list[zone_i][0:2]
-            for j in range(grid.nj):
-                for i in range(grid.ni):
-                    if zone_i == 0:
-                        for k in range(zk0_min, zk0_max + 1):
-                            if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                                grid.points_cached[0, j:j + 2, i:i + 2] = source_points[k, j:j + 2, i:i + 2]
-                                break
-                    for k in range(zk0_max, zk0_min - 1, -1):
-                        if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                            grid.points_cached[zone_i + 1, j:j + 2, i:i + 2] = source_points[k + 1, j:j + 2, i:i + 2]
-                            grid.array_cell_geometry_is_defined[zone_i, j, i] = True
-                            break
+        grid.points_cached[top] = source_points[source_top]
+        grid.points_cached[top + 1] = source_points[source_base]
     else:
-        _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, zone_count)
+        _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, raw_k, top)
+        grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     if grid.has_split_coordinate_lines:
         grid.split_pillar_indices_cached = source_grid.split_pillar_indices_cached.copy()
         grid.cols_for_split_pillars = source_grid.cols_for_split_pillars.copy()
-- 
2.43.0


From eecfc31145c31e3df61959d8f1b1733da7ca6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 179/270] fix: clockwise sense of a polyline was wrong for
 concave polygons and left handed axes, and outward normals with it

---
 resqpy/lines/_polyline.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e096b06..0530a47 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -324,6 +324,8 @@ class Polyline(rql_c._BasePolyline):
             if cw_bool is None:
                 result = False  # whole polyline lies in a straight line
             if result:
+                if rqc.Crs(self.model, uuid = self.crs_uuid).is_right_handed_xy():
+                    cw_bool = not cw_bool
                 extras['is_clockwise'] = str(cw_bool).lower()
         extras['is_convex'] = str(result).lower()
         self.append_extra_metadata(extras)
@@ -335,9 +337,7 @@ class Polyline(rql_c._BasePolyline):
         assert self.isclosed, 'Polyline.is_clockwise() called for open polyline (only applicable to closed polylines)'
         if trust_metadata and self.extra_metadata is not None and 'is_clockwise' in self.extra_metadata.keys():
             return str(self.extra_metadata['is_clockwise']).lower() == 'true'
-        centre = np.mean(self.coordinates, axis = 0)
-        cw = vu.clockwise(centre, self.coordinates[0], self.coordinates[1])
-        result = (cw > 0.0)
+        result = (self._signed_area_xy() < 0.0)
         crs = rqc.Crs(self.model, uuid = self.crs_uuid)
         if crs.is_right_handed_xy():
             result = not result
@@ -400,9 +400,7 @@ class Polyline(rql_c._BasePolyline):
         normal_vector = np.zeros(3)
         normal_vector[0] = -segment_vector[1]
         normal_vector[1] = segment_vector[0]
-        cw = self.is_clockwise()
-        assert cw is not None, 'polyline is straight'
-        if not cw:
+        if self._signed_area_xy() > 0.0:  # note: handedness of the crs is not relevant here
             normal_vector = -normal_vector
         return normal_vector
 
@@ -938,6 +936,13 @@ class Polyline(rql_c._BasePolyline):
         h5_reg.register_dataset(self.uuid, 'points_patch0', self.coordinates)
         h5_reg.write(file_name, mode = mode)
 
+    def _signed_area_xy(self):
+        """Returns area in xy plane, of a closed polyline; positive if anti-clockwise when x is right & y is up."""
+
+        xy = self.coordinates[:, :2] - self.coordinates[0, :2]
+        next_xy = np.roll(xy, -1, axis = 0)
+        return 0.5 * np.sum(xy[:, 0] * next_xy[:, 1] - next_xy[:, 0] * xy[:, 1])
+
     def _successor(self, segment_index):
         """Returns segment_index + 1; or zero if segment_index is the last segment in a closed polyline."""
 
-- 
2.43.0


From d4ef82ada69c542131dc3cc014646df9e971bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 180/270] fix: area of a polygon depended on z values, and was
 approximate for a concave polygon

---
 resqpy/lines/_polyline.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 0530a47..d483d86 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -792,30 +792,9 @@ class Polyline(rql_c._BasePolyline):
                         rep_int_root = rep_int_root)
 
     def area(self):
-        """Returns the area in the xy plane of a closed convex polygon."""
+        """Returns the area in the xy plane of a closed (non self-intersecting) polygon."""
         assert self.isclosed
-        if self.is_convex():
-            centre = np.mean(self.coordinates, axis = 0)
-            a = 0.0
-            for node in range(len(self.coordinates)):
-                a += vu.area_of_triangle(centre, self.coordinates[node - 1], self.coordinates[node])
-        else:  # use a regular 2D sampling of points to determine approx area
-            xy_box = np.zeros((2, 2), dtype = float)
-            xy_box[0] = np.min(self.coordinates[:, :2], axis = 0)
-            xy_box[1] = np.max(self.coordinates[:, :2], axis = 0)
-            assert np.all(xy_box[1] > xy_box[0])
-            d_xy = xy_box[1] - xy_box[0]
-            d = d_xy[0] + d_xy[1]
-            f_xy = d_xy / d
-            n_xy = np.ceil(100.0 * f_xy).astype(int)
-            x = np.linspace(xy_box[0, 0], xy_box[1, 0], num = n_xy[0], dtype = float)
-            y = np.linspace(xy_box[0, 1], xy_box[1, 1], num = n_xy[1], dtype = float)
-            xy = np.stack(np.meshgrid(x, y), axis = -1).reshape((-1, 2))
-            inside = pip.pip_array_cn(xy, self.coordinates)
-            nf_xy = n_xy.astype(float)
-            d_xy *= (nf_xy + 1.0) / nf_xy
-            a = d_xy[0] * d_xy[1] * float(np.count_nonzero(inside)) / float(inside.size)
-        return a
+        return abs(self._signed_area_xy())
 
     def extract_property_collection(self, refresh = False):
         """Returns a property collection for the polyline.
-- 
2.43.0


From 7efeb75a4f493839fbb3c6d56ad19ca8c8afbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 181/270] fix: cached centre of a polyline was returned for
 another mode

---
 resqpy/lines/_polyline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index d483d86..91960eb 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -461,9 +461,10 @@ class Polyline(rql_c._BasePolyline):
     def balanced_centre(self, mode = 'weighted', n = 20, cache = True, in_xy = False):
         """Returns a mean x,y,z based on sampling polyline at regular intervals."""
 
+        assert mode in ['weighted', 'sampled']
+        cache = cache and mode == 'weighted' and not in_xy  # only the default centre is cached
         if cache and self.centre is not None:
             return self.centre
-        assert mode in ['weighted', 'sampled']
         if mode == 'sampled':  # this mode is deprecated as it simply approximates the weighted mode
             sample_points = self.equidistant_points(n, in_xy = in_xy)
             centre = np.mean(sample_points, axis = 0)
-- 
2.43.0


From 97f17f84f240d7f0cedd05f74fbd177d3cc409a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 182/270] fix: normalised_xy was not the inverse of
 denormalised_xy for square mode, nor for perimeter mode with varying z

---
 resqpy/lines/_polyline.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 91960eb..69b102f 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -641,15 +641,12 @@ class Polyline(rql_c._BasePolyline):
         segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
         assert px is not None
         norm_x, norm_y = None, None
-        if mode == 'square':  # todo: check square mode – looks wrong
-            if px == centre_xy[0]:
-                norm_x = 0.5
-            else:
-                norm_x = 0.5 + 0.5 * (x - centre_xy[0]) / abs(px - centre_xy[0])
-            if py == centre_xy[1]:
-                norm_y = 0.5
-            else:
-                norm_y = 0.5 + 0.5 * (y - centre_xy[1]) / abs(py - centre_xy[1])
+        if mode == 'square':
+            d_xy = np.array((x, y)) - centre_xy
+            dp_xy = np.array((px, py)) - centre_xy
+            axis = 0 if abs(dp_xy[0]) > abs(dp_xy[1]) else 1
+            rf = d_xy[axis] / dp_xy[axis]  # fractional distance from centre to boundary
+            norm_x, norm_y = 0.5 + 0.5 * rf * d_xy / np.max(np.abs(d_xy))
         elif mode == 'circle':
             d_xy = np.array((x, y)) - centre_xy
             dp_xy = np.array((px, py)) - centre_xy
@@ -743,7 +740,7 @@ class Polyline(rql_c._BasePolyline):
             if norm_y == 1.0:
                 norm_y = 0.0
             p_xy = np.empty(2)
-            p_xy[:] = self.interpolated_point(norm_y)[:2]
+            p_xy[:] = self.interpolated_point(norm_y, in_xy = True)[:2]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         elif mode == 'circle':
-- 
2.43.0


From f770533de3fb7279a3f5257d6dd7f90554644bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 183/270] fix: tangent vectors of a closed polyline were those
 of an open line

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 69b102f..fee81ee 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -756,7 +756,7 @@ class Polyline(rql_c._BasePolyline):
     def tangent_vectors(self):
         """Returns a numpy array of unit length tangent vectors, one for each coordinate in the line."""
 
-        return rql_c.tangents(self.coordinates)
+        return rql_c.tangents(self.coordinates, closed = self.isclosed)
 
     def splined(self,
                 tangent_weight = 'square',
-- 
2.43.0


From 6f3a865ba3bc8bc861ec9e77b8b3ed19e43db26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 184/270] fix: shift_polyline and flatten_polyline always
 failed

---
 resqpy/lines/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 17d1233..94f8497 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -82,7 +82,7 @@ def shift_polyline(parent_model, poly_root, xyz_shift = (0, 0, 0), title = ''):
 
     from resqpy.lines._polyline import Polyline
 
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
@@ -100,7 +100,7 @@ def flatten_polyline(parent_model, poly_root, axis = "z", value = 0.0, title = '
     axis = axis.lower()
     value = float(value)
     assert axis in ["x", "y", "z"], 'Axis must be x, y or z'
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
-- 
2.43.0


From f451e0b3b1e2b9d1ac87dfc851d832d0403adb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 185/270] fix: combining polylines started again at a repeat of
 the first one

---
 resqpy/lines/_polyline_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index a741086..bf28a61 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -511,8 +511,8 @@ class PolylineSet(rql_c._BasePolyline):
         self.count_perpol = []
         self.closed_array = []
 
-        for poly in polylines:
-            if poly == polylines[0]:
+        for i, poly in enumerate(polylines):
+            if i == 0:
                 master_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 self.crs_uuid = poly.crs_uuid
                 self.coordinates = poly.coordinates.copy()
-- 
2.43.0


From 9968090bc063222c009dcd62a3df312361a12cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 186/270] fix: convert_to_polylines lost closed flags of a set
 not yet stored

---
 resqpy/lines/_polyline_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index bf28a61..9c429a1 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -461,7 +461,9 @@ class PolylineSet(rql_c._BasePolyline):
 
         if count_perpol is None:
             count_perpol = self.count_perpol
-        if closed_array is None:
+        if closed_array is None and self.closed_array is not None and len(self.closed_array) == len(count_perpol):
+            closed_array = self.closed_array
+        elif closed_array is None:
             closed_array = np.zeros(len(count_perpol), dtype = bool)
             closed_node = rqet.find_nested_tags(self.root, ['LinePatch', 'ClosedPolylines'])
             if closed_node is not None:
-- 
2.43.0


From 67b3302c4d9254fa21d402266bb5c27cc9c3352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 187/270] fix: closed lines far from the origin lost their last
 point when a set was split

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 9c429a1..95cb2a7 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -484,7 +484,7 @@ class PolylineSet(rql_c._BasePolyline):
                 subset = coordinates[count:int(count_perpol[i]) + count].copy()
             else:
                 subset = coordinates[count:int(count_perpol[i]) + count + 1].copy()  # is this correct?
-            duplicated_end_points = np.all(np.isclose(subset[0], subset[-1])) and len(subset) > 2
+            duplicated_end_points = np.allclose(subset[0], subset[-1], rtol = 0.0, atol = 1.0e-6) and len(subset) > 2
             if closed_array is None:
                 isclosed = duplicated_end_points
             else:
-- 
2.43.0


From 44f655a36c51f5441e94a9dbd9d108feea39d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 188/270] fix: finding faces for a surface changed the points
 or crs of the caller's surface, so a second use of it was wrong

---
 resqpy/grid_surface/_find_faces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..d6e8325 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -94,6 +94,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
+        p = p.copy()  # leave points cached in surface unchanged
         s_crs.convert_array_to(grid.crs, p)
     triangles = p[t]
     assert triangles.size > 0, "no triangles in surface"
@@ -263,6 +264,7 @@ def find_faces_to_represent_surface_regular(
         surface.make_all_clockwise_xy(reorient = True)
     t, p = surface.triangles_and_points()
     assert t is not None and p is not None, f"surface {surface.title} is empty"
+    p = p.copy()  # leave points cached in surface unchanged
     if agitate:
         if random_agitation:
             p += 1.0e-5 * (np.random.random(p.shape) - 0.5)
@@ -275,7 +277,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -604,8 +605,8 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     triangles, points = surface.triangles_and_points()
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
+    points = points.copy()  # leave points cached in surface unchanged
     if agitate:
-        points = points.copy()
         if random_agitation:
             points += 1.0e-5 * (np.random.random(points.shape) - 0.5)
         else:
@@ -617,7 +618,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -982,7 +982,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
-- 
2.43.0


From 6a92cccb940bb2956e3b4af750eb885b9e0c56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 189/270] fix: depth of j and i faces found by the optimised
 method was a y or x value

---
 resqpy/grid_surface/_find_faces.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index d6e8325..5a3c546 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1066,8 +1066,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             if return_offsets:
                 j_offsets = (j_depths - j_faces.astype(np.float64) - 0.5) * dy
             if return_depths:
-                j_depths[:] += 0.5
-                j_depths[:] *= dy
+                j_depths = (j_hits[:, 1] + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1076,7 +1075,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 if return_offsets:
                     j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
                 if return_depths:
-                    j_depths = np.repeat(j_depths, grid.nk, axis = 0)
+                    j_depths = (j_faces_kji0[:, 0] + 0.5) * dz
             j_props = []
             if return_triangles:
                 j_props.append(j_triangles)
@@ -1118,8 +1117,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             if return_offsets:
                 i_offsets = (i_depths - i_faces.astype(np.float64) - 0.5) * dx
             if return_depths:
-                i_depths[:] += 0.5
-                i_depths[:] *= dx
+                i_depths = (i_hits[:, 1] + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1128,7 +1126,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 if return_offsets:
                     i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
                 if return_depths:
-                    i_depths = np.repeat(i_depths, grid.nk, axis = 0)
+                    i_depths = (i_faces_kji0[:, 0] + 0.5) * dz
             i_props = []
             if return_triangles:
                 i_props.append(i_triangles)
-- 
2.43.0


From 324a63c2d8d860f85bcd730e284a42a1ac081d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 190/270] fix: grid shadow failed without k faces, triangle and
 column bisector failed for a single row or column of cells (dense)

---
 resqpy/grid_surface/_find_faces.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 5a3c546..a070674 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -786,9 +786,9 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     # NB. following assumes faces have been added to gcs in a particular order!
     if return_triangles:
         # log.debug('preparing triangles array')
-        k_tri_list = (np.empty((0,)) if k_triangles is None else k_triangles[_where_true(k_faces)])
-        j_tri_list = (np.empty((0,)) if j_triangles is None else j_triangles[_where_true(j_faces)])
-        i_tri_list = (np.empty((0,)) if i_triangles is None else i_triangles[_where_true(i_faces)])
+        k_tri_list = (np.empty((0,), dtype = t_dtype) if k_triangles is None else k_triangles[_where_true(k_faces)])
+        j_tri_list = (np.empty((0,), dtype = t_dtype) if j_triangles is None else j_triangles[_where_true(j_faces)])
+        i_tri_list = (np.empty((0,), dtype = t_dtype) if i_triangles is None else i_triangles[_where_true(i_faces)])
         all_tris = np.concatenate((k_tri_list, j_tri_list, i_tri_list), axis = 0)
         # log.debug(f'gcs count: {gcs.count}; all triangles shape: {all_tris.shape}')
         assert all_tris.shape == (gcs.count,)
@@ -828,7 +828,9 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     if return_bisector:
         if is_curtain:
             log.debug("preparing columns bisector")
-            bisector = column_bisector_from_faces((grid.nj, grid.ni), j_faces[0], i_faces[0])
+            j_faces_layer = np.zeros((0, grid.ni), dtype = bool) if j_faces is None else j_faces[0]
+            i_faces_layer = np.zeros((grid.nj, 0), dtype = bool) if i_faces is None else i_faces[0]
+            bisector = column_bisector_from_faces((grid.nj, grid.ni), j_faces_layer, i_faces_layer)
             # log.debug('finished preparing columns bisector')
         else:
             log.debug("preparing cells bisector")
@@ -839,7 +841,10 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     # note: following is a grid cells property, not a gcs property
     if return_shadow:
         log.debug("preparing cells shadow")
-        shadow = shadow_from_faces(tuple(grid.extent_kji), k_faces)
+        if k_faces is None:
+            shadow = np.zeros(tuple(grid.extent_kji), dtype = np.int8)
+        else:
+            shadow = shadow_from_faces(tuple(grid.extent_kji), k_faces)
 
     if progress_fn is not None:
         progress_fn(1.0)
@@ -1237,7 +1242,10 @@ def find_faces_to_represent_surface_regular_optimised(grid,
     # note: following is a grid cells property, not a gcs property
     if return_shadow:
         log.debug("preparing cells shadow")
-        shadow = shadow_from_face_indices(tuple(grid.extent_kji), k_faces_kji0)
+        if k_faces_kji0 is None:
+            shadow = np.zeros(tuple(grid.extent_kji), dtype = np.int8)
+        else:
+            shadow = shadow_from_face_indices(tuple(grid.extent_kji), k_faces_kji0)
 
     if progress_fn is not None:
         progress_fn(1.0)
-- 
2.43.0


From d6e378e0fb992db5d83293e90b1387c47ff8bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 191/270] fix: consistent side was inconsistent between j faces
 and k and i faces

---
 resqpy/grid_surface/_find_faces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index a070674..94ae2b5 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -351,7 +351,8 @@ def find_faces_to_represent_surface_regular(
             (t_count, grid.nk, grid.ni))
         del j_centres
         if consistent_side:
-            cwt = vec.clockwise_triangles(p, t, projection = "xz") >= 0.0
+            # note: sense of xz projection is opposite to that of xy and yz
+            cwt = vec.clockwise_triangles(p, t, projection = "xz") < 0.0
         for j_t, j_k, j_i in np.stack(np.where(j_hits), axis = -1):
             xyz = meet.line_triangle_intersect(
                 centres[j_k, 0, j_i],
-- 
2.43.0


From b381cc7c558f3a5b9d105512347b0f496b4937dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 192/270] fix: triangles and offsets of curtain faces were
 assigned to the wrong faces below the top layer

---
 resqpy/grid_surface/_find_faces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 94ae2b5..05968b9 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1077,9 +1077,9 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 j_faces_kji0 = j_faces.reshape((-1, 3))
-                j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
+                j_triangles = np.tile(j_triangles, grid.nk)
                 if return_offsets:
-                    j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
+                    j_offsets = np.tile(j_offsets, grid.nk)
                 if return_depths:
                     j_depths = (j_faces_kji0[:, 0] + 0.5) * dz
             j_props = []
@@ -1128,9 +1128,9 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 i_faces_kji0 = i_faces.reshape((-1, 3))
-                i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
+                i_triangles = np.tile(i_triangles, grid.nk)
                 if return_offsets:
-                    i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
+                    i_offsets = np.tile(i_offsets, grid.nk)
                 if return_depths:
                     i_depths = (i_faces_kji0[:, 0] + 0.5) * dz
             i_props = []
-- 
2.43.0


From 56c978dbd06cfe4cb94fa17040b09cbe7208f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:53 +0000
Subject: [PATCH 193/270] fix: offsets failed for a regular grid with extent of
 one in any direction

---
 resqpy/grid_surface/_find_faces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 05968b9..6f1429e 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -334,6 +334,7 @@ def find_faces_to_represent_surface_regular(
     else:
         k_faces = None
         k_sides = None
+        k_offsets = None
         k_normals = None
 
     if progress_fn is not None:
@@ -385,6 +386,7 @@ def find_faces_to_represent_surface_regular(
     else:
         j_faces = None
         j_sides = None
+        j_offsets = None
         j_normals = None
 
     if progress_fn is not None:
@@ -435,6 +437,7 @@ def find_faces_to_represent_surface_regular(
     else:
         i_faces = None
         i_sides = None
+        i_offsets = None
         i_normals = None
 
     if progress_fn is not None:
-- 
2.43.0


From 2391bc54dd8465840991cf24630a7c79a96a2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 194/270] fix: normal vectors were adjusted the wrong way for
 differing xy and z units

---
 resqpy/grid_surface/_find_faces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 6f1429e..ac347cb 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -482,7 +482,7 @@ def find_faces_to_represent_surface_regular(
         log.debug(f"gcs count: {gcs.count}; all normals shape: {all_normals.shape}")
         assert all_normals.shape == (gcs.count, 3)
         if grid.crs.xy_units != grid.crs.z_units:
-            wam.convert_lengths(all_normals[:, 2], grid.crs.z_units, grid.crs.xy_units)
+            wam.convert_lengths(all_normals[:, 2], grid.crs.xy_units, grid.crs.z_units)
             all_normals = vec.unit_vectors(all_normals)
 
     if progress_fn is not None:
-- 
2.43.0


From e032903e3f7c3540775d88d7dcd1cd8f7e904e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:24 +0000
Subject: [PATCH 195/270] fix: grid skin failed for a faulted grid of a single
 row or column of columns

---
 resqpy/grid_surface/_grid_skin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 2f75d27..d08ece7 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -102,10 +102,11 @@ class GridSkin:
 
             # fault face processing
             j_column_faces, i_column_faces = grid.split_column_faces()
-            col_j0, col_i0 = np.where(j_column_faces)
+            # note: column faces are None if there is a single row or column of columns
+            col_j0, col_i0 = (np.where(j_column_faces) if j_column_faces is not None else np.empty((2, 0), dtype = int))
             self.fault_j_face_cols_ji0 = np.stack((col_j0, col_i0),
                                                   axis = -1)  # fault is on plus j face of these columns
-            col_j0, col_i0 = np.where(i_column_faces)
+            col_j0, col_i0 = (np.where(i_column_faces) if i_column_faces is not None else np.empty((2, 0), dtype = int))
             self.fault_i_face_cols_ji0 = np.stack((col_j0, col_i0),
                                                   axis = -1)  # fault is on plus i face of these columns
 
-- 
2.43.0


From 7e2be522f4af6267ed9f07ca6872c8fc04dbd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:11 +0000
Subject: [PATCH 196/270] fix: first intersection with layer interface failed
 when there was none, and column was wrong for a regular grid

---
 resqpy/grid_surface/_trajectory_intersects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index c08b9c7..5b4a6c5 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -269,7 +269,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     if is_regular:
         interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
         surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
-        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
+        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box(local = True))
     elif grid.has_split_coordinate_lines and not heal_faults:
         surface = rqgs.generate_torn_surface_for_layer_interface(grid,
                                                                  k0 = k0,
@@ -287,9 +287,12 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     col_list = []
     for traj in trajectory_list:
         xyz, knot, tri = find_first_intersection_of_trajectory_with_surface(traj, surface, start = start)
-        if is_regular:
+        if xyz is None:  # no intersection
+            knot = None
+            col = (None, None)
+        elif is_regular:
             col_j = int(xyz[1] / grid.block_dxyz_dkji[1, 1])
-            col_i = int(xyz[1] / grid.block_dxyz_dkji[2, 0])
+            col_i = int(xyz[0] / grid.block_dxyz_dkji[2, 0])
             assert 0 <= col_i < grid.ni and 0 <= col_j < grid.nj
             col = (col_j, col_i)
         else:
-- 
2.43.0


From 865db3c2b926458da43769d5959163f418b01962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:54 +0000
Subject: [PATCH 197/270] fix: grid skin failed for an unfaulted grid with k
 gaps

---
 resqpy/grid/_points_functions.py     | 2 ++
 resqpy/grid_surface/_grid_surface.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 9c7f949..1711d75 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -539,6 +539,8 @@ def split_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, masked
     assert not grid.k_gaps, 'split_x_section_points() method is for grids without k gaps; use split_gap_x_section_points()'
 
     points = grid.points_ref(masked = masked)
+    if not grid.has_split_coordinate_lines:
+        points = points.reshape((grid.nk + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
diff --git a/resqpy/grid_surface/_grid_surface.py b/resqpy/grid_surface/_grid_surface.py
index 699438b..88e0a77 100644
--- a/resqpy/grid_surface/_grid_surface.py
+++ b/resqpy/grid_surface/_grid_surface.py
@@ -186,6 +186,13 @@ def generate_untorn_surface_for_x_section(grid,
 
     assert axis.upper() in ['I', 'J']
 
+    if grid.k_gaps:  # layers are not contiguous so a torn mesh is needed
+        return generate_torn_surface_for_x_section(grid,
+                                                   axis,
+                                                   ref_slice0 = ref_slice0,
+                                                   plus_face = plus_face,
+                                                   quad_triangles = quad_triangles)
+
     x_sect_points = grid.unsplit_x_section_points(axis, ref_slice0 = ref_slice0, plus_face = plus_face)
     if as_single_layer:
         shape = np.array(x_sect_points.shape)
-- 
2.43.0


From 1f1afa24d06104167ff0af7b82530fc99b8c8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 198/270] fix: finding an intersection with nudge moved
 trajectory control points or the caller's start point

---
 resqpy/grid_surface/_trajectory_intersects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 5b4a6c5..6763107 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -170,8 +170,8 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     tri = None
     knot = start
     xyz_2 = tri_2 = None
-    if start_xyz is None:
-        start_xyz = trajectory.control_points[knot]
+    # note: copy is made as start_xyz might be nudged
+    start_xyz = np.array(trajectory.control_points[knot] if start_xyz is None else start_xyz, dtype = float)
     if knot < trajectory.knot_count - 2 and vec.isclose(start_xyz, trajectory.control_points[knot + 1]):
         knot += 1
     if nudge is not None and nudge != 0.0:
@@ -386,7 +386,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
-- 
2.43.0


From 93bb7acdfc1c229e10bd5419ed42122ad3c282c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:22 +0000
Subject: [PATCH 199/270] fix: grid skin mistook fault faces when faults were
 in i faces only

---
 resqpy/grid_surface/_grid_skin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index d08ece7..1876f01 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -29,6 +29,7 @@ class GridSkin:
         self.skin = None  #: compostite surface constructed during initialisation
         self.fault_j_face_cols_ji0 = None  # split internal J faces
         self.fault_i_face_cols_ji0 = None  # split internal I faces
+        self.fault_face_list = []  # for each fault surface, 0: J-, 1: J+, 2: I-, 3: I+
         self.polygon = None  # not yet in use
         self.is_regular = is_regular  #: indicates a simplified skin for a regular aligned grid
 
@@ -161,9 +162,11 @@ class GridSkin:
             surf_list = [top_surf, base_surf, j_minus_surf, j_plus_surf, i_minus_surf, i_plus_surf]
             for k_gap_surf in k_gap_surf_list:
                 surf_list.append(k_gap_surf)
-            for fault_surf in [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]:
+            for fault_face, fault_surf in enumerate(
+                [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]):
                 if fault_surf is not None:
                     surf_list.append(fault_surf)
+                    self.fault_face_list.append(fault_face)
 
         else:
 
@@ -325,17 +328,17 @@ class GridSkin:
                     polarity = 0
 
             else:  # fault face
-                axis, polarity = divmod(surf_index - (6 + 2 * self.k_gaps), 2)
+                fault_face = self.fault_face_list[surf_index - (6 + 2 * self.k_gaps)]
+                axis, polarity = divmod(fault_face, 2)
                 axis += 1
                 log.debug('penetration through fault face ' + 'KJI'[axis] + '-+'[polarity])
                 assert self.skin.is_combined_list[surf_index]
                 fault_surf_list = self.skin.surface_list[surf_index]
                 col_surf_index, _ = fault_surf_list.surface_index_for_triangle_index(surf_tri_index)
                 col_ji0 = np.empty((2,), dtype = int)
-                surf_index -= 6 + 2 * self.k_gaps
-                if surf_index in [0, 1]:  # J-/+ fault face
+                if fault_face in [0, 1]:  # J-/+ fault face
                     col_ji0[:] = self.fault_j_face_cols_ji0[col_surf_index]
-                elif surf_index in [2, 3]:  # I-/+ fault face
+                elif fault_face in [2, 3]:  # I-/+ fault face
                     col_ji0[:] = self.fault_i_face_cols_ji0[col_surf_index]
                 else:  # should not be possible
                     raise Exception('code failure')
-- 
2.43.0


From defef7ecc352f7e4a26ac84e846efa664164bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 200/270] fix: trajectory grid overlap could be missed when crs
 rotations differ

---
 resqpy/grid_surface/_trajectory_intersects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 6763107..5866857 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -415,9 +415,10 @@ def trajectory_grid_overlap(trajectory, grid, lazy = False):
     if not bu.matching_uuids(trajectory.crs_uuid, grid.crs_uuid):
         t_crs = rqc.Crs(trajectory.model, uuid = trajectory.crs_uuid)
         g_crs = rqc.Crs(grid.model, uuid = grid.crs_uuid)
-        t_crs.convert_array_to(g_crs, traj_box)
-        t_box = traj_box.copy()
-        traj_box[0] = np.min(t_box, axis = 0)
-        traj_box[1] = np.max(t_box, axis = 0)
+        # note: all points are converted, as a box does not remain aligned if there is a difference in rotation
+        traj_xyz = trajectory.control_points.copy()
+        t_crs.convert_array_to(g_crs, traj_xyz)
+        traj_box[0] = np.amin(traj_xyz, axis = 0)
+        traj_box[1] = np.amax(traj_xyz, axis = 0)
     log.debug(f'overlap check: traj: {traj_box}; grid{grid_box}; overlap: {bx.boxes_overlap(traj_box, grid_box)}')
     return bx.boxes_overlap(traj_box, grid_box)
-- 
2.43.0


From de8ad12cfed4fde5a2d86e069796a8ac9dd7ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 201/270] fix: deviation survey lost its angle units and
 interpretation on reading

---
 resqpy/well/_deviation_survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..bde5453 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
@@ -287,6 +288,7 @@ class DeviationSurvey(BaseResqpy):
         # Set related objects
         self.md_datum = self._load_related_datum()
         self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self.represented_interp
 
         # Validate
         assert self.measured_depths is not None
-- 
2.43.0


From f8da85df6e24b96a59104d6651939aaa89a9f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 202/270] fix: trajectory from deviation survey failed for
 changes of azimuth with no change of direction, and ignored radians

---
 resqpy/well/_trajectory.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..fb5d0ab 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -338,11 +338,17 @@ class Trajectory(BaseResqpy):
     def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        inclinations = np.array(survey.inclinations, dtype = float)
+        azimuths = np.array(survey.azimuths, dtype = float)
+        if not survey.angles_in_degrees:
+            inclinations = np.degrees(inclinations)
+            azimuths = np.degrees(azimuths)
+
         for sp in range(1, self.knot_count):
-            i1 = survey.inclinations[sp - 1]
-            i2 = survey.inclinations[sp]
-            az1 = survey.azimuths[sp - 1]
-            az2 = survey.azimuths[sp]
+            i1 = inclinations[sp - 1]
+            i2 = inclinations[sp]
+            az1 = azimuths[sp - 1]
+            az2 = azimuths[sp]
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
             if i1 == i2 and az1 == az2:
@@ -357,8 +363,8 @@ class Trajectory(BaseResqpy):
                 cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
                 theta = maths.acos(cos_theta)
                 #           theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
-                assert theta != 0.0  # shouldn't happen as covered by if clause above
-                half_rf = maths.tan(0.5 * theta) / theta
+                # directions can be the same with differing azimuths, eg. when vertical
+                half_rf = 0.5 if theta < 1.0e-7 else maths.tan(0.5 * theta) / theta
                 delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
-- 
2.43.0


From 46766591be3fcf1995f4b3bdc1221faabdde94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:34 +0000
Subject: [PATCH 203/270] fix: trajectory from deviation survey ignored units
 and z direction of crs, and a crs differing from that of the datum

---
 resqpy/well/_trajectory.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index fb5d0ab..88239db 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -329,15 +329,38 @@ class Trajectory(BaseResqpy):
             self.md_domain = md_domain
         self.control_points = np.empty((self.knot_count, 3))
         self.control_points[0, :] = survey.first_station
-        self.__calculate_trajectory_from_inclination_and_azimuth(survey = survey)
+        crs = self.__crs_for_survey(survey)
+        self.__calculate_trajectory_from_inclination_and_azimuth(survey = survey, crs = crs)
         self.tangent_vectors = None
         if set_tangent_vectors:
             self.set_tangents()
         self.md_datum = survey.md_datum
 
-    def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
+    def __crs_for_survey(self, survey):
+        """Returns crs for control points based on survey, first setting the first control point in that crs."""
+
+        datum_crs_uuid = None if survey.md_datum is None else survey.md_datum.crs_uuid
+        crs_uuid = datum_crs_uuid if self.crs_uuid is None else self.crs_uuid
+        if crs_uuid is None:
+            crs_uuid = self.model.crs_uuid
+        if crs_uuid is None:
+            return None
+        crs = rqc.Crs(self.model, uuid = crs_uuid)
+        if datum_crs_uuid is not None and not bu.matching_uuids(datum_crs_uuid, crs_uuid):
+            crs.convert_array_from(rqc.Crs(self.model, uuid = datum_crs_uuid), self.control_points[:1])
+        return crs
+
+    def __calculate_trajectory_from_inclination_and_azimuth(self, survey, crs):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        # factors for converting displacements from measured depth units, with z down, to those of the crs
+        factors = np.ones(3)
+        if crs is not None:
+            factors[:2] = wam.convert_lengths(1.0, survey.md_uom, crs.xy_units)
+            factors[2] = wam.convert_lengths(1.0, survey.md_uom, crs.z_units)
+            if not crs.z_inc_down:
+                factors[2] = -factors[2]
+
         inclinations = np.array(survey.inclinations, dtype = float)
         azimuths = np.array(survey.azimuths, dtype = float)
         if not survey.angles_in_degrees:
@@ -369,7 +392,7 @@ class Trajectory(BaseResqpy):
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
                 delta_v = np.array((delta_x, delta_y, delta_z))
-            self.control_points[sp] = self.control_points[sp - 1] + delta_v
+            self.control_points[sp] = self.control_points[sp - 1] + delta_v * factors
 
     def load_from_data_frame(
             self,
-- 
2.43.0


From 0cf456d294bec2ed4ce7bd19a6a7e3110519b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 204/270] fix: trajectory from wellspec took cell indices
 starting at one as starting at zero

---
 resqpy/well/_trajectory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 88239db..c780cfe 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -516,6 +516,7 @@ class Trajectory(BaseResqpy):
         cell_kji0_list[:, 0] = df['L']
         cell_kji0_list[:, 1] = df['JW']
         cell_kji0_list[:, 2] = df['IW']
+        cell_kji0_list -= 1  # Nexus cell indices start at one
 
         self.load_from_cell_list(grid, cell_kji0_list, spline_mode, md_uom)
 
-- 
2.43.0


From c7aee6827b0af13c964a5e1750893c7ed7ad13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 205/270] fix: place on trajectory at or above first knot
 ignored a first knot away from the datum and the crs of the datum

---
 resqpy/well/_trajectory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index c780cfe..1e5ad35 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -702,8 +702,13 @@ class Trajectory(BaseResqpy):
             return None
         if md <= self.start_md:
             if self.start_md == 0.0:
-                return self.md_datum.location
-            return interpolate(np.array(self.md_datum.location), self.control_points[0], md / self.start_md)
+                return self.control_points[0]
+            datum_xyz = np.array(self.md_datum.location, dtype = float)
+            if (self.crs_uuid is not None and self.md_datum.crs_uuid is not None and
+                    not bu.matching_uuids(self.crs_uuid, self.md_datum.crs_uuid)):
+                datum_crs = rqc.Crs(self.model, uuid = self.md_datum.crs_uuid)
+                datum_crs.convert_array_to(rqc.Crs(self.model, uuid = self.crs_uuid), datum_xyz.reshape((1, 3)))
+            return interpolate(datum_xyz, self.control_points[0], md / self.start_md)
         return search(md, 0, self.knot_count - 1)
 
     def inclinations(self):
-- 
2.43.0


From 3d1f1f853919d47590b49b3964e33631cb5ae261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 206/270] fix: inclination of a trajectory going straight up
 given as zero

---
 resqpy/well/_trajectory.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 1e5ad35..4423938 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -727,12 +727,7 @@ class Trajectory(BaseResqpy):
             interval_vectors[:, 2] = -interval_vectors[:, 2]
         interval_h = np.sqrt((interval_vectors[:, 0] * interval_vectors[:, 0]) +
                              (interval_vectors[:, 1] * interval_vectors[:, 1]))
-        restore = np.seterr(all = 'ignore')
-        incl_radians = np.arctan(interval_h / interval_vectors[:, 2])  # horizontal / vertical
-        np.seterr(**restore)
-        incl_radians = np.where(interval_vectors[:, 2] == 0.0, maths.pi / 2.0, incl_radians)
-        incl_radians = np.where(incl_radians < 0.0, incl_radians + maths.pi, incl_radians)
-        return np.degrees(incl_radians)
+        return np.degrees(np.arctan2(interval_h, interval_vectors[:, 2]))  # horizontal, vertical
 
     def splined_trajectory(self,
                            well_name,
-- 
2.43.0


From be0fbd34c1835dc4de8035074b130360f211992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 207/270] fix: measured depth datum of a deviation survey lost
 on reading

---
 resqpy/well/_deviation_survey.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index bde5453..7a6b892 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -463,11 +463,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From b641f41161defe0d5db5c847fe1e7d9ce22d5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:08 +0000
Subject: [PATCH 208/270] fix: blocked well could miss re-entry into grid
 before a later return to a fault cross section

---
 resqpy/grid_surface/_blocked_well_populate.py | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..ed40df9 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -416,6 +416,15 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
                                                                                             start = segment,
                                                                                             start_xyz = xyz,
                                                                                             nudge = -0.1)
+    if xyz_f is not None and not lazy and not vec.isclose(xyz, xyz_f, tolerance = 0.001):
+        # trajectory might enter grid elsewhere before reaching cross section
+        xyz_r, cell_kji0, axis_r, polarity_r, segment_r = __skin_reentry(trajectory, grid, segment, xyz,
+                                                                         use_single_layer_tactics, previous_kji0)
+        if xyz_r is not None:
+            fraction_r = __segment_fraction(trajectory.control_points, segment_r, xyz_r)
+            fraction_f = __segment_fraction(trajectory.control_points, segment_f, xyz_f)
+            if segment_r < segment_f or (segment_r == segment_f and fraction_r < fraction_f - 1.0e-6):
+                return False, cell_kji0, axis_r, polarity_r, segment_r, fraction_r, xyz_r
     if xyz_f is not None:
         # back out cell info from triangle index; note 'column_from...' is actually x_section cell face
         k0, j_or_i0 = x_sect_surf.column_from_triangle_index(tri_index_f)
@@ -427,13 +436,8 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
               f"{'' if lazy else '; checking for skin re-entry'}")
     if lazy:
         return None
-    skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
-    # following is problematic due to skewed fault planes
-    xyz_r, cell_kji0, axis, polarity, segment = skin.find_first_intersection_of_trajectory(trajectory,
-                                                                                           start = segment,
-                                                                                           start_xyz = xyz,
-                                                                                           nudge = -0.1,
-                                                                                           exclude_kji0 = previous_kji0)
+    xyz_r, cell_kji0, axis, polarity, segment = __skin_reentry(trajectory, grid, segment, xyz,
+                                                               use_single_layer_tactics, previous_kji0)
     if xyz_r is None:
         log.warning('no skin re-entry found after exit through fault face')
         return None
@@ -442,6 +446,17 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
     return False, cell_kji0, axis, polarity, segment, seg_fraction, xyz_r
 
 
+def __skin_reentry(trajectory, grid, segment, xyz, use_single_layer_tactics, previous_kji0):
+    # returns info on next intersection with skin after exit from previous cell through fault face
+    skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
+    # following is problematic due to skewed fault planes
+    return skin.find_first_intersection_of_trajectory(trajectory,
+                                                      start = segment,
+                                                      start_xyz = xyz,
+                                                      nudge = -0.1,
+                                                      exclude_kji0 = previous_kji0)
+
+
 def __back_calculated_md(trajectory, segment, fraction):
     base_md = trajectory.measured_depths[segment]
     return base_md + fraction * (trajectory.measured_depths[segment + 1] - base_md)
-- 
2.43.0


From 69ddcb4174c3ae83b22aaa80e0b140001bae9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:52 +0000
Subject: [PATCH 209/270] fix: blocking a well could fail after re-entry into
 grid

---
 resqpy/grid_surface/_blocked_well_populate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index ed40df9..3f3b0a6 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -163,6 +163,7 @@ def populate_blocked_well_from_trajectory(blocked_well,
 
     while next_cell_info is not None:
         entry_shared, kji0, entry_axis, entry_polarity, entry_knot, entry_fraction, entry_xyz = next_cell_info
+        kji0 = np.array(kji0, dtype = int)  # note: grid skin functions return a tuple
 
         # log.debug('next cell entry x,y,z: ' + str(entry_xyz) + '; knot: ' + str(entry_knot) + '; cell kji0: ' +
         #           str(kji0) + '; face: ' + 'KJI'[entry_axis] + '-+'[entry_polarity])
-- 
2.43.0


From 0fb9151b21b982030168de5f519393849d017fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 210/270] fix: first intersection of trajectory with cell
 surface was not always the first

---
 resqpy/grid_surface/_trajectory_intersects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 5866857..9347ee0 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -342,8 +342,8 @@ def find_first_intersection_of_trajectory_with_cell_surface(trajectory,
         #      log.debug('kji0: ' + str(kji0) + '; knot: ' + str(knot) + '; line p: ' + str(line_p) + '; v: ' + str(line_v))
         intersects = meet.line_triangles_intersects(line_p, line_v, triangles, line_segment = True)
         if not np.all(np.isnan(intersects)):
-            # if more than one intersect, could find one closest to line_p; should not be needed when starting inside cell
-            tri = meet.intersects_indices(intersects)[0]
+            # if more than one intersect, use the one closest to line_p; needed as cells are not necessarily convex
+            tri = np.nanargmin(np.sum((intersects - line_p)**2, axis = 1))
             xyz = intersects[tri]
             _, axis, polarity = cell_surface.cell_axis_and_polarity_from_triangle_index(tri)
             # log.debug('intersection xyz: ' + str(xyz) + '; tri: ' + str(tri) + '; axis: ' + str(axis) + '; polarity: ' +
-- 
2.43.0


From c2f8922a91df52a886ecd1b26a806646d30db6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 211/270] fix: grid skin search gave up when only the excluded
 cell was found on a segment

---
 resqpy/grid_surface/_grid_skin.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 1876f01..80e1cef 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -371,6 +371,18 @@ class GridSkin:
             if exclude_kji0 is None or not np.all(kji0 == exclude_kji0):
                 return xyz, kji0, axis, polarity, segment
 
+        # only intersections with the excluded cell found so far: continue the search beyond the last of them
+        next_knot_xyz = trajectory.control_points[segment + 1]
+        if np.sum((next_knot_xyz - try_xyz)**2) > 0.02**2:
+            return self.find_first_intersection_of_trajectory(trajectory,
+                                                              start = segment,
+                                                              start_xyz = try_xyz,
+                                                              nudge = 0.01,
+                                                              exclude_kji0 = exclude_kji0)
+        if segment + 2 < trajectory.knot_count:
+            return self.find_first_intersection_of_trajectory(trajectory,
+                                                              start = segment + 1,
+                                                              exclude_kji0 = exclude_kji0)
         return None, None, None, None, None
 
     def _make_k_gap_surfaces(self, quad_triangles = True):
-- 
2.43.0


From 2a866e6bce2ef2e8e481b1347125812fa11017ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:06 +0000
Subject: [PATCH 212/270] fix: blocked well could include pinched out cells on
 re-entry

---
 resqpy/grid_surface/_blocked_well_populate.py | 64 ++++++++++++-------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 3f3b0a6..d7bf128 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -162,6 +162,17 @@ def populate_blocked_well_from_trajectory(blocked_well,
     sample_test = np.zeros(grid.extent_kji, dtype = bool)
 
     while next_cell_info is not None:
+        if not next_cell_info[0] and next_cell_info[2] == 0 and grid.pinched_out(cell_kji0 = next_cell_info[1],
+                                                                                 cache_pinchout_array = True):
+            # entering grid through skin at a pinched out cell
+            _, kji0, entry_axis, entry_polarity, entry_knot, entry_fraction, entry_xyz = next_cell_info
+            next_cell_info = __skip_pinchouts(grid, kji0, np.array(kji0, dtype = int), entry_axis, 1 - entry_polarity,
+                                              trajectory, entry_knot, entry_fraction, entry_xyz, lazy,
+                                              use_single_layer_tactics)
+            if next_cell_info is not None:
+                next_cell_info = (False,) + tuple(next_cell_info[1:])
+            continue
+
         entry_shared, kji0, entry_axis, entry_polarity, entry_knot, entry_fraction, entry_xyz = next_cell_info
         kji0 = np.array(kji0, dtype = int)  # note: grid skin functions return a tuple
 
@@ -365,29 +376,36 @@ def __find_next_cell(
         return __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_single_layer_tactics,
                          previous_kji0)
     else:
-        # skip pinched out cells
-        pinchout_skip_sign = -1 if axis == 0 and polarity == 0 else 1
-        while grid.pinched_out(cell_kji0 = kji0, cache_pinchout_array = True):
-            kji0[0] += pinchout_skip_sign
-            if not (np.all(kji0 >= 0) and np.all(kji0 < grid.extent_kji)) or (grid.k_gaps and axis == 0 and (
-                (polarity == 0 and grid.k_gap_after_array[kji0[0]]) or
-                (polarity == 1 and grid.k_gap_after_array[kji0[0] - 1]))):
-                log.debug(
-                    f"trajectory reached edge of model {'or k gap ' if grid.k_gaps and axis == 0 else ''}at exit from cell kji0: {previous_kji0}"
-                )
-                if lazy:
-                    return None
-                skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
-                # nudge in following will be problematic if gap has zero (or tiny) thickness at this location
-                xyz_r, cell_kji0, axis, polarity, segment = skin.find_first_intersection_of_trajectory(trajectory,
-                                                                                                       start = segment,
-                                                                                                       start_xyz = xyz,
-                                                                                                       nudge = +0.01)
-                if xyz_r is None:
-                    return None  # no re-entry found after exit through skin
-                seg_fraction = __segment_fraction(trajectory.control_points, segment, xyz_r)
-                return False, cell_kji0, axis, polarity, segment, seg_fraction, xyz_r
-        return True, kji0, axis, 1 - polarity, segment, seg_fraction, xyz
+        return __skip_pinchouts(grid, previous_kji0, kji0, axis, polarity, trajectory, segment, seg_fraction, xyz, lazy,
+                                use_single_layer_tactics)
+
+
+def __skip_pinchouts(grid, previous_kji0, kji0, axis, polarity, trajectory, segment, seg_fraction, xyz, lazy,
+                     use_single_layer_tactics):
+    # returns same info as __find_next_cell, for the next cell after skipping any pinched out cells
+    # skip pinched out cells
+    pinchout_skip_sign = -1 if axis == 0 and polarity == 0 else 1
+    while grid.pinched_out(cell_kji0 = kji0, cache_pinchout_array = True):
+        kji0[0] += pinchout_skip_sign
+        if not (np.all(kji0 >= 0) and np.all(kji0 < grid.extent_kji)) or (grid.k_gaps and axis == 0 and (
+            (polarity == 0 and grid.k_gap_after_array[kji0[0]]) or
+            (polarity == 1 and grid.k_gap_after_array[kji0[0] - 1]))):
+            log.debug(
+                f"trajectory reached edge of model {'or k gap ' if grid.k_gaps and axis == 0 else ''}at exit from cell kji0: {previous_kji0}"
+            )
+            if lazy:
+                return None
+            skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
+            # nudge in following will be problematic if gap has zero (or tiny) thickness at this location
+            xyz_r, cell_kji0, axis, polarity, segment = skin.find_first_intersection_of_trajectory(trajectory,
+                                                                                                   start = segment,
+                                                                                                   start_xyz = xyz,
+                                                                                                   nudge = +0.01)
+            if xyz_r is None:
+                return None  # no re-entry found after exit through skin
+            seg_fraction = __segment_fraction(trajectory.control_points, segment, xyz_r)
+            return False, cell_kji0, axis, polarity, segment, seg_fraction, xyz_r
+    return True, kji0, axis, 1 - polarity, segment, seg_fraction, xyz
 
 
 def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_single_layer_tactics, previous_kji0):
-- 
2.43.0


From 8837302307d2e14c648f1de4a7a094e3e1378baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:45 +0000
Subject: [PATCH 213/270] fix: blocked well could stop at a k gap of no
 thickness or miss entry through a k gap

---
 resqpy/grid_surface/_blocked_well_populate.py | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index d7bf128..0ca664a 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -139,18 +139,25 @@ def populate_blocked_well_from_trajectory(blocked_well,
     previous_kji0[axis] += polarity * 2 - 1  # note: previous may legitimately be 'beyond' edge of grid
     entry_fraction = __segment_fraction(traj_xyz, entry_knot, xyz)
     log.debug(f'initial previous kji0: {previous_kji0}')
-    next_cell_info = __find_next_cell(grid,
-                                      previous_kji0,
-                                      axis,
-                                      1 - polarity,
-                                      trajectory,
-                                      entry_knot,
-                                      entry_fraction,
-                                      xyz,
-                                      check_for_reentry,
-                                      treat_skin_as_fault = use_single_layer_tactics,
-                                      lazy = lazy,
-                                      use_single_layer_tactics = use_single_layer_tactics)
+    if grid.k_gaps and axis == 0:  # note: previous cell might be on the far side of a k gap
+        if grid.pinched_out(cell_kji0 = cell_kji0, cache_pinchout_array = True):
+            next_cell_info = __skip_pinchouts(grid, cell_kji0, cell_kji0.copy(), axis, 1 - polarity, trajectory,
+                                              entry_knot, entry_fraction, xyz, lazy, use_single_layer_tactics)
+        else:
+            next_cell_info = True, cell_kji0, axis, polarity, entry_knot, entry_fraction, xyz
+    else:
+        next_cell_info = __find_next_cell(grid,
+                                          previous_kji0,
+                                          axis,
+                                          1 - polarity,
+                                          trajectory,
+                                          entry_knot,
+                                          entry_fraction,
+                                          xyz,
+                                          check_for_reentry,
+                                          treat_skin_as_fault = use_single_layer_tactics,
+                                          lazy = lazy,
+                                          use_single_layer_tactics = use_single_layer_tactics)
     log.debug(f'initial next cell info: {next_cell_info}')
     node_mds_list = [__back_calculated_md(trajectory, entry_knot, entry_fraction)]
     node_count = 1
@@ -347,6 +354,15 @@ def __find_next_cell(
     if np.any(kji0 < 0) or np.any(kji0 >= grid.extent_kji) or (grid.k_gaps and axis == 0 and (
         (polarity == 1 and previous_kji0[0] >= 0 and grid.k_gap_after_array[previous_kji0[0]]) or
         (polarity == 0 and kji0[0] < grid.nk - 1 and grid.k_gap_after_array[kji0[0]]))):
+        if np.all(kji0 >= 0) and np.all(kji0 < grid.extent_kji) and not grid.pinched_out(cell_kji0 = kji0,
+                                                                                         cache_pinchout_array = True):
+            # exiting into k gap, which might have zero thickness here
+            xyz_g, segment_g, axis_g, polarity_g = rqgs.find_first_intersection_of_trajectory_with_cell_surface(
+                trajectory, grid, kji0, segment, start_xyz = xyz, nudge = -0.01, quad_triangles = True)
+            if xyz_g is not None and axis_g == 0 and polarity_g == 1 - polarity and vec.isclose(
+                    xyz, xyz_g, tolerance = 0.001):
+                seg_fraction = __segment_fraction(trajectory.control_points, segment_g, xyz_g)
+                return True, kji0, axis, 1 - polarity, segment_g, seg_fraction, xyz_g
         if check_for_reentry and not lazy:
             skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
             # nudge in following will be problematic if gap has zero (or tiny) thickness at this location
-- 
2.43.0


From fba8ba323267ba5cc56f151f84674d8644eb55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:26 +0000
Subject: [PATCH 214/270] fix: blocked well missed re-entry to the cell just
 left through a fault face or grid side

---
 resqpy/grid_surface/_blocked_well_populate.py | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 0ca664a..461a649 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -485,11 +485,24 @@ def __skin_reentry(trajectory, grid, segment, xyz, use_single_layer_tactics, pre
     # returns info on next intersection with skin after exit from previous cell through fault face
     skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
     # following is problematic due to skewed fault planes
-    return skin.find_first_intersection_of_trajectory(trajectory,
-                                                      start = segment,
-                                                      start_xyz = xyz,
-                                                      nudge = -0.1,
-                                                      exclude_kji0 = previous_kji0)
+    other = skin.find_first_intersection_of_trajectory(trajectory,
+                                                       start = segment,
+                                                       start_xyz = xyz,
+                                                       nudge = -0.1,
+                                                       exclude_kji0 = previous_kji0)
+    # trajectory might re-enter the previous cell further along
+    onward = skin.find_first_intersection_of_trajectory(trajectory, start = segment, start_xyz = xyz, nudge = 0.01)
+    if onward[0] is None:
+        return other
+    if other[0] is None or onward[4] < other[4]:
+        return onward
+    if onward[4] > other[4] or np.all(np.array(onward[1]) == np.array(other[1])):
+        return other
+    traj_xyz = trajectory.control_points
+    if (__segment_fraction(traj_xyz, onward[4], onward[0]) <
+            __segment_fraction(traj_xyz, other[4], other[0]) - 1.0e-6):
+        return onward
+    return other
 
 
 def __back_calculated_md(trajectory, segment, fraction):
-- 
2.43.0


From 9329043c8aeef562084ce7d00f00422fe4baa6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 215/270] fix: active only option for blocking a well was
 ignored

---
 resqpy/grid_surface/_blocked_well_populate.py | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 461a649..ceac744 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -207,13 +207,15 @@ def populate_blocked_well_from_trajectory(blocked_well,
             if rqgs.point_is_within_cell(traj_xyz[-1], grid, kji0):
                 # well terminates within cell: add termination blocked interval (or unblocked if inactive cell)
                 log.debug(f'adding termination interval for cell {kji0}')
-                # todo: check for inactive cell and make an unblocked interval instead, if required
                 node_mds_list.append(trajectory.measured_depths[-1])
                 node_count += 1
-                grid_indices_list.append(0)
-                cell_indices_list.append(grid.natural_cell_index(kji0))
-                cell_count += 1
-                face_pairs_list.append(((entry_axis, entry_polarity), (-1, -1)))
+                if active_only and __is_inactive(grid, kji0):
+                    grid_indices_list.append(-1)
+                else:
+                    grid_indices_list.append(0)
+                    cell_indices_list.append(grid.natural_cell_index(kji0))
+                    cell_count += 1
+                    face_pairs_list.append(((entry_axis, entry_polarity), (-1, -1)))
                 break
             else:
                 next_cell_info = __forward_nudge(axis, entry_axis, entry_knot, entry_polarity, entry_xyz, grid, kissed,
@@ -225,13 +227,15 @@ def populate_blocked_well_from_trajectory(blocked_well,
         else:
             exit_fraction = __segment_fraction(traj_xyz, exit_knot, exit_xyz)
             log.debug(f'adding blocked interval for cell kji0: {kji0}')
-            # todo: check for inactive cell and make an unblocked interval instead, if required
             node_mds_list.append(__back_calculated_md(trajectory, exit_knot, exit_fraction))
             node_count += 1
-            grid_indices_list.append(0)
-            cell_indices_list.append(grid.natural_cell_index(kji0))
-            cell_count += 1
-            face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
+            if active_only and __is_inactive(grid, kji0):
+                grid_indices_list.append(-1)
+            else:
+                grid_indices_list.append(0)
+                cell_indices_list.append(grid.natural_cell_index(kji0))
+                cell_count += 1
+                face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
 
             previous_kji0 = kji0
             # log.debug(f'previous kji0 set to {previous_kji0}')
@@ -276,6 +280,10 @@ def populate_blocked_well_from_trajectory(blocked_well,
     return blocked_well
 
 
+def __is_inactive(grid, kji0):
+    return grid.inactive is not None and grid.inactive[tuple(kji0)]
+
+
 def generate_surface_for_blocked_well_cells(blocked_well,
                                             combined = True,
                                             active_only = False,
-- 
2.43.0


From bd2d0dacec047f8783ec2187b9489cf54fa35c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:43 +0000
Subject: [PATCH 216/270] fix: surface for blocked well cells failed with
 active only or depth limit options

---
 resqpy/grid_surface/_blocked_well_populate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index ceac744..f890ac9 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -308,11 +308,11 @@ def generate_surface_for_blocked_well_cells(blocked_well,
     for cell in range(cell_count):
         grid = grid_list[cell]
         cell_kji0 = cells_kji0[cell]
-        if active_only and grid.inactive is not None and grid.inactive[cell_kji0]:
+        if active_only and grid.inactive is not None and grid.inactive[tuple(cell_kji0)]:
             continue
         if cell_kji0[0] < min_k0 or (max_k0 is not None and cell_kji0[0] > max_k0):
             continue
-        if depth_limit is not None and grid.centre_point(cell_kji0) > depth_limit:
+        if depth_limit is not None and grid.centre_point(cell_kji0)[2] > depth_limit:
             continue
         cp = grid.corner_points(cell_kji0)
         if combined:
-- 
2.43.0


From d75172f92032f515e4c25efc7163511d71565d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 217/270] fix: dates of one well's wellspec leaked into an
 earlier (undated) section of the next well

---
 resqpy/olio/wellspec_keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..c6cb1e5 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -400,11 +400,12 @@ def get_well_pointers(
             date = date_obj.isoformat()
             time_pointers[file.tell()] = date
 
-    current_date = None  # Before first TIME
+    initial_date = None  # Before first TIME
     if no_date_replacement is not None:
-        current_date = no_date_replacement.isoformat()
+        initial_date = no_date_replacement.isoformat()
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
-- 
2.43.0


From 62695d70ff6944be9fb01c318be31a7c174ce7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:49 +0000
Subject: [PATCH 218/270] fix: blocked well from table with ANGLA or ANGLV
 failed when face centres are not known

---
 resqpy/well/_blocked_well.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..18e76d3 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -907,6 +907,7 @@ class BlockedWell(BaseResqpy):
             # fabricate entry and exit axes and polarities based on indices alone
             # note: could use geometry but here a cheap rough-and-ready approach is used
             log.debug('row ' + str(i) + ': using cell moves')
+            entry_xyz = exit_xyz = None  # face centres will be used
             entry_axis, entry_polarity, exit_axis, exit_polarity = BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_indices(
                 df = df, i = i, cell_kji0 = cell_kji0, blocked_cells_kji0 = blocked_cells_kji0)
 
@@ -916,7 +917,9 @@ class BlockedWell(BaseResqpy):
             exit_axis = exit_axis,
             entry_polarity = entry_polarity,
             exit_polarity = exit_polarity,
-            cp = cp)
+            cp = cp,
+            entry_xyz = entry_xyz,
+            exit_xyz = exit_xyz)
 
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
@@ -997,7 +1000,8 @@ class BlockedWell(BaseResqpy):
 
     @staticmethod
     def __override_vector_based_xyz_entry_and_exit_points_if_necessary(use_face_centres, entry_axis, exit_axis,
-                                                                       entry_polarity, exit_polarity, cp):
+                                                                       entry_polarity, exit_polarity, cp, entry_xyz,
+                                                                       exit_xyz):
         """Override the vector based xyz entry and exit with face centres."""
 
         if use_face_centres:  # override the vector based xyz entry and exit points with face centres
@@ -1013,7 +1017,7 @@ class BlockedWell(BaseResqpy):
                 exit_xyz = np.mean(cp[:, exit_polarity, :], axis = (0, 1))
             else:
                 exit_xyz = np.mean(cp[:, :, exit_polarity], axis = (0, 1))  # exit_axis == 2, ie. I
-            return entry_xyz, exit_xyz
+        return entry_xyz, exit_xyz
 
     @staticmethod
     def __add_interval(previous_xyz, entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz,
-- 
2.43.0


From 8d3a6ad42a5d38e80a5073e6dbcd02951cbde06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 219/270] fix: only the first of consecutive wellspec rows for
 another grid was skipped

---
 resqpy/well/_blocked_well.py | 31 +++++++++++++++++--------------
 resqpy/well/well_utils.py    |  3 ++-
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 18e76d3..41d5136 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -783,7 +783,21 @@ class BlockedWell(BaseResqpy):
 
         log.debug('wellspec dataframe for well ' + str(well_name) + ' has ' + str(len(df)) + ' row' + rqwu._pl(len(df)))
 
+        # discard rows without cell indices or for other grids
         skipped_warning_grid = None
+        kept_rows = []
+        for i in range(len(df)):
+            if BlockedWell.__cell_kji0_from_df(df, i) is None:
+                log.error('missing cell index in wellspec data for well ' + str(well_name) + ' row ' + str(i + 1))
+                continue
+            skipped_warning_grid, skip_row = BlockedWell.__verify_grid_name(grid_name_to_check = grid_name_to_check,
+                                                                            row = df.iloc[i],
+                                                                            skipped_warning_grid = skipped_warning_grid,
+                                                                            well_name = well_name)
+            if not skip_row:
+                kept_rows.append(i)
+        assert len(kept_rows) > 0, 'no usable rows in dataframe for blocked well ' + str(well_name)
+        df = df.iloc[kept_rows]
 
         angles_present = ('ANGLV' in df.columns and 'ANGLA' in df.columns and not pd.isnull(df.iloc[0]['ANGLV']) and
                           not pd.isnull(df.iloc[0]['ANGLA']))
@@ -795,19 +809,8 @@ class BlockedWell(BaseResqpy):
         for i in range(len(df)):  # for each row in the dataframe for this well
 
             cell_kji0 = BlockedWell.__cell_kji0_from_df(df, i)
-            if cell_kji0 is None:
-                log.error('missing cell index in wellspec data for well ' + str(well_name) + ' row ' + str(i + 1))
-                continue
-
             row = df.iloc[i]
 
-            skipped_warning_grid, skip_row = BlockedWell.__verify_grid_name(grid_name_to_check = grid_name_to_check,
-                                                                            row = row,
-                                                                            skipped_warning_grid = skipped_warning_grid,
-                                                                            well_name = well_name)
-            if skip_row:
-                continue
-
             cp = grid.corner_points(cell_kji0 = cell_kji0, cache_resqml_array = False)
             assert not np.any(np.isnan(cp)), 'missing geometry for perforation cell for well ' + str(well_name)
 
@@ -888,12 +891,12 @@ class BlockedWell(BaseResqpy):
     def __verify_grid_name(grid_name_to_check, row, skipped_warning_grid, well_name):
         """Check whether the grid associated with a row of the dataframe matches the expected grid name."""
         skip_row = False
-        if grid_name_to_check and pd.notna(row['GRID']) and grid_name_to_check != str(row['GRID']).upper():
+        if grid_name_to_check and 'GRID' in row and pd.notna(row['GRID']) and grid_name_to_check != str(row['GRID']).upper():
             other_grid = str(row['GRID'])
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
-                skip_row = True
+            skip_row = True
         return skipped_warning_grid, skip_row
 
     @staticmethod
@@ -1091,7 +1094,7 @@ class BlockedWell(BaseResqpy):
                     assert col in df.columns[3:]  # could just skip missing columns
                 property_columns = add_as_properties
             else:
-                property_columns = df.columns[3:]
+                property_columns = [col for col in df.columns[3:] if col.upper() != 'GRID']
             self.add_df_properties(df,
                                    property_columns,
                                    length_uom = length_uom,
diff --git a/resqpy/well/well_utils.py b/resqpy/well/well_utils.py
index 324b038..e8ba620 100644
--- a/resqpy/well/well_utils.py
+++ b/resqpy/well/well_utils.py
@@ -161,7 +161,8 @@ def _derive_from_wellspec_check_grid_name(check_grid_name, grid, col_list):
         if not grid_name:
             name_for_check = None
         else:
-            col_list.append('GRID')
+            if col_list:  # note: an empty list indicates that all columns are to be loaded
+                col_list.append('GRID')
             name_for_check = grid_name
     else:
         name_for_check = None
-- 
2.43.0


From d512a554ec28fa3f419225e48fb7efc0a41d2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 220/270] fix: wellspec table with index columns not first gave
 wrong cells

---
 resqpy/well/_blocked_well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 41d5136..d526ac2 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -666,6 +666,8 @@ class BlockedWell(BaseResqpy):
         assert len(wellspec_dict) == 1, 'no wellspec data found in file ' + wellspec_file + ' for well ' + well_name
 
         df = wellspec_dict[well_name]
+        ijk_cols = ['IW', 'JW', 'L']
+        df = df[ijk_cols + [col for col in df.columns if col not in ijk_cols]]  # derivation needs indices first
         assert len(df) > 0, 'no rows of perforation data found in wellspec for well ' + well_name
 
         if 'DATE' not in df.columns or not dates_list:
-- 
2.43.0


From ab8fb5dfe1ace61e85ff1260cab83c5812963550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 221/270] fix: write_wellspec failed with default length units

---
 resqpy/well/_blocked_well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index d526ac2..3489360 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -3096,6 +3096,8 @@ class BlockedWell(BaseResqpy):
 
         if write_nexus_units:
             length_uom_system_list = ['METRIC', 'ENGLISH']
+            if length_uom is None:
+                length_uom = 'm' if self.trajectory is None else self.trajectory.md_uom
             length_uom_index = ['m', 'ft'].index(length_uom)
             fp.write(f'{length_uom_system_list[length_uom_index]}\n\n')
 
-- 
2.43.0


From 0bc3efbd9984b8cf82c4668b57dd83c77c179d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 222/270] fix: straight length mode blocked well table failed
 or had wrong depth sign and units

---
 resqpy/well/_blocked_well.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 3489360..5af11b5 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2072,8 +2072,7 @@ class BlockedWell(BaseResqpy):
                             ('ANGLV' in column_list and 'ANGLV' not in pc_titles), (doing_kh), (do_well_inflow)])
         doing_xyz = any([('X' in column_list and 'X' not in pc_titles), ('Y' in column_list and 'Y' not in pc_titles),
                          ('DEPTH' in column_list and 'DEPTH' not in pc_titles)])
-        doing_entry_exit = any([(doing_angles),
-                                ('LENGTH' in column_list and 'LENGTH' not in pc_titles and length_mode == 'straight')])
+        doing_entry_exit = doing_angles or length_mode == 'straight'
 
         # doing_angles = (('ANGLA' in column_list and 'ANGLA' not in pc_titles) or
         #                 ('ANGLV' in column_list and 'ANGLV' not in pc_titles) or doing_kh or do_well_inflow)
@@ -2614,15 +2613,15 @@ class BlockedWell(BaseResqpy):
 
         if length_mode == 'MD' and self.trajectory is not None:
             xyz = self.trajectory.xyz_for_md(md)
-            if length_uom is not None and length_uom != self.trajectory.md_uom:
-                wam.convert_lengths(xyz, traj_crs.z_units, length_uom)
+            if length_uom is not None:
+                xyz = BlockedWell._single_uom_xyz(xyz, traj_crs, length_uom)
             if depth_inc_down and traj_z_inc_down is False:
                 xyz[2] = -xyz[2]
         else:
             xyz = 0.5 * (np.array(exit_xyz) + np.array(entry_xyz))
-            if length_uom is not None and length_uom != ee_crs.z_units:
-                xyz[2] = wam.convert_lengths(xyz[2], ee_crs.z_units, length_uom)
-            if depth_inc_down != ee_crs.z_inc_down:
+            if length_uom is not None:
+                xyz = BlockedWell._single_uom_xyz(xyz, ee_crs, length_uom)
+            if depth_inc_down and not ee_crs.z_inc_down:
                 xyz[2] = -xyz[2]
 
         return xyz
-- 
2.43.0


From db2bb6ce2caabbee85e83c770217398086b48105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 223/270] fix: KH with net to gross and isotropic permeability
 failed

---
 resqpy/well/_blocked_well.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 5af11b5..96cecf9 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2040,6 +2040,7 @@ class BlockedWell(BaseResqpy):
         if doing_kh or do_well_inflow:
             if perm_j_uuid is None and perm_k_uuid is None:
                 isotropic_perm = True
+                perm_j_uuid = perm_k_uuid = perm_i_uuid
             else:
                 if perm_j_uuid is None:
                     perm_j_uuid = perm_i_uuid
-- 
2.43.0


From 2ff29ea68be8200cf42538d381fd156c801b03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 224/270] fix: double unit conversion of ANGLV for crs with
 mixed xy and z units

---
 resqpy/well/_blocked_well.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 96cecf9..5148ecb 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2334,11 +2334,6 @@ class BlockedWell(BaseResqpy):
         vector = vec.unit_vector(np.array(exit_xyz) - np.array(entry_xyz))  # nominal wellbore vector for interval
         if traj_z_inc_down is not None and traj_z_inc_down != grid_crs.z_inc_down:
             vector[2] = -vector[2]
-        if grid.crs.xy_units == grid.crs.z_units:
-            unit_adjusted_vector = vector
-        else:
-            unit_adjusted_vector = vector.copy()
-            unit_adjusted_vector[2] = wam.convert_lengths(unit_adjusted_vector[2], grid.crs.z_units, grid.crs.xy_units)
         v_ref_vector = BlockedWell.__get_ref_vector(grid, grid_crs, cell_kji0, anglv_ref)
         # log.debug('v ref vector: ' + str(v_ref_vector))
         if angla_plane_ref == anglv_ref:
@@ -2351,7 +2346,7 @@ class BlockedWell(BaseResqpy):
             cosine_anglv = maths.cos(anglv_rad)
             sine_anglv = maths.sin(anglv_rad)
         else:
-            cosine_anglv = min(max(vec.dot_product(unit_adjusted_vector, v_ref_vector), -1.0), 1.0)
+            cosine_anglv = min(max(vec.dot_product(vector, v_ref_vector), -1.0), 1.0)
             anglv_rad = maths.acos(cosine_anglv)
             sine_anglv = maths.sin(anglv_rad)
             anglv = vec.degrees_from_radians(anglv_rad)
-- 
2.43.0


From daa74361ed639082c4005cee7ddaee46649a4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 225/270] fix: min_kh ignored when KH comes from properties

---
 resqpy/well/_blocked_well.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 5148ecb..949c61b 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2406,12 +2406,12 @@ class BlockedWell(BaseResqpy):
                                                   cosine_anglv = cosine_anglv,
                                                   sine_angla = sine_angla,
                                                   cosine_angla = cosine_angla)
-            if min_kh is not None and kh < min_kh:
-                skip_interval = True
         elif 'KH' in pc_titles:
             kh = pc.single_array_ref(citation_title = 'KH')[ci]
         else:
             kh = None
+        if min_kh is not None and kh is not None and kh < min_kh:
+            skip_interval = True
         return skip_interval, kh
 
     @staticmethod
-- 
2.43.0


From 125cfbd7571f81137b0946f6b59536a395d84396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 226/270] fix: load_wellspecs dropped cells of different grids
 as duplicates, and failed without IW JW L

---
 resqpy/olio/wellspec_keywords.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index c6cb1e5..43f40ad 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -514,9 +514,13 @@ def get_well_data(
     if not keep_null_columns:
         df.drop(columns = df.columns[df.isna().all()], inplace = True)
 
-    if not keep_duplicate_cells and any(df.duplicated(subset = ["IW", "JW", "L"])):
-        log.warning(f"There are duplicate cells for well {well_name}.")
-        df.drop_duplicates(subset = ["IW", "JW", "L"], keep = "last", inplace = True)
+    cell_columns = ["IW", "JW", "L"]
+    if (not keep_duplicate_cells and all([col in df.columns for col in cell_columns])):
+        if "GRID" in df.columns:
+            cell_columns.append("GRID")
+        if any(df.duplicated(subset = cell_columns)):
+            log.warning(f"There are duplicate cells for well {well_name}.")
+            df.drop_duplicates(subset = cell_columns, keep = "last", inplace = True)
 
     def stat_tranformation(row):
         if row["STAT"] == "ON":
-- 
2.43.0


From 7a99f2b79d4c41e1bc53359a4e691d019dd37ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 227/270] fix: lower case STAT values read as off

---
 resqpy/olio/wellspec_keywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 43f40ad..affbb1f 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -523,7 +523,7 @@ def get_well_data(
             df.drop_duplicates(subset = cell_columns, keep = "last", inplace = True)
 
     def stat_tranformation(row):
-        if row["STAT"] == "ON":
+        if str(row["STAT"]).upper() == "ON":
             return np.int8(1)
         else:
             return np.int8(0)
-- 
2.43.0


From be49342b382183b10648e46321863ade7ddb320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 228/270] fix: C comment line after a blank line in a wellspec
 table taken as data

---
 resqpy/olio/wellspec_keywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index affbb1f..bdbeeea 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -468,7 +468,7 @@ def get_well_data(
     data: Dict[str, List] = {col: [] for col in df_col}
     all_null = True
     while True:
-        kf.skip_comments(file)
+        kf.skip_blank_lines_and_comments(file)
         if (kf.specific_keyword_next(file, "WELLSPEC") or kf.specific_keyword_next(file, "WELLMOD") or
                 kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE")):
             break
-- 
2.43.0


From 9c7d00c9c937fcbf33caf393176d6c8a89af1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 229/270] fix: cellio import with z up grid gave negative
 measured depths

---
 resqpy/well/_blocked_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 949c61b..a817beb 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -1175,7 +1175,7 @@ class BlockedWell(BaseResqpy):
                         if include_overburden_unblocked_interval:
                             log.debug('adding mean sea level trajectory start')
                             previous_xyz[2] = 0.0  # use depth zero as md datum
-                        trajectory_mds.append(previous_xyz[2])
+                        trajectory_mds.append(previous_xyz[2] if grid_z_inc_down else -previous_xyz[2])
                         trajectory_points.append(previous_xyz)
 
                     if not vec.isclose(previous_xyz, entry_xyz, tolerance = 0.05):  # add an unblocked interval
-- 
2.43.0


From 15068a6460e082293356ad0a95d3bee9bc978af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 230/270] fix: wellspec file with units keyword after a table
 could not be read

---
 resqpy/olio/wellspec_keywords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index bdbeeea..8a80df3 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -470,7 +470,8 @@ def get_well_data(
     while True:
         kf.skip_blank_lines_and_comments(file)
         if (kf.specific_keyword_next(file, "WELLSPEC") or kf.specific_keyword_next(file, "WELLMOD") or
-                kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE")):
+                kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE") or
+                kf.specific_keyword_next(file, "METRIC") or kf.specific_keyword_next(file, "ENGLISH")):
             break
         line = kf.strip_trailing_comment(file.readline())
         words = line.split()
-- 
2.43.0


From 22e0046d23b85cf5f534f4dcb7678f7a1eb37888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 231/270] fix: default RADW of 0.1 used regardless of length
 units

---
 resqpy/well/_blocked_well.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index a817beb..1030708 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -1672,7 +1672,8 @@ class BlockedWell(BaseResqpy):
             if skin_i is None:
                 skin_i = 0.0
             if radw_i is None:
-                radw_i = (0.33 if length_uom == 'ft' else 0.1)
+                radw_uom = grid.crs.xy_units if length_uom is None else length_uom
+                radw_i = (0.33 if radw_uom.startswith('ft') else 0.1)
             if stat_i is None:
                 stat_i = stat
 
-- 
2.43.0


From 9c3fb25d1dae0a1c7b70deb4440815134a3db4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 232/270] fix: nan fraction for depth at zero length interval
 of a wellbore frame

---
 resqpy/well/_wellbore_frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_wellbore_frame.py b/resqpy/well/_wellbore_frame.py
index eb2dbaf..931b82b 100644
--- a/resqpy/well/_wellbore_frame.py
+++ b/resqpy/well/_wellbore_frame.py
@@ -178,7 +178,8 @@ class WellboreFrame(BaseResqpy):
             return -1, 0.0  # -1 indicates md is not in any frame interval, 0.0 indicates too shallow
         for i in range(self.node_count - 1):
             if md <= self.node_mds[i + 1]:
-                return i, (md - self.node_mds[i]) / (self.node_mds[i + 1] - self.node_mds[i])
+                interval_length = self.node_mds[i + 1] - self.node_mds[i]
+                return i, ((md - self.node_mds[i]) / interval_length) if interval_length > 0.0 else 0.0
         return -1, 1.0  # 1.0 indicates md is deeper than the intervals covered by the frame
 
     def create_feature_and_interpretation(self):
-- 
2.43.0


From 3269faba93686b79f576a960c4f0877b2964560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 233/270] fix: frame intervals only touching a blocked well
 cell counted as contributing to it

---
 resqpy/well/blocked_well_frame.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/blocked_well_frame.py b/resqpy/well/blocked_well_frame.py
index ebe327b..52c60d2 100644
--- a/resqpy/well/blocked_well_frame.py
+++ b/resqpy/well/blocked_well_frame.py
@@ -65,7 +65,8 @@ def blocked_well_frame_contributions_list(bw, wbf):
         cell_fr = (min(cell_exit_md, wbf.node_mds[exit_wbf_i + 1]) - wbf.node_mds[exit_wbf_i]) / cell_dmd
         assert 0.0 <= cell_fr <= 1.0
         contrib_list.append((exit_wbf_i, exit_wbf_fr, cell_fr))
-        wb_fraction_of_wbf.append(contrib_list)
+        # exclude any frame intervals which only touch the cell's interval, or have zero length
+        wb_fraction_of_wbf.append([contrib for contrib in contrib_list if contrib[2] > 0.0])
 
     return wb_fraction_of_wbf
 
@@ -262,11 +263,12 @@ def add_blocked_well_properties_from_wellbore_frame(bw,
         for i, wbf_contributions in enumerate(wb_fraction_of_wbf):
             if len(wbf_contributions) == 0:
                 continue  # todo: could try to inherit wellbore radius from above or below?
-            if np.all(np.isnan(wbf_a[wbf_contributions[0][0]:wbf_contributions[-1][0] + 1])):
+            wbf_radii = wbf_a[[wbf_ii for (wbf_ii, _, _) in wbf_contributions]]
+            if np.all(np.isnan(wbf_radii)):
                 continue
             # use a maximum wellbore radius for the whole cell; over-optimistic in case of variation
-            max_r = np.nanmax(wbf_a[wbf_contributions[0][0]:wbf_contributions[-1][0] + 1])
-            if np.nanmin(wbf_a[wbf_contributions[0][0]:wbf_contributions[-1][0] + 1]) < max_r - 1.0e-6:
+            max_r = np.nanmax(wbf_radii)
+            if np.nanmin(wbf_radii) < max_r - 1.0e-6:
                 log.warning(
                     f'radius of wellbore for {wbf.title} changes within cell {i} for blocked wellbore {bw.title}')
             # todo: find modal average or measured length weighted mean?; for now, use topmost (largest) radius
-- 
2.43.0


From 7e9a4241513c930b22f7224ccffa924a283dcf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:25 +0000
Subject: [PATCH 234/270] fix: wells could not be added from ascii file with
 column names other than the defaults

---
 resqpy/well/well_object_funcs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index a954916..65d5369 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -136,7 +136,12 @@ def add_wells_from_ascii_file(model,
         # create trajectory, write arrays to hdf5 and add as part
         trajectory = rqw.Trajectory(model,
                                     md_datum = md_datum,
-                                    data_frame = well_df,
+                                    data_frame = well_df.rename(columns = {
+                                        md_col: 'MD',
+                                        x_col: 'X',
+                                        y_col: 'Y',
+                                        z_col: 'Z'
+                                    }),
                                     length_uom = length_uom,
                                     md_domain = md_domain,
                                     represented_interp = interpretation,
-- 
2.43.0


From cfc884a66fb852cb20b8f6d46b232473dc08e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 235/270] fix: logs could not be added from cellio file to a
 blocked well with unblocked intervals

---
 resqpy/well/well_object_funcs.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index 65d5369..089f52e 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -482,15 +482,7 @@ def add_logs_from_cellio(blockedwell, cellio):
                 lookup_uuid = lookup_dict[log]  # For categorical data, find or generate a StringLookupTable
             else:
                 lookup_uuid = None
-            array_list = np.zeros((np.shape(blockedwell.grid_indices)), dtype = dtype)
-            vals = list(df[log])
-            for i, index in enumerate(blockedwell.cell_grid_link):
-                if index == -1:
-                    assert blockedwell.grid_indices[i] == -1
-                    array_list[i] = null
-                else:
-                    if blockedwell.cell_indices[index] == list(df['cell_indices'])[index]:
-                        array_list[i] = vals[index]
+            array_list = np.array(df[log], dtype = dtype)  # one value per cell, in same order as blocked well cells
             collection.add_cached_array_to_imported_list(
                 cached_array = array_list,
                 source_info = '',
-- 
2.43.0


From 0922e3c0ab273317ae7da4545cc99c817b88b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 236/270] fix: no dataframe for blocked well interval
 properties where there are unblocked intervals

---
 resqpy/property/well_interval_property_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/well_interval_property_collection.py b/resqpy/property/well_interval_property_collection.py
index 6288880..de9ae54 100644
--- a/resqpy/property/well_interval_property_collection.py
+++ b/resqpy/property/well_interval_property_collection.py
@@ -6,6 +6,7 @@ import logging
 
 log = logging.getLogger(__name__)
 
+import numpy as np
 import pandas as pd
 
 import resqpy.property
@@ -37,6 +38,8 @@ class WellIntervalPropertyCollection(rqp_pc.PropertyCollection):
         for log in self.logs():
             col_name = log.name
             values = log.values()
+            if self.indexable_for_part(log.part) == 'intervals':  # discard values for unblocked intervals
+                values = values[np.array(self.support.cell_grid_link, dtype = int) != -1]
             data[col_name] = values
         df = pd.DataFrame(data = data, index = cell_indices)
         return df
-- 
2.43.0


From e716e087442b3f8a3b97eaf8483d96ecb4a65d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 237/270] fix: marker frame could not be made from dataframe
 with other name for measured depth column

---
 resqpy/well/_wellbore_marker_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index d7c7171..475477b 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -158,7 +158,7 @@ class WellboreMarkerFrame(BaseResqpy):
                                     originator = originator,
                                     extra_metadata = extra_metadata)
         wellbore_marker_frame.node_count = len(dataframe)
-        wellbore_marker_frame.node_mds = np.array(dataframe['MD'])
+        wellbore_marker_frame.node_mds = np.array(dataframe[md_col])
         wellbore_marker_frame.marker_list = marker_list
         # check that the number of measured depths matches the node count and the number of markers
         assert wellbore_marker_frame.node_count == wellbore_marker_frame.node_mds.shape[0] == len(marker_list)
-- 
2.43.0


From 94ba58f3174986621d59e2a855fc1bf15a21e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 238/270] fix: marker index taken from dataframe index labels

---
 resqpy/well/_wellbore_marker_frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 475477b..94b8c53 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -134,8 +134,7 @@ class WellboreMarkerFrame(BaseResqpy):
 
         # create a wellbore marker object for each of the rows of the dataframe
         marker_list = []
-        for i, row in dataframe.iterrows():
-            row_index = i
+        for row_index, (_, row) in enumerate(dataframe.iterrows()):
             row_marker_type = row[boundary_feature_type_col].lower()
             row_interp_uuid = WellboreMarkerFrame.__parse_dataframe_row_for_interp_uuid(
                 parent_model = parent_model,
-- 
2.43.0


From e35df4606e5b63925a5b2924f38314ed9366b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 239/270] fix: marker frame from dataframe with blank
 interpretation title given an interpretation

---
 resqpy/well/_wellbore_marker_frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 94b8c53..5592aec 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -177,6 +177,8 @@ class WellboreMarkerFrame(BaseResqpy):
         try:
             if row_interp_type is not None:
                 row_interp_citation_title = row[interp_citation_title_col]
+                if pd.isnull(row_interp_citation_title):  # no interpretation for this marker
+                    return None
                 row_interp_uuid = parent_model.uuid(obj_type = row_interp_type, title = row_interp_citation_title)
                 if row_interp_uuid is None:
                     if create_organizing_objects_where_needed:
-- 
2.43.0


From 0279064dd18fb7f22645da064d3dad91afc43e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 240/270] fix: numeric well names in ascii trajectory file

---
 resqpy/well/well_object_funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index 089f52e..acaa6a4 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -111,6 +111,7 @@ def add_wells_from_ascii_file(model,
         log.debug('importing well: ' + str(well_name))
         # create single well data frame (assumes measured depths increasing)
         well_df = df[df[well_col] == well_name]
+        well_name = str(well_name)  # pandas will have converted numeric well names
         # create a measured depth datum for the well and add as part
         first_row = well_df.iloc[0]
         if first_row[md_col] == 0.0:
-- 
2.43.0


From eb0afab30e822f9af35ff65377ee81bab1372b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 241/270] fix: geobody markers could not be created from
 dataframe and were referenced with wrong content type

---
 resqpy/well/_wellbore_marker.py       | 4 +++-
 resqpy/well/_wellbore_marker_frame.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_wellbore_marker.py b/resqpy/well/_wellbore_marker.py
index 2dc03ec..eaa6569 100644
--- a/resqpy/well/_wellbore_marker.py
+++ b/resqpy/well/_wellbore_marker.py
@@ -125,7 +125,9 @@ class WellboreMarker():
         wbm_gb_node.text = str(self.marker_type)
 
         if self.interpretation_uuid is not None:
-            interp_content_type = 'obj_' + self.marker_type.capitalize() + 'Interpretation'
+            interp_content_type = self.model.type_of_uuid(self.interpretation_uuid)
+            if interp_content_type is None:
+                interp_content_type = 'obj_' + self.marker_type.capitalize() + 'Interpretation'
             interp_root = self.model.root_for_uuid(uuid = self.interpretation_uuid)
             self.model.create_ref_node(flavour = 'Interpretation',
                                        title = rqet.find_tag(rqet.find_tag(interp_root, 'Citation'), 'Title').text,
diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 5592aec..4dc800f 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -170,7 +170,9 @@ class WellboreMarkerFrame(BaseResqpy):
         """Extract the uuid of the interpretation object that the marker relates to from a row in the dataframe."""
 
         row_marker_type = row_marker_type.lower()
-        if row_marker_type in ['horizon', 'fault', 'geobody']:
+        if row_marker_type == 'geobody':
+            row_interp_type = 'obj_GeobodyBoundaryInterpretation'
+        elif row_marker_type in ['horizon', 'fault']:
             row_interp_type = 'obj_' + row_marker_type.capitalize() + 'Interpretation'
         else:
             row_interp_type = None
@@ -202,7 +204,8 @@ class WellboreMarkerFrame(BaseResqpy):
         if feature_type == 'fault':
             tbf = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = feature_name)
         else:
-            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_type, feature_name = feature_name)
+            kind = 'geobody boundary' if feature_type == 'geobody' else feature_type
+            tbf = rqo.GeneticBoundaryFeature(model, kind = kind, feature_name = feature_name)
         tbf.create_xml(reuse = True)
         if feature_type == 'fault':
             fi = rqo.FaultInterpretation(model, tectonic_boundary_feature = tbf, is_normal = True)
-- 
2.43.0


From 05fe9da76e08e0a666b3b11a386c4c16ef9d9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 242/270] fix: header comments not skipped when data is free of
 comments and comment character not given

---
 resqpy/olio/load_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 88c5163..34714b4 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -298,7 +298,7 @@ def load_array_from_ascii_file(file_name,
 
     with open(read_file_name, 'r') as data_file:
 
-        if not comment_char and not data_free_of_comments:
+        if not comment_char:
             comment_char = kf.guess_comment_char(data_file)
             if not comment_char:
                 comment_char = '!'
-- 
2.43.0


From ea019c708dba7f252a414df9e0e596781bad4ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:46 +0000
Subject: [PATCH 243/270] fix: array named by its binary file could not be
 loaded from the text file

---
 resqpy/olio/load_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 34714b4..eca0a7a 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -196,7 +196,7 @@ def load_array_from_file(file_name,
         pass
 
     # read from ascii file
-    result = load_array_from_ascii_file(file_name,
+    result = load_array_from_ascii_file(ascii_file_name,
                                         extent = extent,
                                         data_type = data_type,
                                         keyword = keyword,
-- 
2.43.0


From 427edaafbd8b04eccc9894616710097341e35138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 244/270] fix: fault multiplier table with a row lacking the
 multiplier could not be read

---
 resqpy/olio/read_nexus_fault.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/read_nexus_fault.py b/resqpy/olio/read_nexus_fault.py
index b1110cc..91f9cc4 100644
--- a/resqpy/olio/read_nexus_fault.py
+++ b/resqpy/olio/read_nexus_fault.py
@@ -54,13 +54,13 @@ def load_nexus_fault_mult_table_from_list(file_as_list):
 
                     if ISRECORD and (not is_number(tokens[0])):
                         data = chunks[0:]
-                        d_elems = np.array([np.array(data[i].split()) for i in range(len(data))])
+                        d_elems = [np.array(data[i].split(), dtype = object) for i in range(len(data))]
                         # fill empty elements with zero
                         lens = np.array([len(i) for i in d_elems])
                         # Mask of valid places in each row
                         mask = np.arange(lens.max()) < lens[:, None]
                         # Setup output array and put elements from data into masked positions
-                        outdata = np.zeros(mask.shape, dtype = d_elems.dtype)
+                        outdata = np.zeros(mask.shape, dtype = object)
                         outdata[mask] = np.concatenate(d_elems)
                         df = pd.DataFrame(outdata)
                         for column in df.columns:
@@ -104,13 +104,13 @@ def load_nexus_fault_mult_table_from_list(file_as_list):
         if ISTABLE:
             if ISRECORD:
                 data = chunks[0:]
-                d_elems = np.array([np.array(data[i].split()) for i in range(len(data))])
+                d_elems = [np.array(data[i].split(), dtype = object) for i in range(len(data))]
                 # fill empty elements with zero
                 lens = np.array([len(i) for i in d_elems])
                 # Mask of valid places in each row
                 mask = np.arange(lens.max()) < lens[:, None]
                 # Setup output array and put elements from data into masked positions
-                outdata = np.zeros(mask.shape, dtype = d_elems.dtype)
+                outdata = np.zeros(mask.shape, dtype = object)
                 outdata[mask] = np.concatenate(d_elems)
                 df = pd.DataFrame(outdata)
                 for column in df.columns:
-- 
2.43.0


From a08464eb8c19294f0062d70730d41cd1c9cfe031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 245/270] fix: binary copy of 32 bit array written with wrong
 element size for its extension

---
 resqpy/olio/write_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/write_data.py b/resqpy/olio/write_data.py
index 1ed63a7..67b3cc7 100644
--- a/resqpy/olio/write_data.py
+++ b/resqpy/olio/write_data.py
@@ -103,7 +103,7 @@ def write_array_to_ascii_file(file_name,
             # could abort at this point, or raise
 
     if use_binary:
-        extension, _ = abt.binary_file_extension_and_np_type_for_data_type(data_type)
+        extension, ab_type = abt.binary_file_extension_and_np_type_for_data_type(data_type)
         binary_file_name = file_name + extension
         if append and (keyword is not None):
             key = keyword.split()[0].lower()
@@ -115,7 +115,7 @@ def write_array_to_ascii_file(file_name,
             ap = np.where(np.isnan(a), nan_substitute_value, a)
         try:
             with open(binary_file_name, 'wb') as binary_file_out:
-                ap.tofile(binary_file_out)
+                np.asarray(ap, dtype = ab_type).tofile(binary_file_out)
             log.info('Binary data file %s created', binary_file_name)
         except Exception:
             log.warning('Failed to write data to binary file %s', binary_file_name)
-- 
2.43.0


From 83566123a6d26064d7833e4652cefe6ad6f803d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:03 +0000
Subject: [PATCH 246/270] fix: two character comment marker not recognised when
 skipping comments

---
 resqpy/olio/keyword_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/keyword_files.py b/resqpy/olio/keyword_files.py
index 24b6372..f6b2f0b 100644
--- a/resqpy/olio/keyword_files.py
+++ b/resqpy/olio/keyword_files.py
@@ -59,7 +59,7 @@ def skip_blank_lines_and_comments(ascii_file, comment_char = '!', skip_c_space =
         words = line.split()
         if len(words) == 0:
             continue
-        if words[0][0] == comment_char:
+        if words[0].startswith(comment_char):
             continue
         if skip_c_space and len(words[0]) == 1 and (words[0][0] == 'C' or words[0][0] == 'c'):
             continue
@@ -76,7 +76,7 @@ def skip_comments(ascii_file, comment_char = '!', skip_c_space = True):
             return  # end of file
         words = line.split()
         if len(words) > 0:  # not a blank line
-            if words[0][0] == comment_char:
+            if words[0].startswith(comment_char):
                 continue
             if skip_c_space and len(words[0]) == 1 and (words[0][0] == 'C' or words[0][0] == 'c'):
                 continue
@@ -182,7 +182,7 @@ def specific_keyword_next(ascii_file, keyword, skip_blank_lines = True, comment_
             ascii_file.seek(file_pos)
             return False
         words = line.split()
-        if len(words) == 0 or words[0][0] == comment_char:
+        if len(words) == 0 or words[0].startswith(comment_char):
             continue  # blank line or comment
         ascii_file.seek(file_pos)  # restore file position whether or not keyword match
         if words[0].upper() == keyword.upper():
@@ -201,7 +201,7 @@ def number_next(ascii_file, skip_blank_lines = True, comment_char = '!'):
             ascii_file.seek(file_pos)
             return False
         words = line.split()
-        if len(words) == 0 or words[0][0] == comment_char:
+        if len(words) == 0 or words[0].startswith(comment_char):
             continue  # blank line or comment
         ascii_file.seek(file_pos)  # restore file position whether or not number found
         try:
-- 
2.43.0


From 61e35934a92d9054f0b492d18e3736b51397b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 247/270] fix: short trailing comments lost by
 split_trailing_comment

---
 resqpy/olio/keyword_files.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/olio/keyword_files.py b/resqpy/olio/keyword_files.py
index f6b2f0b..2d105c1 100644
--- a/resqpy/olio/keyword_files.py
+++ b/resqpy/olio/keyword_files.py
@@ -93,8 +93,7 @@ def split_trailing_comment(line, comment_char = '!'):
         local_line = local_line[:-1]
     try:
         pling = local_line.index(comment_char)
-        if pling < len(local_line) - 2:
-            comment = local_line[pling + 1:]
+        comment = local_line[pling + len(comment_char):]
         return (local_line[:pling], comment)
     except Exception:
         return (local_line, '')
-- 
2.43.0


From 9bf7fd38d6af0baa43e9b52ed00d548966389356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 248/270] fix: uninitialised memory returned for text array
 with too few numbers, repeat counts or other text

---
 resqpy/olio/load_data.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index eca0a7a..090a5a5 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -7,6 +7,7 @@ import logging
 log = logging.getLogger(__name__)
 
 import os
+import warnings
 import numpy as np
 
 import resqpy.olio.ab_toolbox as abt
@@ -346,7 +347,13 @@ def load_array_from_ascii_file(file_name,
                     eol = len(b)
                 b[i:eol] = sp * (eol - i)
 
-            result = np.fromstring(b.decode(), dtype = d_type, count = cell_count, sep = ' ')
+            with warnings.catch_warnings():
+                # raise an exception if non-numeric data encountered when reading everything
+                warnings.simplefilter('error' if extent is None else 'ignore', DeprecationWarning)
+                result = np.fromstring(b.decode(), dtype = d_type, sep = ' ')
+            if extent is not None:
+                assert result.size >= cell_count, 'not enough data in ascii file: ' + file_name
+                result = result[:cell_count]
             # note: extra data will go unnoticed if cell count known!
             del b
 
-- 
2.43.0


From 996b7899069a9475e5bb699ffa793e4768bf01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 249/270] fix: C comment lines among data not skipped when
 loading text array

---
 resqpy/olio/load_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 090a5a5..fa710e9 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -7,6 +7,7 @@ import logging
 log = logging.getLogger(__name__)
 
 import os
+import re
 import warnings
 import numpy as np
 
@@ -333,7 +334,11 @@ def load_array_from_ascii_file(file_name,
             #         # note: extra data will go unnoticed if cell count known!
             #         del s
 
-            b = bytearray(data_file.read().encode())
+            text = data_file.read()
+            if skip_c_space:  # blank out any lines starting C followed by white space
+                text = re.sub(r'^[ \t]*[Cc](?=\s|$).*$', '', text, flags = re.MULTILINE)
+            b = bytearray(text.encode())
+            del text
             bc = comment_char.encode()
             nl = b'\n'
             sp = b' '
-- 
2.43.0


From c3ab9e4960c4a8ff1ee769a4a451f93347cb65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 250/270] fix: wellspec data at several dates: wrong first
 date, unusable rows and columns mishandled, time index of first data lost

---
 resqpy/well/_blocked_well.py | 71 ++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 1030708..c582bf0 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -690,26 +690,28 @@ class BlockedWell(BaseResqpy):
 
         # select subset df for first timestamp (or None/NA if first entry for well is before first timestamp)
         if any(pd.isna(df['DATE'])):
-            initial_df = df[pd.isna(df['DATE'])]  # todo: not sure this is valid pandas syntax
+            initial_df = df[pd.isna(df['DATE'])]
             next_date_index = 0
         else:
-            initial_df = df[df['DATE'] == dates_list[0]]  # both should be in iso format
-            next_date_index = 1
+            # note: earlier dates in the file might apply only to other wells
+            next_date_index = dates_list.index(df['DATE'].min()) + 1
+            initial_df = df[df['DATE'] == dates_list[next_date_index - 1]]  # both should be in iso format
 
-        success = self.derive_from_dataframe(initial_df,
+        success = self.derive_from_dataframe(initial_df.drop(columns = 'DATE'),
                                              well_name,
                                              grid,
                                              grid_name_to_check = name_for_check,
                                              use_face_centres = use_face_centres,
                                              add_as_properties = add_properties,
                                              length_uom = length_uom,
-                                             time_index = 0 if next_date_index else None,
+                                             time_index = next_date_index - 1 if next_date_index else None,
                                              time_series_uuid = time_series.uuid if next_date_index else None)
         if not success:
             return None
 
         # for each (remaining) date in dates_list, if present in well df, creete subset df, compare row count with init, add props
-        length_uom = grid.z_units()
+        if not length_uom:
+            length_uom = grid.z_units()
         for date_index in range(next_date_index, len(dates_list)):
             date_df = df[df['DATE'] == dates_list[date_index]]
             if len(date_df) == 0:
@@ -717,11 +719,13 @@ class BlockedWell(BaseResqpy):
             assert len(date_df) == len(initial_df),  \
                 f'mismatch in number of rows (cells) at time {dates_list[date_index]} for well {well_name}'
             # note: dataframe rows assumed to be in unchanging order and refer to same cells!
+            date_df = BlockedWell.__usable_rows(date_df, well_name, name_for_check).drop(columns = 'DATE')
             self.__add_as_properties_if_specified(add_properties,
                                                   date_df,
                                                   length_uom,
                                                   time_index = date_index,
-                                                  time_series_uuid = time_series.uuid)
+                                                  time_series_uuid = time_series.uuid,
+                                                  establish_part = False)
 
         return self
 
@@ -753,10 +757,13 @@ class BlockedWell(BaseResqpy):
                               grid_name_to_check = None,
                               use_face_centres = True,
                               add_as_properties = False,
-                              length_uom = None):
+                              length_uom = None,
+                              time_index = None,
+                              time_series_uuid = None):
         """Populate empty blocked well from WELLSPEC-like dataframe; first columns must be IW, JW, L (i, j, k).
 
         note:
+           time_index and time_series_uuid are only used if adding properties;
            if add_as_properties is True or present as a list of wellspec column names, both the blocked well and
            the properties will have their hdf5 data written, xml created and be added as parts to the model
         """
@@ -785,21 +792,8 @@ class BlockedWell(BaseResqpy):
 
         log.debug('wellspec dataframe for well ' + str(well_name) + ' has ' + str(len(df)) + ' row' + rqwu._pl(len(df)))
 
-        # discard rows without cell indices or for other grids
-        skipped_warning_grid = None
-        kept_rows = []
-        for i in range(len(df)):
-            if BlockedWell.__cell_kji0_from_df(df, i) is None:
-                log.error('missing cell index in wellspec data for well ' + str(well_name) + ' row ' + str(i + 1))
-                continue
-            skipped_warning_grid, skip_row = BlockedWell.__verify_grid_name(grid_name_to_check = grid_name_to_check,
-                                                                            row = df.iloc[i],
-                                                                            skipped_warning_grid = skipped_warning_grid,
-                                                                            well_name = well_name)
-            if not skip_row:
-                kept_rows.append(i)
-        assert len(kept_rows) > 0, 'no usable rows in dataframe for blocked well ' + str(well_name)
-        df = df.iloc[kept_rows]
+        df = BlockedWell.__usable_rows(df, well_name, grid_name_to_check)
+        assert len(df) > 0, 'no usable rows in dataframe for blocked well ' + str(well_name)
 
         angles_present = ('ANGLV' in df.columns and 'ANGLA' in df.columns and not pd.isnull(df.iloc[0]['ANGLV']) and
                           not pd.isnull(df.iloc[0]['ANGLA']))
@@ -875,10 +869,31 @@ class BlockedWell(BaseResqpy):
             trajectory_mds = trajectory_mds)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
-        self.__add_as_properties_if_specified(add_as_properties = add_as_properties, df = df, length_uom = length_uom)
+        self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
+                                              df = df,
+                                              length_uom = length_uom,
+                                              time_index = time_index,
+                                              time_series_uuid = time_series_uuid)
 
         return self
 
+    @staticmethod
+    def __usable_rows(df, well_name, grid_name_to_check):
+        # returns df without rows that are missing cell indices or are for other grids
+        skipped_warning_grid = None
+        kept_rows = []
+        for i in range(len(df)):
+            if BlockedWell.__cell_kji0_from_df(df, i) is None:
+                log.error('missing cell index in wellspec data for well ' + str(well_name) + ' row ' + str(i + 1))
+                continue
+            skipped_warning_grid, skip_row = BlockedWell.__verify_grid_name(grid_name_to_check = grid_name_to_check,
+                                                                            row = df.iloc[i],
+                                                                            skipped_warning_grid = skipped_warning_grid,
+                                                                            well_name = well_name)
+            if not skip_row:
+                kept_rows.append(i)
+        return df.iloc[kept_rows]
+
     @staticmethod
     def __cell_kji0_from_df(df, df_row):
         row = df.iloc[df_row]
@@ -1083,14 +1098,16 @@ class BlockedWell(BaseResqpy):
                                          df,
                                          length_uom,
                                          time_index = None,
-                                         time_series_uuid = None):
+                                         time_series_uuid = None,
+                                         establish_part = True):
         # if add_as_properties is True and present as a list of wellspec column names, both the blocked well and
         # the properties will have their hdf5 data written, xml created and be added as parts to the model
 
         if add_as_properties and len(df.columns) > 3:
             # NB: atypical writing of hdf5 data and xml creation in order to support related properties
-            self.write_hdf5()
-            self.create_xml()
+            if establish_part:
+                self.write_hdf5()
+                self.create_xml()
             if isinstance(add_as_properties, list):
                 for col in add_as_properties:
                     assert col in df.columns[3:]  # could just skip missing columns
-- 
2.43.0


From 80b9d858a4319804147060b9a6322ece1956b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 251/270] fix: point file holding a single point could not be
 imported

---
 resqpy/surface/_pointset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index e53bad1..dd67c93 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -145,7 +145,7 @@ class PointSet(rqsb.BaseSurface):
             charisma_file: a charisma 3d interpretation file
         """
         with open(charisma_file, 'r') as surf:
-            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8')
+            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'utf-8', ndmin = 2)
         self.add_patch(cpoints)
         assert self.crs_uuid is not None, 'crs uuid missing when establishing point set from charisma file'
         if not self.title:
@@ -160,7 +160,7 @@ class PointSet(rqsb.BaseSurface):
                 it is excluded
         """
         with open(irap_file, 'r') as points:
-            cpoints = np.loadtxt(points, encoding = 'uft-8')
+            cpoints = np.loadtxt(points, encoding = 'utf-8', ndmin = 2)
         assert len(cpoints), f'no points loaded from irap file: {irap_file}'
         assert cpoints.ndim == 2 and cpoints.shape[1] == 3
         if remove_trailing_999 and np.all(np.isclose(cpoints[-1], 999.0)):
-- 
2.43.0


From 61f3a9f83885e524d5d3fa4f03ef03231886ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 252/270] fix: charisma sticks: wrong counts, last single point
 kept, sticks of neighbouring faults with same number merged, blank lines not
 handled

---
 resqpy/lines/_polyline_set.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 95cb2a7..7c85725 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -195,25 +195,24 @@ class PolylineSet(rql_c._BasePolyline):
         closed_array = []
         if not self.title:
             self.title = os.path.basename(charisma_file).split(".")[0]
-        for i, line in enumerate(inpoints):
+        sticks = []  # list of lists of points
+        stick = None  # fault name and stick number
+        for line in inpoints:
             line = line.split()
-            coord_entry = np.array([[float(line[3]), float(line[4]), float(line[5])]])
-            if i == 0:
-                self.coordinates = coord_entry
-                stick = line[7]
-                count = 1
-            else:
-                self.coordinates = np.concatenate((self.coordinates, coord_entry))
-                count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
-                        log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
-                        self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
-                    else:
-                        self.count_perpol.append(count - 1)
-                        closed_array.append(False)
-                    count = 1
-                    stick = line[7]
+            if len(line) == 0:
+                continue  # blank line
+            if line[6:8] != stick:
+                stick = line[6:8]
+                sticks.append([])
+            sticks[-1].append((float(line[3]), float(line[4]), float(line[5])))
+        for points in sticks:
+            if len(points) < 2:
+                log.warning(f"Polylines must contain at least 2 points - ignoring point {points[0]}")
+                continue
+            self.count_perpol.append(len(points))
+            closed_array.append(False)
+        assert len(self.count_perpol) > 0, f'no polylines found in charisma file: {charisma_file}'
+        self.coordinates = np.array([p for points in sticks if len(points) > 1 for p in points], dtype = float)
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
-- 
2.43.0


From 650cf6f330a54f89c4e7a31f2be3040cd7b853b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 253/270] fix: mesh of flavour ref&z could not be made from
 file

---
 resqpy/surface/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..1e93898 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -412,11 +412,11 @@ class Mesh(rqsb.BaseSurface):
                 self.ref_mesh = Mesh(self.model,
                                      ni = self.ni,
                                      nj = self.nj,
-                                     origin = self.regular_origin,
+                                     origin = (min_x, min_y, 0.0),
                                      dxyz_dij = dxyz_dij,
                                      crs_uuid = crs_uuid)
-                assert self.ref_mesh is not None
-                assert self.ref_mesh.nj == nj and self.ref_mesh.ni == ni
+                self.ref_mesh.create_xml()
+                self.ref_uuid = self.ref_mesh.uuid
             else:
                 log.critical('code failure')
         assert self.crs_uuid is not None, 'crs uuid missing'
-- 
2.43.0


From aabfc26c0df9baeb1d646d8823ae8d0db3a43f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 254/270] fix: rotation in rms text lattice file ignored

---
 resqpy/olio/zmap_reader.py | 18 ++++++++++++++++++
 resqpy/surface/_mesh.py    | 11 +++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/resqpy/olio/zmap_reader.py b/resqpy/olio/zmap_reader.py
index 3c30774..a444668 100644
--- a/resqpy/olio/zmap_reader.py
+++ b/resqpy/olio/zmap_reader.py
@@ -65,6 +65,18 @@ def read_zmap_header(inputfile):
     return headers, no_rows, no_cols, minx, maxx, miny, maxy, null_value
 
 
+def _roxar_rotation(inputfile):
+    # returns rotation in degrees (anticlockwise from x axis), origin x, origin y, from roxar format file
+    with open(inputfile, 'r') as fp:
+        words = [fp.readline().split() for _ in range(3)]
+    if len(words[2]) < 2:
+        return 0.0, 0.0, 0.0
+    rotation = float(words[2][1])
+    if len(words[2]) < 4:
+        return rotation, float(words[1][0]), float(words[1][2])
+    return rotation, float(words[2][2]), float(words[2][3])
+
+
 # note: the RMS text format was previously known as the Roxar format
 
 
@@ -88,6 +100,7 @@ def read_roxar_header(inputfile):
         maxy = float(words[3])
         words = fp.readline().split()
         no_cols = int(words[0])
+        # words[1] is a rotation, applied in read_mesh()
     headers = 4
     null_value = '9999900.0000'
     return headers, no_rows, no_cols, minx, maxx, miny, maxy, null_value
@@ -143,6 +156,11 @@ def read_mesh(inputfile, dtype = np.float64, format = None):
     else:  # format in ['rms', 'roxar']
         y = np.linspace(miny, maxy, no_rows)
     x, y = np.meshgrid(x, y)  # get x and y of every node
+    if format in ['rms', 'roxar']:
+        rotation, ox, oy = _roxar_rotation(inputfile)
+        if rotation != 0.0:
+            cosine, sine = np.cos(np.radians(rotation)), np.sin(np.radians(rotation))
+            x, y = (x - ox) * cosine - (y - oy) * sine + ox, (x - ox) * sine + (y - oy) * cosine + oy
     assert x.shape == y.shape == f.shape
 
     return x, y, f
diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 1e93898..05dc931 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -398,12 +398,11 @@ class Mesh(rqsb.BaseSurface):
         assert self.nj > 1 and self.ni > 1
         self.full_array = np.stack((x, y, z), axis = -1)
         if mesh_flavour != 'explicit':
-            min_x = x.flatten()[0]
-            max_x = x.flatten()[-1]
-            min_y = y.flatten()[0]
-            max_y = y.flatten()[-1]
-            dxyz_dij = np.array([[(max_x - min_x) /
-                                  (self.ni - 1), 0.0, 0.0], [0.0, (max_y - min_y) / (self.nj - 1), 0.0]],
+            min_x = x[0, 0]
+            min_y = y[0, 0]
+            # note: axes of lattice might be rotated
+            dxyz_dij = np.array([[(x[0, -1] - min_x) / (self.ni - 1), (y[0, -1] - min_y) / (self.ni - 1), 0.0],
+                                 [(x[-1, 0] - min_x) / (self.nj - 1), (y[-1, 0] - min_y) / (self.nj - 1), 0.0]],
                                 dtype = float)
             if mesh_flavour in ['regular', 'reg&z']:
                 self.regular_origin = (min_x, min_y, 0.0)
-- 
2.43.0


From 76d03c22fcc555030505e260a42a4bbfc9216186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 255/270] fix: lattice file with too few values accepted, with
 zeros

---
 resqpy/olio/zmap_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/zmap_reader.py b/resqpy/olio/zmap_reader.py
index a444668..f6b1d07 100644
--- a/resqpy/olio/zmap_reader.py
+++ b/resqpy/olio/zmap_reader.py
@@ -143,6 +143,8 @@ def read_mesh(inputfile, dtype = np.float64, format = None):
 
     # log.debug("Read {} nodes".format(len(f)))
 
+    assert n == f.size, f'only {n} of expected {f.size} values found in mesh file: {inputfile}'
+
     if format == 'zmap':
         # reshape it, and swap axis. Beacuse columns major order from fortran.
         f = f.reshape((no_cols, no_rows)).swapaxes(0, 1)
-- 
2.43.0


From d4947441baa799cbdf160b3f4ce6f7d2a49105dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 256/270] fix: closed lines exported to irap became open and a
 line present twice lost earlier lines

---
 resqpy/lines/_polyline_set.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 7c85725..a485ad5 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -587,11 +587,13 @@ class PolylineSet(rql_c._BasePolyline):
         """
 
         end_of_line = np.array([[999.0, 999.0, 999.0]])
+        out_coords = np.empty((0, 3))
         for poly in self.polys:
-            if poly == self.polys[0]:
-                out_coords = poly.coordinates
-            else:
-                out_coords = np.concatenate((out_coords, poly.coordinates))
+            out_coords = np.concatenate((out_coords, poly.coordinates))
+            if poly.isclosed and len(poly.coordinates) > 2 and not vu.isclose(poly.coordinates[0],
+                                                                              poly.coordinates[-1]):
+                # closure is represented by repeating first point
+                out_coords = np.concatenate((out_coords, poly.coordinates[:1]))
             out_coords = np.concatenate((out_coords, end_of_line))
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
-- 
2.43.0


From 0d8250ec2831b3c65724ef1299291a6c7ef8a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 257/270] fix: z values not discarded from regular flavour mesh
 made from file

---
 resqpy/surface/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 05dc931..88e366c 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -404,6 +404,8 @@ class Mesh(rqsb.BaseSurface):
             dxyz_dij = np.array([[(x[0, -1] - min_x) / (self.ni - 1), (y[0, -1] - min_y) / (self.ni - 1), 0.0],
                                  [(x[-1, 0] - min_x) / (self.nj - 1), (y[-1, 0] - min_y) / (self.nj - 1), 0.0]],
                                 dtype = float)
+            if mesh_flavour == 'regular':
+                self.full_array[..., 2] = 0.0  # z values discarded
             if mesh_flavour in ['regular', 'reg&z']:
                 self.regular_origin = (min_x, min_y, 0.0)
                 self.regular_dxyz_dij = dxyz_dij
-- 
2.43.0


From 5c919b31e52e7fac36a2ab92e6aa2f883ea5fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 258/270] fix: irap lines file starting with a single point
 could not be imported

---
 resqpy/lines/_polyline_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index a485ad5..34806e1 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -171,17 +171,18 @@ class PolylineSet(rql_c._BasePolyline):
         closed_array = []
         if not self.title:
             self.title = os.path.basename(irap_file).split(".")[0]
-        for i, poly in enumerate(inpoints):
+        for poly in inpoints:
             if len(poly) > 1:  # Polylines must have at least 2 points
                 self.count_perpol.append(len(poly))
                 if vu.isclose(poly[0], poly[-1]):
                     closed_array.append(True)
                 else:
                     closed_array.append(False)
-                if i == 0:
+                if self.coordinates is None:
                     self.coordinates = poly
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly))
+        assert self.coordinates is not None, f'no polylines found in irap file: {irap_file}'
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
-- 
2.43.0


From e7e08386885ba0cb82fa5643c40006780af33edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 259/270] fix: tasks sharing an arguments dictionary all given
 the index of the last of them

---
 resqpy/multi_processing/_multiprocessing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resqpy/multi_processing/_multiprocessing.py b/resqpy/multi_processing/_multiprocessing.py
index 004b221..530c0eb 100644
--- a/resqpy/multi_processing/_multiprocessing.py
+++ b/resqpy/multi_processing/_multiprocessing.py
@@ -85,9 +85,8 @@ def function_multiprocessing(function: Callable,
         tmp_dir_path = '.'
     tmp_dir = Path(tmp_dir_path) / f'tmp_{uuid.uuid4()}'
     os.makedirs(tmp_dir)
-    for i, kwargs in enumerate(kwargs_list):
-        kwargs["index"] = i
-        kwargs["parent_tmp_dir"] = str(tmp_dir)
+    # note: the same dictionary object might occur more than once in the list
+    kwargs_list = [dict(kwargs, index = i, parent_tmp_dir = str(tmp_dir)) for i, kwargs in enumerate(kwargs_list)]
 
     if cluster is None:
         results = []
-- 
2.43.0


From 960e8f041547575f7237dfaf68524c33b3ccbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 260/270] fix: batch of find faces tasks failed with exception
 when a surface does not intersect the grid

---
 resqpy/multi_processing/wrappers/grid_surface_mp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/wrappers/grid_surface_mp.py b/resqpy/multi_processing/wrappers/grid_surface_mp.py
index f9c2c9a..1c03b43 100644
--- a/resqpy/multi_processing/wrappers/grid_surface_mp.py
+++ b/resqpy/multi_processing/wrappers/grid_surface_mp.py
@@ -259,7 +259,7 @@ def find_faces_to_represent_surface_regular_wrapper(
     else:
         gcs = returns
 
-    if gcs.count > 0:
+    if gcs is not None and gcs.count > 0:
         success = True
         gcs.write_hdf5()
         gcs.create_xml(extra_metadata = extra_metadata)
-- 
2.43.0


From 14432af4bd36ff34b4ffabd18e4d76150d309486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:19 +0000
Subject: [PATCH 261/270] fix: mask lost from normalised property arrays and
 inactive cells affecting logarithmic range

---
 resqpy/property/property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 0bfe823..8a307ca 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2167,6 +2167,8 @@ class PropertyCollection():
             return None, min_value, max_value
 
         n_prop = p_array.astype(float)
+        if isinstance(n_prop, ma.MaskedArray):
+            n_prop.harden_mask()  # retain mask through assignments below
         # todo: for discrete p_array, set n_prop to nan where p_array == null value
         if use_logarithm:
             n_prop, min_value, max_value = pcga._normalized_part_array_use_logarithm(min_value, n_prop, masked)
-- 
2.43.0


From c3533e5f1a47ccf48fc26cd5058fee132d7f3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 262/270] fix: choosing basic static properties failed when
 vertical permeability to be shared or made is not available

---
 resqpy/property/_collection_get_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 8efbfc0..c913790 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -199,6 +199,7 @@ def _get_single_perm_ijk_parts(collection, perms, share_perm_parts, perm_k_mode,
 
 def _get_perm_k_part(collection, perms, perm_k_mode, share_perm_parts, perm_i_part, perm_j_part, perm_k_ratio,
                      ntg_part):
+    perm_k_part = None
     if perm_k_mode == 'shared':
         if share_perm_parts:
             perm_k_part = perm_i_part
-- 
2.43.0


From e8b57849b01ee59affbd5d0edc8042a75b73083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:37 +0000
Subject: [PATCH 263/270] fix: normalised_xy and denormalised_xy failed when
 the line from the centre passes exactly through a vertex

---
 resqpy/lines/_polyline.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index fee81ee..4810b4d 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -638,8 +638,7 @@ class Polyline(rql_c._BasePolyline):
             if mode == 'square':
                 return 0.5, 0.5
             return 0.0, 0.0
-        segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
-        assert px is not None
+        segment, px, py = self._perimeter_point_xy(centre_xy, x, y)
         norm_x, norm_y = None, None
         if mode == 'square':
             d_xy = np.array((x, y)) - centre_xy
@@ -721,8 +720,7 @@ class Polyline(rql_c._BasePolyline):
                 return tuple(centre_xy)
             n_x = (norm_x - 0.5) + centre_xy[0]
             n_y = (norm_y - 0.5) + centre_xy[1]
-            _, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], n_x, n_y, half_segment = True)
-            assert px is not None
+            _, px, py = self._perimeter_point_xy(centre_xy, n_x, n_y)
             fx = abs(norm_x - 0.5)
             fy = abs(norm_y - 0.5)
             f = 2.0 * max(fx, fy)
@@ -748,7 +746,7 @@ class Polyline(rql_c._BasePolyline):
             n_x = centre_xy[0] + maths.cos(theta)
             n_y = centre_xy[1] + maths.sin(theta)
             p_xy = np.empty(2)
-            p_xy[:] = self.first_line_intersection(centre_xy[0], centre_xy[1], n_x, n_y, half_segment = True)[1:]
+            p_xy[:] = self._perimeter_point_xy(centre_xy, n_x, n_y)[1:]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         return x, y
@@ -913,6 +911,17 @@ class Polyline(rql_c._BasePolyline):
         h5_reg.register_dataset(self.uuid, 'points_patch0', self.coordinates)
         h5_reg.write(file_name, mode = mode)
 
+    def _perimeter_point_xy(self, centre_xy, x, y):
+        """Returns segment index and x, y of point where half line from centre of convex polygon, through x,y, leaves it."""
+        segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
+        if px is None:
+            # due to rounding, a line through a vertex can appear to miss the segments on both sides of it
+            v = self.coordinates[:, :2] - centre_xy
+            along = v[:, 0] * (x - centre_xy[0]) + v[:, 1] * (y - centre_xy[1])
+            segment = int(np.argmax(along / np.sqrt(np.sum(v * v, axis = 1))))
+            px, py = self.coordinates[segment, :2]
+        return segment, px, py
+
     def _signed_area_xy(self):
         """Returns area in xy plane, of a closed polyline; positive if anti-clockwise when x is right & y is up."""
 
-- 
2.43.0


From f57e3aa9da4040dfb2812cc9b96dd27f254d5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 264/270] fix: points above an areally collapsed cell below
 another layer were not made undefined by treat_dots_as_nan

---
 resqpy/grid/_defined_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..1634c05 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -408,7 +408,7 @@ def __handle_areal_dots(areal_dots, grid, nan_mask):
     else:
         dot_mask = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1), dtype = bool)
         dot_mask[:-1, :-1, :-1] = areal_dots
-        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[:-1, :-1, :-1], areal_dots)
+        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[1:, :-1, :-1], areal_dots)
     dot_mask[:, 1:, :-1] = np.logical_or(dot_mask[:, :-1, :-1], dot_mask[:, 1:, :-1])
     dot_mask[:, :, 1:] = np.logical_or(dot_mask[:, :, :-1], dot_mask[:, :, 1:])
     if grid.has_split_coordinate_lines:
-- 
2.43.0


From 08f623f88e6cf954aacbdc41941cc6544a639cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:46 +0000
Subject: [PATCH 265/270] fix: nullifying partial pillars left the pillar flags
 and inactive mask as they were

---
 resqpy/grid/_defined_geometry.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index 1634c05..e090242 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -297,6 +297,10 @@ def set_geometry_is_defined(grid,
 
     surround_z = grid.xyz_box(lazy = False)[1 if grid.z_inc_down() else 0, 2]
 
+    if nullify_partial_pillars:
+        nan_mask = np.logical_or(nan_mask, np.expand_dims(np.any(nan_mask, axis = 0), 0))
+        points[nan_mask] = np.nan
+
     pillar_defined_mask = np.logical_not(np.all(nan_mask, axis = 0)).flatten()
     primary_count = (grid.nj + 1) * (grid.ni + 1)
     if np.all(pillar_defined_mask):
@@ -332,13 +336,7 @@ def set_geometry_is_defined(grid,
 
     cells_update_needed = False
 
-    if nullify_partial_pillars:
-        partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
-        if np.any(partial_pillar_mask):
-            points.reshape((grid.nk_plus_k_gaps + 1, -1, 3))[:, partial_pillar_mask, :] = np.nan
-            grid.geometry_defined_for_all_pillars_cached = False
-            cells_update_needed = True
-    elif complete_partial_pillars:
+    if complete_partial_pillars:
         partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
         if np.any(partial_pillar_mask):
             log.warning('completing geometry for partially defined pillars')
-- 
2.43.0


From ed9a6bc4dbedbdebb7f1d4774d8efa3494fb84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 266/270] fix: missing outer rows of pillars were filled with
 the same shift in x and y, and the last row or column was put at zero

---
 resqpy/grid/_defined_geometry.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e090242..4745ba0 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -592,38 +592,38 @@ def __fill_surround(grid, surround_mask):
         (grid.nj + 1, grid.ni + 1, 2))
     modified = False
     if grid.nj > 1:
-        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :])
+        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :], axis = (0, 1))
         j = 0
-        while j < grid.nj and np.all(surround_mask[j, :]):
+        while j <= grid.nj and np.all(surround_mask[j, :]):
             j += 1
-        assert j < grid.nj
+        assert j <= grid.nj
         while j > 0:
             points_view[j - 1, :] = points_view[j, :] - j_xy_vector
             modified = True
             j -= 1
-        j = grid.nj - 1
+        j = grid.nj
         while j >= 0 and np.all(surround_mask[j, :]):
             j -= 1
         assert j >= 0
-        while j < grid.nj - 1:
+        while j < grid.nj:
             points_view[j + 1, :] = points_view[j, :] + j_xy_vector
             modified = True
             j += 1
     if grid.ni > 1:
-        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1])
+        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1], axis = (0, 1))
         i = 0
-        while i < grid.ni and np.all(surround_mask[:, i]):
+        while i <= grid.ni and np.all(surround_mask[:, i]):
             i += 1
-        assert i < grid.ni
+        assert i <= grid.ni
         while i > 0:
             points_view[:, i - 1] = points_view[:, i] - i_xy_vector
             modified = True
             i -= 1
-        i = grid.ni - 1
+        i = grid.ni
         while i >= 0 and np.all(surround_mask[:, i]):
             i -= 1
         assert i >= 0
-        while i < grid.ni - 1:
+        while i < grid.ni:
             points_view[:, i + 1] = points_view[:, i] + i_xy_vector
             modified = True
             i += 1
-- 
2.43.0


From 2aaa8a2b6f65a73b4a40305a3adb5b47e2e8dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 267/270] fix: a cell entered through a fault face from a k gap
 was missed by the grid skin, and in well blocking

---
 resqpy/grid_surface/_grid_skin.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 80e1cef..515a9a1 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -352,6 +352,17 @@ class GridSkin:
                                                                                            polarity,
                                                                                            start_xyz = xyz,
                                                                                            nudge = -1.0)
+                if xyz_f is None and self.k_gaps:  # in k gap on this side of fault: try column face on other side
+                    polarity = 1 - polarity
+                    col_ji0[axis - 1] += -1 if polarity else 1
+                    xyz_f, k0 = rqgs.find_intersection_of_trajectory_interval_with_column_face(trajectory,
+                                                                                               self.grid,
+                                                                                               segment,
+                                                                                               col_ji0,
+                                                                                               axis,
+                                                                                               polarity,
+                                                                                               start_xyz = xyz,
+                                                                                               nudge = -1.0)
                 if xyz_f is None:
                     if self.k_gaps:
                         log.debug('failed to identify fault penetration point; assumed to be in k gap; nudging forward')
-- 
2.43.0


From a088a8a4fd9a1dca4b23ad2665e78c07656ad201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:57 +0000
Subject: [PATCH 268/270] fix: blocking without a check for re-entry carried on
 after leaving the grid through pinched out cells

---
 resqpy/grid_surface/_blocked_well_populate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index f890ac9..7443814 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -401,11 +401,11 @@ def __find_next_cell(
                          previous_kji0)
     else:
         return __skip_pinchouts(grid, previous_kji0, kji0, axis, polarity, trajectory, segment, seg_fraction, xyz, lazy,
-                                use_single_layer_tactics)
+                                use_single_layer_tactics, check_for_reentry)
 
 
 def __skip_pinchouts(grid, previous_kji0, kji0, axis, polarity, trajectory, segment, seg_fraction, xyz, lazy,
-                     use_single_layer_tactics):
+                     use_single_layer_tactics, check_for_reentry = True):
     # returns same info as __find_next_cell, for the next cell after skipping any pinched out cells
     # skip pinched out cells
     pinchout_skip_sign = -1 if axis == 0 and polarity == 0 else 1
@@ -417,7 +417,7 @@ def __skip_pinchouts(grid, previous_kji0, kji0, axis, polarity, trajectory, segm
             log.debug(
                 f"trajectory reached edge of model {'or k gap ' if grid.k_gaps and axis == 0 else ''}at exit from cell kji0: {previous_kji0}"
             )
-            if lazy:
+            if lazy or not check_for_reentry:
                 return None
             skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
             # nudge in following will be problematic if gap has zero (or tiny) thickness at this location
-- 
2.43.0


From 27f153d8c3c5f680d0af5159224d3f1421f225b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 269/270] fix: a grid whose only cells with geometry are
 pinched out could not be made from corner points

---
 resqpy/rq_import/_grid_from_cp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index 4729feb..2e2a96a 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -527,6 +527,8 @@ class _GridFromCp:
             if not self.__geometry_defined_everywhere and not self.grid.array_cell_geometry_is_defined[sample_kji0]:
                 where_defined = np.where(
                     np.logical_and(self.grid.array_cell_geometry_is_defined, np.logical_not(self.grid.pinched_out())))
+                if len(where_defined[0]) == 0:  # all cells with geometry are pinched out
+                    where_defined = np.where(self.grid.array_cell_geometry_is_defined)
                 assert len(where_defined) == 3 and len(where_defined[0]) > 0, 'no extant cell geometries'
                 sample_kji0 = (where_defined[0][0], where_defined[1][0], where_defined[2][0])
             sample_cp = self.__cp_array[sample_kji0]
-- 
2.43.0


From e88ebbf611de65db799bca500d884144acd773df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:41 +0000
Subject: [PATCH 270/270] fix: an array of bytes could not be read into a shape
 with the same number of dimensions whose last extent is up to eight times
 longer

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index c6354e7..0887173 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -235,7 +235,8 @@ def _h5_array_element(model,
         object.__dict__[array_attribute] = np.zeros(required_shape, dtype = dtype)
         if shape_tuple == required_shape:
             object.__dict__[array_attribute][:] = h5_root[h5_key_pair[1]]
-        elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
+        elif (len(shape_tuple) == len(required_shape) and shape_tuple[:-1] == required_shape[:-1] and
+              ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
             object.__dict__[array_attribute][:] = a[..., :required_shape[-1]]
-- 
2.43.0

