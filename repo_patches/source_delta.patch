From 69d1e02d2715dddd0290b81a6d59e2e0d2b58018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 01/49] fix: units.factor checks the units class when both
 units are the same

---
 blmath/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..382072d 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,7 +141,7 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
+        if from_units == to_units and not units_class:
             return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
-- 
2.43.0


From c98675d81b158adc6b5f667768ec4a21f5156fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 02/49] fix: round(Value) and Value.round work on Python 3

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..1afec66 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=0):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
-- 
2.43.0


From 6ed680087843da4fcaf507dca314a9b8327f97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 03/49] fix: Value.prettified follows the value and units
 instead of caching the first answer

---
 blmath/value.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 1afec66..664a4a6 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -167,10 +165,10 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From 9d5228e053245823d7b0b8c58876700d446872d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 04/49] fix: a zero Value is false on Python 3

---
 blmath/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 664a4a6..b471d9a 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -141,8 +141,9 @@ class Value(object):
     def __repr__(self):
         return "<Value %f %s>" % (self.value, self.units)
 
-    def __nonzero__(self):
+    def __bool__(self):
         return bool(self.value)
+    __nonzero__ = __bool__
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From edbea16a37b86c523599521d512bbbb88260c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 05/49] fix: a closed Polyline may have no vertices

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..276ad95 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From 8c9773f60c4b19865c92b79a69f742c632474383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 06/49] fix: Polyline.partition_by_length does not use the
 removed np.int

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 276ad95..5160959 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From 2763a4da6e0c5b05a80b4b81f6ca53bad2ea5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 07/49] fix: Plane.mesh_xsections with a neighborhood keeps an
 open component open

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From bd11ba5e805470d6069a7d38895ff1ccd22c9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 08/49] fix: CoordinateManager reports an unknown tag with
 KeyError on Python 3

---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..787584e 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args[0])
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From 2d348d217306ab81dac1776f177387a7851244d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 09/49] fix: rotate_to_xz_plane accepts an array as normal

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..d785019 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From fe59fd10afaff8647c0123f4cde12deb273afed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 10/49] fix: convexify_and_flatten_planar_curve does not use
 the removed np.mat

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From b5b804e3a3d45e15baebfcc78299994c2420a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 11/49] fix: shape errors of the matrix conversions are
 ValueErrors, as intended

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7f8f6f8 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From ac6be7f6f9ee519eacdc051ad3f4623ebf1c8d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 12/49] fix: bsxfun passes both operands when it expands a
 column

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From 9b7d25a8a4de82ab3d89c15b01c4e1b476cac09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 13/49] fix: inflection_points differentiates with respect to
 the span coordinates

---
 blmath/geometry/apex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..02e14c5 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -24,12 +24,11 @@ def inflection_points(points, axis, span):
     '''
 
     coords_on_span = points.dot(span)
-    dx = np.gradient(coords_on_span)
     coords_on_axis = points.dot(axis)
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, coords_on_span), coords_on_span)
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From c895c62b5bc4e81639f0655634c61ea1d4eb004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 14/49] fix: line_intersect3 finds the intersection whatever
 the rounding and the order of the points

---
 blmath/geometry/segment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..4c2e8b9 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -138,16 +138,16 @@ def line_intersect3(p0, q0, p1, q1):
     # g would be zero length and we can't continue
     if np.all(p0 == p1) or np.all(p0 == q1):
         return p0
-    if np.all(q0 == p1) or np.all(p0 == q1):
+    if np.all(q0 == p1) or np.all(q0 == q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From c3a674b2825924568da57ab7cf86504350663ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 15/49] fix: partition a segment of zero length into copies of
 its point, not NaN

---
 blmath/geometry/segment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 4c2e8b9..873346d 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -23,7 +23,8 @@ def partition(v, partition_size=5):
     sqdis = np.square(diffs)
     dists = np.sqrt(np.sum(sqdis, axis=1))
 
-    unitds = diffs / dists[:, np.newaxis]
+    # A repeated point makes a segment of zero length, which has no direction.
+    unitds = diffs / np.where(dists == 0, 1, dists)[:, np.newaxis]
     widths = dists / partition_size
 
     domain = widths[:, np.newaxis] * np.arange(0, partition_size)
@@ -89,7 +90,8 @@ def partition_segment_old(p1, p2, partition_size=5):
 
     dist = np.linalg.norm(p1 - p2)
 
-    unit_direction = (p2 - p1) / dist
+    # A repeated point makes a segment of zero length, which has no direction.
+    unit_direction = (p2 - p1) / (dist if dist != 0 else 1)
     partition_width = dist / partition_size
 
     domain = partition_width * np.arange(1, partition_size)
-- 
2.43.0


From 7cb90b468a5e0c9a62a922f57be63437d3e7d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 16/49] fix: find_rigid_transform recovers from a reflection of
 planar points despite rounding

---
 blmath/geometry/transform/rigid_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..5f10864 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,7 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        if s[-1] <= 1e-10 * s[0]: # This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From dbeef4e219cf1b9a93b2e8d90ffc12b1d6954074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 17/49] fix: find_rigid_rotation scales a single point by the
 ratio of the given lengths

---
 blmath/geometry/transform/rigid_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 5f10864..d5c5db5 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -71,6 +71,8 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -86,7 +88,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From 32d032c37d5a2e43ba26c302f131ca1aff6d85c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 18/49] fix: isomorphism detects dependent frames and
 mismatched dimensions

---
 blmath/numerics/linalg/isomorphism.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..2988360 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -36,11 +36,11 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame1_e)
         elif len(L_frame2_e.shape) != 2:
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
-        elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
+        elif not L_frame1_e.shape[0] == L_frame2_e.shape[0] == len(frame1):
             raise DimensionalityError('Basis vectors must all have the same dimension.')
-        elif np.linalg.det(L_frame1_e) == 0:
+        elif np.linalg.matrix_rank(L_frame1_e) < len(frame1):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-        elif np.linalg.det(L_frame2_e) == 0:
+        elif np.linalg.matrix_rank(L_frame2_e) < len(frame2):
             raise LinearDependenceError('%s is linearly dependent.' % frame2)
 
     _validate_frames(frame1, frame2)
-- 
2.43.0


From 999c2f2673d5428822ffb0e0505f45cb0d077ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 19/49] fix: block_sparse_cg_solve uses the current name of the
 tolerance of scipy's cg

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..c7f2e4d 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon, rtol=1e-5)[0]
-- 
2.43.0


From a5bb5caa09dc80d55c9cd58e080d33c62a3a1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 20/49] fix: lchol reports a matrix that is not positive
 definite

---
 blmath/numerics/linalg/cholmod.c | 3 ++-
 blmath/numerics/linalg/lchol.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..ddd7d80 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
+    // cholmod_l_factor_to_sparse resets L->minor, so read it first.
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..613a471 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -11,7 +11,7 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 21059b9a69fe8474975949065654f38e16daaa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 21/49] fix: StaticBlockSparseMatrix.matvec works with dense
 columns or rows

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..b2c2677 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 7c1b5cbe81c34b54051a68d564cc4d221e040be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 22/49] fix: StaticBlockSparseMatrix.linOp can be built

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index b2c2677..dd68028 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(shape=self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From 47e582b68f7eb33db48ef737dd877c536e68a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 23/49] fix: StaticBlockSparseMatrix.conjGradSolve starts from
 x0, or from zero, and solves b = 0

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index dd68028..f593a49 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,7 +150,7 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
         s = r.copy()
@@ -158,6 +158,8 @@ class StaticBlockSparseMatrix(object):
         num_iterations = maxiter if maxiter else n
         i = None  # For pylint.
         for i in range(num_iterations):
+            if not np.any(r):
+                break
             u = self.matvec(s)
             alpha = np.dot(s, r)/np.dot(s, u)
             x = x + alpha*s
-- 
2.43.0


From 0430bb69bce7181bbfd1e1c31570b809d231a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 24/49] fix: an empty Polyline has length 0

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 5160959..aa59559 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -41,7 +41,7 @@ class Polyline(object):
             return "<Polyline with no verts>"
 
     def __len__(self):
-        return len(self.v)
+        return 0 if self.v is None else len(self.v)
 
     def copy(self):
         '''
-- 
2.43.0


From acea87d93ce59171fd789692e895a120dd8cfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 25/49] fix: rotation_from_up_and_look refuses colinear vectors
 despite rounding

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index d785019..fa94b5d 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,7 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    if np.linalg.norm(z) <= 1e-12 * np.linalg.norm(look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From b08e3a99b6369fcd9527381146cc17fcb8946d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 26/49] fix: barycentric coordinates in degenerate integer
 triangles are finite

---
 blmath/geometry/barycentric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/barycentric.py b/blmath/geometry/barycentric.py
index a840ea6..ea79e4e 100644
--- a/blmath/geometry/barycentric.py
+++ b/blmath/geometry/barycentric.py
@@ -32,7 +32,7 @@ def barycentric_coordinates_of_projection(p, q, u, v):
     if np.isscalar(s):
         s = s if s else np.spacing(1)
     else:
-        s[s == 0] = np.spacing(1)
+        s = np.where(s == 0, np.spacing(1), s)
 
     oneOver4ASquared = 1.0 / s
     w = p - q
-- 
2.43.0


From b46f045cd84cf4376914d56bf3f2f9b9e6d41301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 27/49] fix: CompositeTransform.append_transform4 refuses a
 matrix that is not 4x4

A 3x3 matrix was accepted, and every later use of the transform failed.
---
 blmath/geometry/transform/composite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7f8f6f8..d144237 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -128,8 +128,12 @@ class CompositeTransform(object):
         The new transformation is added to the end. Return its index.
 
         '''
+        if np.shape(forward) != (4, 4):
+            raise ValueError("Expected 4x4 matrix, got: %s" % (np.shape(forward),))
         if reverse is None:
             reverse = np.linalg.inv(forward)
+        elif np.shape(reverse) != (4, 4):
+            raise ValueError("Expected 4x4 matrix, got: %s" % (np.shape(reverse),))
 
         new_index = len(self.transforms)
 
-- 
2.43.0


From ec67e4208be2d1cc616f7506fa787c49688ffde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 28/49] fix: CompositeTransform keeps its own copy of the
 matrices it is given

A caller reusing one array for several steps changed the steps added before.
---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index d144237..1b0dadd 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -137,7 +137,7 @@ class CompositeTransform(object):
 
         new_index = len(self.transforms)
 
-        self.transforms.append((forward, reverse))
+        self.transforms.append((np.array(forward), np.array(reverse)))
 
         return new_index
 
-- 
2.43.0


From 541f85060e04de78e0799f50f62636386129f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 29/49] fix: CompositeTransform.matrix_for never hands out its
 own matrices

For a single step it returned a view of the stored matrix, so that writing to
the answer changed the transform.
---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 1b0dadd..55f7bb4 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -118,7 +118,7 @@ class CompositeTransform(object):
             return np.eye(4)
 
         matrix = six.moves.reduce(np.dot, matrices)
-        return matrix if reverse else matrix.T
+        return np.array(matrix if reverse else matrix.T)
 
     def append_transform4(self, forward, reverse=None):
         '''
-- 
2.43.0


From 9d6f31ea42a7a51573f437865a05a1a06fb0a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 30/49] fix: find_rigid_rotation turns a single point of any
 magnitude to its target

---
 blmath/geometry/transform/rigid_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index d5c5db5..fe60d2d 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -75,6 +75,8 @@ def find_rigid_rotation(a, b, allow_scaling=False):
 
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
+        # As long as the points themselves, whose directions would be lost otherwise.
+        cx = cx / (np.sqrt(scipy.linalg.norm(a) * scipy.linalg.norm(b)) or 1.)
         a = np.hstack((col(a), col(cx)))
         b = np.hstack((col(b), col(cx)))
 
-- 
2.43.0


From ed02d32af01605e8cd322ccc57296cdf21a8fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 31/49] fix: isnumeric does not depend on numpy's error
 settings nor touch the warning filters

---
 blmath/numerics/predicates.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index a76735b..3d09732 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -15,9 +15,7 @@ def isnumeric(x):
         pass
     try:
         # See if it supports mathiness
-        import warnings
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all='ignore'):
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
     except ZeroDivisionError:
         return True
-- 
2.43.0


From 8b4d628caed4daf28eda4f50b6a79870436c0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 32/49] fix: a CoordinateManager can be copied and pickled

---
 blmath/geometry/transform/coordinate_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index 787584e..cdc0acf 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -108,6 +108,10 @@ class CoordinateManager(object):
         self.__dict__['points_or_mesh'] = value
 
     def __getattr__(self, name):
+        # Python looks up its own methods (e.g. to copy or unpickle) this way, too.
+        if name.startswith('__'):
+            raise AttributeError(name)
+
         if self.points_tag is None:
             raise ValueError('Must set a value before trying to read one')
 
-- 
2.43.0


From ac790d21f6f9f880385c61d716e22c51ef084d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 33/49] fix: derivative of the cross product of an expression
 with itself

---
 blmath/optimization/objectives/normals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index f4bc269..6a40554 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -175,6 +175,10 @@ class CrossProduct(ch.Ch):
             idxs = idxs.reshape((-1, 3, 3))
             idxs = idxs.transpose((0, 2, 1)).ravel()
             self.indices = idxs
+        if obj is self.a and obj is self.b:
+            data = (self.Ax + self.Bx).ravel()
+            result = sp.csc_matrix((data, self.indices, self.indptr), shape=(sz, sz))
+            return -result
         if obj is self.a:
             # m = self.Bx
             # matvec = lambda x : _call_einsum_matvec(m, x)
-- 
2.43.0


From 0ccf3d669a8d6bc4fccc8a72e73094ddc98f9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 34/49] fix: points set on a coordinate manager never belong to
 the tag of earlier ones

Interrupted between the two assignments, the manager took the points which had
been set earlier for points at the new tag.
---
 blmath/geometry/transform/coordinate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index cdc0acf..91b25d3 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -104,8 +104,8 @@ class CoordinateManager(object):
         if name not in self.tags_to_indices:
             raise AttributeError("No such tag: %s" % name)
 
-        self.__dict__['points_tag'] = name
-        self.__dict__['points_or_mesh'] = value
+        # Together, so that points never belong to the tag of earlier ones.
+        self.__dict__.update(points_tag=name, points_or_mesh=value)
 
     def __getattr__(self, name):
         # Python looks up its own methods (e.g. to copy or unpickle) this way, too.
-- 
2.43.0


From 6cdfce77879f9aeff11bd3d62440ee83167a57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 35/49] fix: the edges of a polyline always match its vertices

Interrupted between setting the vertices (or closed) and its edges, a polyline
kept the edges of its earlier vertices.
---
 blmath/geometry/primitives/polyline.py | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index aa59559..3dd1b8e 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -27,7 +27,7 @@ class Polyline(object):
           point.
 
         '''
-        # Avoid invoking _update_edges before setting closed and v.
+        # Avoid invoking _update before setting closed and v.
         self.__dict__['closed'] = closed
         self.v = v
 
@@ -65,22 +65,26 @@ class Polyline(object):
             'edges': self.e,
         }
 
-    def _update_edges(self):
-        if self.v is None:
-            self.__dict__['e'] = None
+    def _update(self, v, closed):
+        '''
+        Set everything at once, so that the edges always match.
+
+        '''
+        if v is None:
+            self.__dict__.update(v=v, closed=closed, e=None)
             return
 
-        num_vertices = self.v.shape[0]
-        num_edges = num_vertices if self.closed else num_vertices - 1
+        num_vertices = v.shape[0]
+        num_edges = num_vertices if closed else num_vertices - 1
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed and num_edges > 0:
+        if closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
 
-        self.__dict__['e'] = edges
+        self.__dict__.update(v=v, closed=closed, e=edges)
 
     @setter_property
     def v(self, val):  # setter_property incorrectly triggers method-hidden. pylint: disable=method-hidden
@@ -90,8 +94,8 @@ class Polyline(object):
 
         '''
         from blmath.numerics import as_numeric_array
-        self.__dict__['v'] = as_numeric_array(val, dtype=np.float64, shape=(-1, 3), allow_none=True)
-        self._update_edges()
+        v = as_numeric_array(val, dtype=np.float64, shape=(-1, 3), allow_none=True)
+        self._update(v, self.closed)
 
     @setter_property
     def closed(self, val):
@@ -99,8 +103,7 @@ class Polyline(object):
         Update whether the polyline is closed or open.
 
         '''
-        self.__dict__['closed'] = val
-        self._update_edges()
+        self._update(self.v, val)
 
     @property
     def e(self):
-- 
2.43.0


From 4755e784defc7f27e29ec49b9e23365d9ebd6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 36/49] fix: sparse Cholesky factor of a matrix of whole
 numbers or single precision

---
 blmath/numerics/linalg/lchol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 613a471..9c4c26c 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -6,6 +6,7 @@ def lchol(A):
 
     # the cholmod port needs 64b data, while scipy sparse is 32b
     A64 = copy.copy(A)
+    A64.data = A.data.astype(np.float64)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
 
-- 
2.43.0


From a8d4763df277f5f7c9520b8fd26c85fd3c54f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 37/49] fix: block sparse matrix of whole numbers times a
 vector of whole numbers

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index f593a49..85be586 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From d41a153a2a4c63210199e4249dde2dc95fb5a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 38/49] fix: sparse Cholesky factor of a matrix with repeated
 entries

---
 blmath/numerics/linalg/lchol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 9c4c26c..d71b47c 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -9,6 +9,8 @@ def lchol(A):
     A64.data = A.data.astype(np.float64)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
+    # and each entry once
+    A64.sum_duplicates()
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-- 
2.43.0


From 97c18a14007c583b21f065b594b627a753b21617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 39/49] fix: block solver of a system with an empty column
 stored as zeros

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index c7f2e4d..d4c83ca 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -14,7 +14,7 @@ def block_sparse_cg_solve(A, x):
     from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix
 
     B = A.copy()
-    B.data = (0.*B.data + 1.0)
+    B.data = 1.0*(B.data != 0)
     A_sparsity = np.array(np.bitwise_and((B.sum(axis=0) < 1000), (B.sum(axis=0) > 0))).flatten()
     A_block_sparse = StaticBlockSparseMatrix(A, A_sparsity, A_sparsity)
     non_zero_columns = np.array(((A_block_sparse.block_dd != 0).sum(axis=0) > 0)).flatten()
-- 
2.43.0


From 6675ae9a68163965affef4f36668cecd04bd65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 40/49] fix: orthonormalize a single vector of whole numbers

---
 blmath/numerics/linalg/gram_schmidt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..8c85de2 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -41,7 +41,8 @@ def orthonormalize(v, indices=None):
     if indices is None:
         indices = range(len(v))
 
-    res = orthogonalize(v)
+    # Whole numbers can't be normalized in place.
+    res = orthogonalize(v) * 1.0
 
     for idx in indices:
         v = res[idx]
-- 
2.43.0


From dd88f71440382f0b631d158407aa94c5e7f1c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 41/49] fix: keep rotations by less than 1e-5 which are given
 as a matrix

---
 blmath/geometry/transform/rodrigues.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index d7850fb..6d0552b 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -73,7 +73,8 @@ def rodrigues(r, calculate_jacobian=False):
         theta = np.arccos(c)
         if s < 1e-5:
             if c > 0:
-                r_out = np.zeros((3, 1))
+                # The sine of a small angle is the angle.
+                r_out = np.array([[rx, ry, rz]]).T * 0.5
             else:
                 rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
                 if r[0, 1] < 0:
-- 
2.43.0


From 0698954f22f2015b7a097f898b09587c7eb48511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 42/49] fix: axes of half turns, and of almost half turns,
 given as a matrix

---
 blmath/geometry/transform/rodrigues.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index 6d0552b..ba368f4 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -76,7 +76,10 @@ def rodrigues(r, calculate_jacobian=False):
                 # The sine of a small angle is the angle.
                 r_out = np.array([[rx, ry, rz]]).T * 0.5
             else:
-                rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
+                twice_sine = np.array([[rx, ry, rz]])
+                # Only the symmetric part tells the axis, which the rest would disturb.
+                r = (r + r.T) * 0.5
+                rx, ry, rz = np.sqrt(np.clip((np.diag(r) - c) / (1 - c), 0, np.inf))
                 if r[0, 1] < 0:
                     ry = -ry
                 if r[0, 2] < 0:
@@ -85,6 +88,9 @@ def rodrigues(r, calculate_jacobian=False):
                     rz = -rz
 
                 r_out = np.array([[rx, ry, rz]]).T
+                # Short of half a turn, the two directions of the axis differ.
+                if np.dot(twice_sine, r_out)[0, 0] < -1e-12:
+                    r_out = -r_out
                 theta /= np.linalg.norm(r_out)
                 r_out *= theta
             if calculate_jacobian:
-- 
2.43.0


From 76f8bc9b53ba2b43f20d88638ff35e6a4c5b7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 43/49] fix: precise angles of small rotations given as a
 matrix

---
 blmath/geometry/transform/rodrigues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index ba368f4..94f8af4 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -70,7 +70,7 @@ def rodrigues(r, calculate_jacobian=False):
         rz = r[1, 0] - r[0, 1]
         s = np.linalg.norm(np.array([rx, ry, rz])) * np.sqrt(0.25)
         c = np.clip((np.sum(np.diag(r)) - 1) * 0.5, -1, 1)
-        theta = np.arccos(c)
+        theta = np.arctan2(s, c)
         if s < 1e-5:
             if c > 0:
                 # The sine of a small angle is the angle.
-- 
2.43.0


From 7d30dd64c3841ec371a304da39fb5e6df9136f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 44/49] fix: flip, partition and ask polylines without vertices

---
 blmath/geometry/primitives/polyline.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3dd1b8e..c3652a1 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -60,6 +60,9 @@ class Polyline(object):
         return Lines(v=self.v, e=self.e, vc=vc)
 
     def to_dict(self, decimals=3):
+        if self.v is None:
+            return {'vertices': [], 'edges': self.e}
+
         return {
             'vertices': [np.around(v, decimals=decimals).tolist() for v in self.v],
             'edges': self.e,
@@ -119,6 +122,9 @@ class Polyline(object):
         '''
         Coordinate pairs for each segment.
         '''
+        if self.e is None:
+            return np.empty((0, 2, 3))
+
         return self.v[self.e]
 
     @property
@@ -152,6 +158,9 @@ class Polyline(object):
         '''
         Flip the polyline from end to end.
         '''
+        if self.v is None:
+            return
+
         self.v = np.flipud(self.v)
 
     def reindexed(self, index, ret_edge_mapping=False):
@@ -192,6 +201,9 @@ class Polyline(object):
         '''
         from blmath.geometry.segment import partition_segment
 
+        if len(self) == 0:
+            return np.array([], dtype=int) if ret_indices else self
+
         lengths = self.segment_lengths
         num_segments_needed = np.ceil(lengths / max_length)
 
@@ -233,6 +245,9 @@ class Polyline(object):
         Returns the points of intersection between the plane and any of the
         edges of `polyline`, which should be an instance of Polyline.
         '''
+        if self.v is None:
+            return (np.empty((0, 3)), np.array([], dtype=int)) if ret_edge_indices else np.empty((0, 3))
+
         # Identify edges with endpoints that are not on the same side of the plane
         sgn_dists = plane.signed_distance(self.v)
         which_es = np.abs(np.sign(sgn_dists)[self.e].sum(axis=1)) != 2
-- 
2.43.0


From d6b80c5590a042dc0155b430e02ca0e090eb17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 45/49] fix: rotate almost horizontal planes, and those with
 rounded normals, to the xz plane

---
 blmath/geometry/transform/rotation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index fa94b5d..816edde 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -38,14 +38,13 @@ def rotate_to_xz_plane(points, normal=None):
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-    theta = np.arccos(np.dot(e_2, normal))
+    r_axis = np.cross(normal, e_2)
+    theta = np.arctan2(np.linalg.norm(r_axis), np.dot(e_2, normal))
 
-    if min(abs(theta - np.pi), abs(theta)) < 1e-5:
+    if not np.any(r_axis):
         # cross product will degenerate
         # to zero vector in this case
         r_axis = np.array([1., 0., 0.])
-    else:
-        r_axis = np.cross(normal, e_2)
 
     r_axis /= np.linalg.norm(r_axis)
 
-- 
2.43.0


From 7bebbeae03129cd6cc22742b6ef0d8a2e992801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 46/49] fix: units.factor refuses unknown units also when both
 are the same

---
 blmath/units.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blmath/units.py b/blmath/units.py
index 382072d..8f950bf 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,8 +141,6 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units and not units_class:
-            return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
         if units_class and self._units[from_units][0] != units_class:
-- 
2.43.0


From 48dbab384011ef48b3e1745b023bf67caf0a0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 47/49] fix: planes through points which are close together

---
 blmath/geometry/primitives/plane.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..cf58c58 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -37,11 +37,13 @@ class Plane(object):
         p2 = as_numeric_array(p2, shape=(3,))
         p3 = as_numeric_array(p3, shape=(3,))
 
-        v1 = p2 - p1
-        v2 = p3 - p1
-        normal = np.cross(v1, v2)
+        return cls(point_on_plane=p1, unit_normal=cls._normal_to(p2 - p1, p3 - p1))
 
-        return cls(point_on_plane=p1, unit_normal=normal)
+    @staticmethod
+    def _normal_to(v1, v2):
+        # Bring short vectors to length, so they are not taken for collinear.
+        v1, v2 = [v / (min(1., np.abs(v).max()) or 1.) for v in (v1, v2)]
+        return np.cross(v1, v2)
 
     @classmethod
     def from_points_and_vector(cls, p1, p2, vector):
@@ -64,11 +66,9 @@ class Plane(object):
         p1 = as_numeric_array(p1, shape=(3,))
         p2 = as_numeric_array(p2, shape=(3,))
 
-        v1 = p2 - p1
-        v2 = as_numeric_array(vector, shape=(3,))
-        normal = np.cross(v1, v2)
+        vector = as_numeric_array(vector, shape=(3,))
 
-        return cls(point_on_plane=p1, unit_normal=normal)
+        return cls(point_on_plane=p1, unit_normal=cls._normal_to(p2 - p1, vector))
 
     @classmethod
     def fit_from_points(cls, points):
-- 
2.43.0


From a62e31faa5d3ac23b6d26144d819001af752a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 48/49] fix: Euler angles given as small integers lose
 precision

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 816edde..19739eb 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -83,7 +83,7 @@ def euler(xyz, order='xyz', units='deg'):
     if not hasattr(xyz, '__iter__'):
         xyz = [xyz]
     if units == 'deg':
-        xyz = np.radians(xyz)
+        xyz = np.radians(np.asarray(xyz, dtype=np.float64))
     r = np.eye(3)
     for theta, axis in zip(xyz, order):
         c = np.cos(theta)
-- 
2.43.0


From 6c5c4ebb60e26cfd07d968012cbddd1fe11a611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:13 +0000
Subject: [PATCH 49/49] fix: up and look which are nearly the same make no
 rotation

---
 blmath/geometry/transform/rotation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 19739eb..1ee78e1 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -77,6 +77,9 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
+    x = x / np.linalg.norm(x)
+    # What rounding left of y in z would keep the axes from being orthogonal.
+    z = np.cross(x, y)
     return np.array([x, y, z])
 
 def euler(xyz, order='xyz', units='deg'):
-- 
2.43.0

