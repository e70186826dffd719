From a80371a180e16f57e0913777a6e1ad0dab9d3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 01/46] fix: Polyline.partition_by_length no longer uses the
 removed np.int alias

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From 3eb6a48ec973fc548cd4436034edd3649a12cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 02/46] fix: CoordinateManager raises KeyError, not
 AttributeError, for an unknown tag on Python 3

---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..787584e 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args[0])
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From c847aa994c76a308ad39420ff4ccb6cc73570e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 03/46] fix: line_intersect3 compares the direction of h and k
 without exact float equality

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..604b4de 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,5 +149,5 @@ def line_intersect3(p0, q0, p1, q1):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From 761986e976a9bbfbeb2cebb3322a1c661c8e04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 04/46] fix: bsxfun combines a column with a row

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From 900903fffee5d573d071ff783ef6e8a278dcdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 05/46] fix: convexify_and_flatten_planar_curve no longer uses
 the removed np.mat

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From c347a5b633a4fe6881dc8a97b329223847d0b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 06/46] fix: rotate_to_xz_plane accepts an explicit normal

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..d785019 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From 99a79c76840a4134601d42ce3acef1d4b0f7bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 07/46] fix: block_sparse_cg_solve relies on cg's default
 tolerance (1e-5), as scipy removed the tol argument

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..06f72fb 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon)[0]
-- 
2.43.0


From ddb502b6f36e340e69b29f029c3e705915f35129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 08/46] fix: StaticBlockSparseMatrix.matvec handles dense rows
 and columns

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..b2c2677 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 62413d932377e1b77bc19fa9132479e33f8aa77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 09/46] fix: StaticBlockSparseMatrix.conjGradSolve starts from
 x0, or from zeros

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index b2c2677..73ec901 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,7 +150,7 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
         s = r.copy()
-- 
2.43.0


From 44c7891add4e6e9ec9d7873778ca01ce0f5c96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 10/46] fix: StaticBlockSparseMatrix.linOp passes the shape
 once

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 73ec901..4f80495 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From 5825a80623f02698af064ab5dc413ea828918b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 11/46] fix: inflection_points differentiates by the span
 coordinates, as np.gradient takes coordinates, not spacings

---
 blmath/geometry/apex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..02e14c5 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -24,12 +24,11 @@ def inflection_points(points, axis, span):
     '''
 
     coords_on_span = points.dot(span)
-    dx = np.gradient(coords_on_span)
     coords_on_axis = points.dot(axis)
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, coords_on_span), coords_on_span)
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From 6d351241c079cf48bf171b30c9e75c0bba75a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 12/46] fix: Value supports round() without a number of places,
 and so Value.round

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..1afec66 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=0):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
-- 
2.43.0


From c5468728017158dd14c962bb65aa7c9fdc76e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 13/46] fix: Value.prettified returns numbers, not Values
 tagged with the wrong units

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 1afec66..b46558f 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -170,7 +170,7 @@ class Value(object):
     @cached_property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From b3c770d1f618188b7f860b52de897e1848218ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 14/46] fix: a zero Value is falsy on Python 3

---
 blmath/value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/value.py b/blmath/value.py
index b46558f..9b8f00e 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -145,6 +145,7 @@ class Value(object):
 
     def __nonzero__(self):
         return bool(self.value)
+    __bool__ = __nonzero__
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From 32469c9405eb2ecd3ff7b84dfe561a44f680aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 15/46] fix: find_rigid_transform recognizes coplanar points
 despite rounding in the singular values

---
 blmath/geometry/transform/rigid_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..98d854b 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,7 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        if np.any(s <= 1e-10 * np.max(s)): # This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From 32f0a64d4f8903f3504b799ac90b144c0dc5340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 16/46] fix: find_rigid_rotation scales a single vector by the
 ratio of the input lengths

---
 blmath/geometry/transform/rigid_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 98d854b..86f556d 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -71,6 +71,8 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a) if allow_scaling else 1.
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -86,7 +88,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From ef86e63ed73d63f2c2e3cd2bf15391b6da7a74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 17/46] fix: rotation_from_up_and_look rejects vectors which
 are collinear up to rounding

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index d785019..fa94b5d 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,7 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    if np.linalg.norm(z) <= 1e-12 * np.linalg.norm(look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From c30e9f8a229c1c7db61f57778a819b3f75ae69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 18/46] fix: mesh_xsections keeps an open component open when a
 neighborhood is given

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From a61f89d26adcb2da72cccb37d15ebc8df759ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 19/46] fix: Plane.fit_from_points uses the symmetric
 eigensolver, so the normal is never complex

---
 blmath/geometry/primitives/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..ae9bdf9 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -76,7 +76,7 @@ class Plane(object):
         Fits a plane whose normal is orthgonal to the first two principal axes
         of variation in the data and centered on the points' centroid.
         '''
-        eigval, eigvec = np.linalg.eig(np.cov(points.T))
+        eigval, eigvec = np.linalg.eigh(np.cov(points.T))
         ordering = np.argsort(eigval)[::-1]
         normal = np.cross(eigvec[:, ordering[0]], eigvec[:, ordering[1]])
         return cls(points.mean(axis=0), normal)
-- 
2.43.0


From 6eec912d4ce16a069ce953c5865ab77fd9f67736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 20/46] fix: a closed Polyline can have zero vertices

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..5160959 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From cab144cd8702b0109e8dc171b74f2529362b7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 21/46] fix: lchol converts the data to float64, which is what
 the C code reads

---
 blmath/numerics/linalg/lchol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..c203c09 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -6,6 +6,7 @@ def lchol(A):
 
     # the cholmod port needs 64b data, while scipy sparse is 32b
     A64 = copy.copy(A)
+    A64.data = A.data.astype(np.float64)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
 
-- 
2.43.0


From 239b8d535c227915cab5e5866bbdaa0234971731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 22/46] fix: lchol reports a matrix which is not positive
 definite

---
 blmath/numerics/linalg/cholmod.c | 4 +++-
 blmath/numerics/linalg/lchol.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..7e82c02 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,11 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
-    Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
+    /* converting L to sparse makes it symbolic, which resets minor */
     minor = L->minor;
+    Lsparse = cholmod_l_factor_to_sparse(L, &Common);
+
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index c203c09..cb53ad1 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -12,7 +12,8 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    # when A is not positive definite, L has only the columns before the failure
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 7a4bbc327423f50e3211f5cac60af4009ad8deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 23/46] fix: convert_33_to_44 and convert_44_to_33 raise the
 intended ValueError for a wrong shape

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7f8f6f8 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From 4b9abd40dad3afd515826c096509b1e3c2b97997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 24/46] fix: line_intersect3 returns p0 when it lies on the
 other line

---
 blmath/geometry/segment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 604b4de..bbd041f 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -145,9 +145,10 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
+    # when only h=0, p0 lies on line 1, and is itself the intersection
     l = h_ / k_ * e
     sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From e6b76c1f50974a18c44db34569e6d3a505d3bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 25/46] fix: rodrigues takes the signs of a half-turn axis from
 the symmetric part of the matrix

---
 blmath/geometry/transform/rodrigues.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index d7850fb..82e1e19 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -76,11 +76,13 @@ def rodrigues(r, calculate_jacobian=False):
                 r_out = np.zeros((3, 1))
             else:
                 rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
-                if r[0, 1] < 0:
+                # take the signs from the symmetric part: the other part is
+                # small, but can exceed a product of two small components
+                if r[0, 1] + r[1, 0] < 0:
                     ry = -ry
-                if r[0, 2] < 0:
+                if r[0, 2] + r[2, 0] < 0:
                     rz = -rz
-                if np.abs(rx) < np.abs(ry) and np.abs(rx) < np.abs(rz) and ((r[1, 2] > 0) != (ry*rz > 0)):
+                if np.abs(rx) < np.abs(ry) and np.abs(rx) < np.abs(rz) and ((r[1, 2] + r[2, 1] > 0) != (ry*rz > 0)):
                     rz = -rz
 
                 r_out = np.array([[rx, ry, rz]]).T
-- 
2.43.0


From 77cee6ccf003af56e78aedece51d2d73fd7c691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 26/46] fix: find_rigid_rotation of a single vector is accurate
 for long vectors

---
 blmath/geometry/transform/rigid_transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 86f556d..fb5a194 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -74,6 +74,10 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a) if allow_scaling else 1.
 
     if a.size == 3:
+        # only the directions matter; unit vectors keep the cross product
+        # from swamping the vectors themselves
+        a = a / (scipy.linalg.norm(a) or 1.)
+        b = b / (scipy.linalg.norm(b) or 1.)
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
         b = np.hstack((col(b), col(cx)))
-- 
2.43.0


From 9f85be12543679410a93ae120cc4f5cf567a7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 27/46] fix: parallel lines are recognized up to rounding

---
 blmath/geometry/segment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index bbd041f..88629f0 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -120,6 +120,12 @@ def line_intersect(p0, q0, p1, q1):
     b = np.array([rhs0,
                   rhs1])
 
+    # np.linalg.solve only notices parallel lines when elimination happens to
+    # leave an exact zero
+    det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
+    if abs(det) <= 1e-14 * np.linalg.norm(a[0]) * np.linalg.norm(a[1]):
+        return np.array([np.nan, np.nan])
+
     try:
         return np.linalg.solve(a, b)
     except np.linalg.LinAlgError:
@@ -145,7 +151,7 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if k_ == 0:
+    if k_ <= 1e-14 * np.linalg.norm(e) * np.linalg.norm(f):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     # when only h=0, p0 lies on line 1, and is itself the intersection
-- 
2.43.0


From 87c9aa06d735dca9db708bb3d573f6a4a72a25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 28/46] fix: line_intersect3 returns None for identical lines
 which share a given point

---
 blmath/geometry/segment.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 88629f0..2b9012e 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -139,6 +139,12 @@ def line_intersect3(p0, q0, p1, q1):
     '''
     e = p0 - q0 # direction of line 0
     f = p1 - q1 # direction of line 1
+    k = np.cross(f, e)
+    k_ = np.linalg.norm(k)
+    if k_ <= 1e-14 * np.linalg.norm(e) * np.linalg.norm(f):
+        # there is no intesection; either parallel or colinear lines, even if
+        # they share one of the points
+        return None
     # Check for special case where we're given the intersection
     # Note that we must check for these, because if p0 == p1 then
     # g would be zero length and we can't continue
@@ -148,13 +154,8 @@ def line_intersect3(p0, q0, p1, q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
-    k = np.cross(f, e)
     h_ = np.linalg.norm(h)
-    k_ = np.linalg.norm(k)
-    if k_ <= 1e-14 * np.linalg.norm(e) * np.linalg.norm(f):
-        # there is no intesection; either parallel (k=0) or colinear (both=0) lines
-        return None
-    # when only h=0, p0 lies on line 1, and is itself the intersection
+    # when h=0, p0 lies on line 1, and is itself the intersection
     l = h_ / k_ * e
     sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From a5a5d81808c40ea8f6c27646a4064538aaa4e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 29/46] fix: check units and units class when converting from a
 unit to itself

---
 blmath/units.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..8f950bf 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,8 +141,6 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
-            return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
         if units_class and self._units[from_units][0] != units_class:
-- 
2.43.0


From 95dc4c39e3fb36130aa0f5886801c9b293cb73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 30/46] fix: Value.prettified follows the value when it is
 assigned

---
 blmath/value.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 9b8f00e..ac8feb0 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -168,7 +166,7 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
         return unit_conversions.prettify(self.value, self.units)
-- 
2.43.0


From 9b3e4b26b9134579975a6219d8fde18c4785337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH 31/46] fix: isomorphism recognizes linearly dependent frames
 up to rounding

---
 blmath/numerics/linalg/isomorphism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..b273e83 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -38,9 +38,9 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
         elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
-        elif np.linalg.det(L_frame1_e) == 0:
+        elif np.linalg.matrix_rank(L_frame1_e) < len(frame1):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-        elif np.linalg.det(L_frame2_e) == 0:
+        elif np.linalg.matrix_rank(L_frame2_e) < len(frame2):
             raise LinearDependenceError('%s is linearly dependent.' % frame2)
 
     _validate_frames(frame1, frame2)
-- 
2.43.0


From f25189f654af00ea2ad94b99622305e3c920e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 32/46] fix: isomorphism compares the dimensions of the
 vectors, not their number again

---
 blmath/numerics/linalg/isomorphism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index b273e83..75cb5c9 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -36,7 +36,7 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame1_e)
         elif len(L_frame2_e.shape) != 2:
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
-        elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
+        elif L_frame1_e.shape[0] != L_frame2_e.shape[0]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
         elif np.linalg.matrix_rank(L_frame1_e) < len(frame1):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-- 
2.43.0


From 1f7f5b6d7218579a60ee4c8c3713e4f8013e9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:42 +0000
Subject: [PATCH 33/46] fix: gram_schmidt.orthonormalize of a single integer
 vector

---
 blmath/numerics/linalg/gram_schmidt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..632d112 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -35,7 +35,7 @@ def orthogonalize(v):
 
         o.append(w)
 
-    return np.array(o)
+    return np.array(o, dtype=np.float64)
 
 def orthonormalize(v, indices=None):
     if indices is None:
-- 
2.43.0


From 1d17299e5c620b68a4f3177de17064e5d225478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:02 +0000
Subject: [PATCH 34/46] fix: StaticBlockSparseMatrix.matvec of integers without
 dense columns

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 4f80495..552f136 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From be0252070e09551395e5e7e64a7c6e610e7f7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 35/46] fix: conjGradSolve returns a start which solves the
 system already

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 552f136..2513bd2 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -153,6 +153,8 @@ class StaticBlockSparseMatrix(object):
         x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
+        if np.sqrt(np.dot(r, r)) < tol:
+            return x, 0
         s = r.copy()
 
         num_iterations = maxiter if maxiter else n
-- 
2.43.0


From 22affb959101872dfb035a997cdd392157562e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 36/46] fix: conjGradSolve ends when the residual cannot be
 reduced further, instead of returning nan

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 2513bd2..b39b883 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -161,6 +161,8 @@ class StaticBlockSparseMatrix(object):
         i = None  # For pylint.
         for i in range(num_iterations):
             u = self.matvec(s)
+            if not np.any(s):
+                break
             alpha = np.dot(s, r)/np.dot(s, u)
             x = x + alpha*s
             r = b - self.matvec(x)
-- 
2.43.0


From 997f2fb35c46a807739ebab1c049445b2c765a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 37/46] fix: VertNormals follows a change of normalized

---
 blmath/optimization/objectives/normals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index f4bc269..3796ac8 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -58,9 +58,9 @@ class VertNormals(ch.Ch):
             self.normalized = True
 
         if hasattr(self, 'v') and hasattr(self, 'f'):
-            if 'f' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
+            if 'f' not in which and 'normalized' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
                 self.tns.v = self.v
-            else: # change in f or in size of v. shouldn't happen often.
+            else: # change in f, normalized or in size of v. shouldn't happen often.
                 f = self.f
 
                 IS = f.ravel()
-- 
2.43.0


From 8e0610384d86aee44439abcdd774c4a4f9c41000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 38/46] fix: the matrix which CompositeTransform.matrix_for
 returns is not the transform's own

---
 blmath/geometry/transform/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7f8f6f8..f900132 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -118,7 +118,8 @@ class CompositeTransform(object):
             return np.eye(4)
 
         matrix = six.moves.reduce(np.dot, matrices)
-        return matrix if reverse else matrix.T
+        # A copy, as the product of a single matrix is that matrix itself.
+        return np.array(matrix if reverse else matrix.T)
 
     def append_transform4(self, forward, reverse=None):
         '''
-- 
2.43.0


From 6703cd3f3d11db23f99f6d1bbdaeb43d01af3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 39/46] fix: cut_by_plane keeps the whole of a closed polyline
 which touches the plane from the front

---
 blmath/geometry/primitives/polyline.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 5160959..6a36dae 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -273,6 +273,13 @@ class Polyline(object):
         # Reindex the polyline so it starts with a contiguous subchain that
         # lies in front of or on the plane.
         v_sign = plane.sign(self.v)
+        if not np.any(v_sign == -1):
+            # The polyline touches the plane without passing through it, so
+            # all of it is kept, from the point of contact around to it again.
+            on_plane, = np.where(v_sign == 0)
+            working = self.reindexed(index=on_plane[0])
+            return Polyline(
+                v=np.vstack([working.v, working.v[0]]), closed=False)
         first_point_is_in_back = v_sign[0] == -1
         if first_point_is_in_back:
             # e.g. v_sign = np.array([-1, 1, 1, 1, -1, -1, -1])
-- 
2.43.0


From 92eb0e54df80ac5a7c225d1ceba4ebaddac4d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 40/46] fix: rodrigues of a half turn is not nan when rounding
 puts a diagonal element below -1

---
 blmath/geometry/transform/rodrigues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index 82e1e19..52af3ac 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -75,7 +75,7 @@ def rodrigues(r, calculate_jacobian=False):
             if c > 0:
                 r_out = np.zeros((3, 1))
             else:
-                rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
+                rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
                 # take the signs from the symmetric part: the other part is
                 # small, but can exceed a product of two small components
                 if r[0, 1] + r[1, 0] < 0:
-- 
2.43.0


From b6d56f8888891d6fea702f6545df9a1b088394e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 41/46] fix: barycentric coordinates of degenerate triangles
 are finite for integer arrays

---
 blmath/geometry/barycentric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/barycentric.py b/blmath/geometry/barycentric.py
index a840ea6..34f8c3c 100644
--- a/blmath/geometry/barycentric.py
+++ b/blmath/geometry/barycentric.py
@@ -23,7 +23,7 @@ def barycentric_coordinates_of_projection(p, q, u, v):
     v = v.T
 
     n = np.cross(u, v, axis=0)
-    s = np.sum(n*n, axis=0)
+    s = np.sum(n*n, axis=0, dtype=np.float64)
 
     # If the triangle edges are collinear, cross-product is zero,
     # which makes "s" 0, which gives us divide by zero. So we
-- 
2.43.0


From a6c6733c3e4abb3a972c76d5083b423bee26118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 42/46] fix: rotate_to_xz_plane gives nan when a unit normal
 along y exceeds one by rounding

---
 blmath/geometry/transform/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index fa94b5d..84cce9d 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -38,7 +38,8 @@ def rotate_to_xz_plane(points, normal=None):
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-    theta = np.arccos(np.dot(e_2, normal))
+    # rounding can leave the product of unit vectors slightly outside [-1, 1]
+    theta = np.arccos(np.clip(np.dot(e_2, normal), -1, 1))
 
     if min(abs(theta - np.pi), abs(theta)) < 1e-5:
         # cross product will degenerate
-- 
2.43.0


From 0773e196d56e1d7f49731f9230df62b814752180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 43/46] fix: partition and partition_segment_old give nan for a
 segment without length

---
 blmath/geometry/segment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 2b9012e..bd2a441 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -23,7 +23,8 @@ def partition(v, partition_size=5):
     sqdis = np.square(diffs)
     dists = np.sqrt(np.sum(sqdis, axis=1))
 
-    unitds = diffs / dists[:, np.newaxis]
+    # a repeated vertex has no direction, and needs none
+    unitds = diffs / np.where(dists == 0, 1, dists)[:, np.newaxis]
     widths = dists / partition_size
 
     domain = widths[:, np.newaxis] * np.arange(0, partition_size)
@@ -89,7 +90,7 @@ def partition_segment_old(p1, p2, partition_size=5):
 
     dist = np.linalg.norm(p1 - p2)
 
-    unit_direction = (p2 - p1) / dist
+    unit_direction = (p2 - p1) / (dist or 1.)
     partition_width = dist / partition_size
 
     domain = partition_width * np.arange(1, partition_size)
-- 
2.43.0


From 4721dd567ab96e6cbf3067d4db62975d26351130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 44/46] fix: scale_to_range of narrow integer arrays

---
 blmath/numerics/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/operations.py b/blmath/numerics/operations.py
index 4c7b579..36aa7df 100644
--- a/blmath/numerics/operations.py
+++ b/blmath/numerics/operations.py
@@ -1,6 +1,7 @@
 def scale_to_range(a, r_min, r_max):
     import numpy as np
-    a = a - np.min(a)
+    # in floating point, as differences and products of integers can overflow
+    a = np.asarray(a) - float(np.min(a))
     return (r_max - r_min)*a/np.max(a) + r_min
 
 def zero_safe_divide(a, b, default_error_value=0.):
-- 
2.43.0


From e9e3fdfcc7d341153daedbbc0ef3bbedb14735c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 45/46] fix: barycentric coordinates with large integer edges

---
 blmath/geometry/barycentric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/barycentric.py b/blmath/geometry/barycentric.py
index 34f8c3c..5f31e57 100644
--- a/blmath/geometry/barycentric.py
+++ b/blmath/geometry/barycentric.py
@@ -22,7 +22,8 @@ def barycentric_coordinates_of_projection(p, q, u, v):
     u = u.T
     v = v.T
 
-    n = np.cross(u, v, axis=0)
+    # in floating point, as the squares of large integers overflow
+    n = np.cross(u, v, axis=0).astype(np.float64)
     s = np.sum(n*n, axis=0, dtype=np.float64)
 
     # If the triangle edges are collinear, cross-product is zero,
-- 
2.43.0


From 9e802bc9b1ed288ee7cd88015089f4d48d5182a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 46/46] fix: keep face indices of narrow integer types from
 overflowing in the derivatives of normals and edges

---
 blmath/optimization/objectives/normals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index 3796ac8..f21eaec 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -63,7 +63,7 @@ class VertNormals(ch.Ch):
             else: # change in f, normalized or in size of v. shouldn't happen often.
                 f = self.f
 
-                IS = f.ravel()
+                IS = f.ravel().astype(np.int64)  # in a type which holds three times the indices
                 JS = np.array([range(f.shape[0])]*3).T.ravel()
                 data = np.ones(len(JS))
 
@@ -120,8 +120,9 @@ class TriEdges(ch.Ch):
 
         cplus = self.cplus
         cminus = self.cminus
-        vplus = self.f[:, cplus]
-        vminus = self.f[:, cminus]
+        # in a type which holds three times the indices
+        vplus = self.f[:, cplus].astype(np.int64)
+        vminus = self.f[:, cminus].astype(np.int64)
         vplus3 = row(np.hstack([col(vplus*3), col(vplus*3+1), col(vplus*3+2)]))
         vminus3 = row(np.hstack([col(vminus*3), col(vminus*3+1), col(vminus*3+2)]))
 
-- 
2.43.0

