From c6f052cc0015e1b93a13db5340909267899ad2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 001/149] fix: a null vector is false (Python 3 spells the hook
 __bool__), so its orientation is rejected

---
 Patro/GeometryEngine/Vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index cfea826..4ae22e4 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -146,7 +146,7 @@ class Vector2DBase(Primitive, Primitive2DMixin):
 
     ##############################################
 
-    def __nonzero__(self) -> bool:
+    def __bool__(self) -> bool:
         return bool(self._v.any())
 
     ##############################################
-- 
2.43.0


From 5cfb88e7df36900287b1b191007e2b9530d6ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 002/149] fix: build the point array of N-points primitives,
 whose points are an iterator

---
 Patro/GeometryEngine/Primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..772c3a9 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose()
 
     ##############################################
 
-- 
2.43.0


From b3fb7679029904e63ce51e270d28bd7e69490e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 003/149] fix: reverse() of a reversible primitive reverses its
 points

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 772c3a9..ecf6fb6 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -360,7 +360,7 @@ class ReversiblePrimitiveMixin:
 
     @property
     def is_reversible(self):
-        True
+        return True
 
     ##############################################
 
@@ -432,7 +432,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
 
 ####################################################################################################
 
-class Primitive2P(Primitive1P, ReversiblePrimitiveMixin):
+class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
 
     """Base class for 2-points primitives."""
 
@@ -597,7 +597,7 @@ class Primitive4P(Primitive3P):
 
 ####################################################################################################
 
-class PrimitiveNP(PointPrimitive, ReversiblePrimitiveMixin):
+class PrimitiveNP(ReversiblePrimitiveMixin, PointPrimitive):
 
     """Base class for N-points primitives."""
 
-- 
2.43.0


From 7756b25b372d29d94ada8d79dba683a2d793c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 004/149] fix: closed points of primitives which have no
 _points attribute

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index ecf6fb6..f1930f0 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -324,14 +324,14 @@ class ClosedPrimitiveMixin:
     def closed_points(self):
         # Fixme: don't work for iterator
         # return closed_iterator(self.points)
-        return closed_iterator(self._points)
+        return closed_iterator(tuple(self.points))
 
     ##############################################
 
     @property
     def closed_pairwise_points(self):
         # return closed_pairwise(self.points)
-        return closed_pairwise(self._points)
+        return closed_pairwise(tuple(self.points))
 
     ##############################################
 
-- 
2.43.0


From c6f414b2be5000f7e9cec7cade7520d4367cff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 005/149] fix: iterate from the second point of 2, 3 and
 4-points primitives (to_path)

---
 Patro/GeometryEngine/Primitive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index f1930f0..aa65305 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -479,6 +479,9 @@ class Primitive2P(ReversiblePrimitiveMixin, Primitive1P):
     def reversed_points(self):
         return iter((self._p1, self._p0))
 
+    def iter_from_second_point(self):
+        return iter((self._p1,))
+
     ##############################################
 
     def _set_points(self, points):
@@ -536,7 +539,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +591,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
-- 
2.43.0


From 052d9f748a782b0da7dc2fd37cf9947dbc6006d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 006/149] fix: to_polygon passes the points, a 1-point
 primitive stores a point

---
 Patro/GeometryEngine/Primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index aa65305..ab664bd 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -428,7 +428,7 @@ class Primitive1P(PointPrimitive, Primitive1PMixin):
     ##############################################
 
     def _set_points(self, points):
-        self._p0 = points
+        self._p0, = points
 
 ####################################################################################################
 
@@ -688,7 +688,7 @@ class PolygonMixin:
 
     def to_polygon(self):
         from .Polygon import Polygon2D
-        return Polygon2D(self.points)
+        return Polygon2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 0e095bca1a25022e307ee765d9715d6b0fdda587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 007/149] fix: classify a composed or array-built
 transformation from its matrix (2D raised, affine left None)

---
 Patro/GeometryEngine/Transformation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..462f6fe 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
@@ -370,7 +370,12 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        else:
+            return TransformationType.Generic
 
     ##############################################
 
-- 
2.43.0


From b8a9f508c8e1a6d15f36963f1f362e023a9f691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 008/149] fix: scale a scalar by the similarity ratio of the
 matrix, e.g. for a rotation at a point

---
 Patro/GeometryEngine/Transformation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 462f6fe..02a9cc3 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -37,7 +37,7 @@ __all__ = [
 ####################################################################################################
 
 from enum import Enum, auto
-from math import sin, cos, radians, degrees
+from math import sin, cos, radians, degrees, sqrt
 
 import numpy as np
 
@@ -193,8 +193,12 @@ class Transformation:
             # Scalar can only be scaled if the frame is not sheared
             if self._type in (TransformationType.Identity, TransformationType.Rotation):
                 return obj
-            elif self._type not in (TransformationType.Shear, TransformationType.Generic):
-                return abs(self._m[0,0]) * obj
+            # Columns of a similarity are orthogonal and have the same length
+            matrix = self._m[:self.__dimension__,:self.__dimension__]
+            metric = np.matmul(matrix.transpose(), matrix)
+            scale_square = metric[0,0]
+            if np.allclose(metric / (scale_square or 1), np.identity(self.__dimension__) * bool(scale_square)):
+                return sqrt(scale_square) * obj
             else:
                 raise ValueError('Transformation is sheared')
         else:
-- 
2.43.0


From 7b287000871caa5c12939617e8780026099ddae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 009/149] fix: transformation size, copy and fill constructors,
 uniform affine scale

---
 Patro/GeometryEngine/Transformation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 02a9cc3..f764fdf 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -101,7 +101,7 @@ class Transformation:
             else:
                 raise IncompatibleArrayDimension
         else:
-            array = np.array((self.__size__, self.__size__))
+            array = np.empty((self.__size__, self.__size__))
             array[...] = obj
 
         self._m = np.array(array)
@@ -118,7 +118,7 @@ class Transformation:
 
     @property
     def size(self):
-        return self._size
+        return self.__size__
 
     @property
     def array(self):
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.size
 
     ##############################################
 
@@ -394,10 +394,12 @@ class AffineTransformation2D(AffineTransformation):
     ##############################################
 
     @classmethod
-    def Scale(cls, x_scale, y_scale):
+    def Scale(cls, x_scale, y_scale=None):
 
         # Fixme: others, use *= ? (comment means ???)
 
+        if y_scale is None:
+            y_scale = x_scale
         transformation = cls.Identity()
         transformation.matrix_part[...] = Transformation2D.Scale(x_scale, y_scale).array
         transformation._type = Transformation2D.type_for_scale(x_scale, y_scale)
-- 
2.43.0


From b0b40452c79045db5e9e340eba3e00e20a11f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 010/149] fix: a cloned line doesn't share its point and vector
 with the original

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index c499003..7972e57 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -60,7 +60,7 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def clone(self) -> 'Line2D':
-        return self.__class__(self.p, self.v)
+        return self.__class__(self.p.clone(), self.v.clone())
 
     ##############################################
 
-- 
2.43.0


From b5b6ddc81a584a94edc07455f61c791c66e3c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 011/149] fix: projection of a point on a line whose vector is
 not normalised

---
 Patro/GeometryEngine/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 7972e57..8e3da79 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -206,7 +206,7 @@ class Line2D(Primitive2DMixin, Primitive):
 
         """
         delta = point - self.p
-        s = delta.projection_on(self.v)
+        s = delta.projection_on(self.v) / self.v.magnitude
         return s
 
     def projected_point(self, point: Vector2D) -> Vector2D:
-- 
2.43.0


From 2e564938740290181eb9c988875109b20e143367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 012/149] fix: line point_at_distance default point and
 distance between abscissae

---
 Patro/GeometryEngine/Line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index 8e3da79..b1bdff9 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -95,13 +95,15 @@ class Line2D(Primitive2DMixin, Primitive):
     ##############################################
 
     def point_at_distance(self, distance: float, point: Vector2D=None) -> Vector2D:
+        if point is None:
+            point = self.p
         return point + self.vn * distance
 
     ##############################################
 
     def compute_distance_between_abscissae(self, s0: float, s1: float) -> float:
         """Compute distance between two abscissae"""
-        return abs(s1 - s0) * self.v.magnitude()
+        return abs(s1 - s0) * self.v.magnitude
 
     ##############################################
 
-- 
2.43.0


From 4b033fcd92266d8111f6a54b3df496242c3c54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 013/149] fix: clip a line by a bounding box, also when it is
 vertical

---
 Patro/GeometryEngine/Line.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Line.py b/Patro/GeometryEngine/Line.py
index b1bdff9..b909211 100644
--- a/Patro/GeometryEngine/Line.py
+++ b/Patro/GeometryEngine/Line.py
@@ -265,9 +265,9 @@ class Line2D(Primitive2DMixin, Primitive):
         """Return the bounding box build on the intersection of the input bounding box with the line
 
         """
-        left, bottom, right, top = interval.bounding_box()
-        vb = Vector2D(interval.size())
-        if abs(self.v.tan) > vb.tan:
+        left, bottom, right, top = interval.bounding_box
+        vb = Vector2D(interval.size)
+        if abs(self.v.y) * vb.x > vb.y * abs(self.v.x):
             x_min, y_min = self.get_x_from_y(bottom), bottom
             x_max, y_max = self.get_x_from_y(top), top
         else:
-- 
2.43.0


From 4b533c64137bd880cc42b8447363bf57b595c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 014/149] fix: a segment contains the points which lie on it,
 whatever its length

---
 Patro/GeometryEngine/Segment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..6fdc75d 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -212,9 +212,6 @@ class Segment2D(Primitive2DMixin, Primitive2P):
 
         # Fixme: purpose ???
 
-        line = self.to_line()
-        d, s = line.distance_and_abscissa_to_line(point)
-        # Fixme: check d / is collinear
         # Fixme: p2 <- p1
-        #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        # the point can be the result of a computation
+        return self.distance_to_point(point) <= 1e-7
-- 
2.43.0


From b4dd59bd147c8055714b0dac6555d39d910ae5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 015/149] fix: triangle bisectors were medians

---
 Patro/GeometryEngine/Triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..8bc4c9b 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -123,15 +123,15 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     @property
     def bisector_vector0(self):
-        return (self._p1 - self._p0) + (self._p2 - self._p0)
+        return (self._p1 - self._p0).normalise() + (self._p2 - self._p0).normalise()
 
     @property
     def bisector_vector1(self):
-        return (self._p0 - self._p1) + (self._p2 - self._p1)
+        return (self._p0 - self._p1).normalise() + (self._p2 - self._p1).normalise()
 
     @property
     def bisector_vector2(self):
-        return (self._p1 - self._p2) + (self._p0 - self._p2)
+        return (self._p1 - self._p2).normalise() + (self._p0 - self._p2).normalise()
 
     ##############################################
 
-- 
2.43.0


From 686ba8ab266d86e6aabdf9895ce78320a1cf953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 016/149] fix: triangle perimeter and classification (raised,
 angles were edge orientations)

---
 Patro/GeometryEngine/Triangle.py | 34 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index 8bc4c9b..961b608 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,19 +151,19 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # Note: points can be transformed in place
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        # interior angles at p1, p2 and p0
+        self._a10 = abs((self._p0 - self._p1).angle_with(self._p2 - self._p1))
+        self._a21 = abs((self._p1 - self._p2).angle_with(self._p0 - self._p2))
+        self._a02 = abs((self._p2 - self._p0).angle_with(self._p1 - self._p0))
 
     ##############################################
 
@@ -197,8 +197,8 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have the same length and angle = 60
-        return (self._p10 == self._p21 and
-                self._p21 == self._p02)
+        return (math.isclose(self._p10, self._p21) and
+                math.isclose(self._p21, self._p02))
 
     ##############################################
 
@@ -207,9 +207,9 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
         self._cache_length()
         # all sides have different lengths
-        return (self._p10 != self._p21 and
-                self._p21 != self._p02 and
-                self._p02 != self._p10)
+        return not (math.isclose(self._p10, self._p21) or
+                    math.isclose(self._p21, self._p02) or
+                    math.isclose(self._p02, self._p10))
 
     ##############################################
 
@@ -225,7 +225,7 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_right(self):
         self._cache_angle()
         # one angle = 90
-        raise NotImplementedError
+        return math.isclose(max(self._a10, self._a21, self._a02), 90)
 
     ##############################################
 
@@ -233,7 +233,7 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_obtuse(self):
         self._cache_angle()
         # one angle > 90
-        return max(self._a10, self._a21, self._a02) > 90
+        return not self.is_right and max(self._a10, self._a21, self._a02) > 90
 
     ##############################################
 
@@ -241,13 +241,13 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
     def is_acute(self):
         self._cache_angle()
         # all angle < 90
-        return max(self._a10, self._a21, self._a02) < 90
+        return not self.is_right and max(self._a10, self._a21, self._a02) < 90
 
     ##############################################
 
     @property
     def is_oblique(self):
-        return not self.is_equilateral
+        return not self.is_right
 
     ##############################################
 
-- 
2.43.0


From ec8fdc2b029cb17a764e8139022acd1278b9da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 017/149] fix: rectangle class constructors

---
 Patro/GeometryEngine/Rectangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 7f8cbe8..198bbe3 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -52,11 +52,11 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
     ##############################################
 
     @classmethod
-    def from_point_and_offset(self, p0, v):
+    def from_point_and_offset(cls, p0, v):
         return cls(p0, p0+v)
 
     @classmethod
-    def from_point_and_radius(self, p0, v):
+    def from_point_and_radius(cls, p0, v):
         return cls(p0-v, p0+v)
 
     ##############################################
-- 
2.43.0


From 842d4aa4b33f27da76b17a6785b7a20ae1540411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 018/149] fix: a rectangle converted to a polygon or a path has
 four corners

---
 Patro/GeometryEngine/Rectangle.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Patro/GeometryEngine/Rectangle.py b/Patro/GeometryEngine/Rectangle.py
index 198bbe3..f1989f5 100644
--- a/Patro/GeometryEngine/Rectangle.py
+++ b/Patro/GeometryEngine/Rectangle.py
@@ -92,6 +92,15 @@ class Rectangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixi
 
     ##############################################
 
+    def to_polygon(self):
+        from .Polygon import Polygon2D
+        return Polygon2D(self._p0, self.p01, self._p1, self.p10)
+
+    def to_path(self):
+        return self.to_polygon().to_path()
+
+    ##############################################
+
     @property
     def diagonal(self):
         return self._p1 - self._p0
-- 
2.43.0


From 1299bc5dd6691071000deceef9c187e774265c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 019/149] fix: polyline length and to_path, edges after a
 transformation

---
 Patro/GeometryEngine/Polyline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..20f58b1 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
@@ -63,7 +69,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
@@ -82,6 +88,6 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
         path = Path2D(self.start_point)
         for point in self.iter_from_second_point():
-            path.line_to(point)
+            path.line_to(point, absolute=True)
 
         return path
-- 
2.43.0


From 5e6650caf2e179073b71dd7098e30c587d1302b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 020/149] fix: simple polygon test relied on a float equality
 and missed overlapping edges

---
 Patro/GeometryEngine/Polygon.py | 36 ++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..3562931 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -143,25 +143,25 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
     def _test_is_simple(self):
 
         edges = self.edges # must be a list !!!
-        # intersections = []
+        number_of_edges = len(edges)
+
+        def is_folded(edge1, edge2):
+            # edge1 ends where edge2 starts: does edge2 come back on edge1 ?
+            return edge1.is_collinear(edge2.p1) and edge1.vector.dot(edge2.vector) < 0
+
         # Test for edge intersection
-        for edge1 in edges:
-            for edge2 in edges:
-                if edge1 is not edge2:
-                    # Fixme: recompute line for edge
-                    intersection, intersect = edge1.intersection(edge2)
-                    if intersect:
-                        common_vertex = edge1.share_vertex_with(edge2)
-                        if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
-                        else:
-                            # two edge intersect
-                            # intersections.append(intersection)
-                            return False
+        for i, edge1 in enumerate(edges):
+            for j in range(i+1, number_of_edges):
+                edge2 = edges[j]
+                # consecutive edges share a vertex
+                if j == i+1:
+                    intersect = is_folded(edge1, edge2)
+                elif i == 0 and j == number_of_edges -1:
+                    intersect = is_folded(edge2, edge1)
+                else:
+                    intersect = edge1.intersect_with(edge2)
+                if intersect:
+                    return False
         return True
 
     ##############################################
-- 
2.43.0


From d8301ece5b019b25c3f4ba1a3d2eb2026139e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 021/149] fix: a convex polygon can have a vertex in the middle
 of an edge, whatever its orientation

---
 Patro/GeometryEngine/Polygon.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 3562931..e3bf1dc 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -178,10 +178,15 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         number_of_edges = len(edges)
         # a polygon is convex if all turns from one edge vector to the next have the same sense
         # sign = edges[-1].perp_dot(edges[0])
-        sign0 = sign(edges[-1].cross(edges[0]))
+        sign0 = None
         for i in range(number_of_edges):
             next_i = (i+1) % number_of_edges
-            if sign(edges[i].cross(edges[next_i])) != sign0:
+            cross = edges[i].cross(edges[next_i])
+            if cross == 0:
+                continue # no turn
+            if sign0 is None:
+                sign0 = sign(cross)
+            elif sign(cross) != sign0:
                 return False
         return True
 
-- 
2.43.0


From 36c866dcfef9471aeaec9957fe7e4b1e5cf7c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 022/149] fix: reset the polygon caches when its points are
 transformed or recentered

---
 Patro/GeometryEngine/Polygon.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index e3bf1dc..72800e7 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -104,7 +104,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._area = None
         self._is_clockwise = is_clockwise
         # self._cross = None
-        # self._barycenter = None
+        self._barycenter = None
 
         # self._major_axis_angle = None
         self._major_axis = None
@@ -113,6 +113,21 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+
+        super()._set_points(points)
+
+        # reset cache
+        self._edges = None
+        self._is_simple = None
+        self._is_convex = None
+        self._area = None
+        self._is_clockwise = None
+        self._barycenter = None
+        self._major_axis = None
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
@@ -411,9 +426,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From 95fd35ff14e5c84809ee7efd8ac8050f3faddad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 023/149] fix: a self-intersecting polygon is neither clockwise
 nor counterclockwise

---
 Patro/GeometryEngine/Polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 72800e7..9297020 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -282,6 +282,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         if area == 0:
             # print('Null area')
             self._area = 0
+            self._area_sign = 0
             self._barycenter = self.start_point
         else:
             factor = 1 / (6*area)
@@ -410,7 +411,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     @property
     def is_counterclockwise(self):
-        return not self.is_clockwise
+        is_clockwise = self.is_clockwise
+        return None if is_clockwise is None else not is_clockwise
 
     ##############################################
 
-- 
2.43.0


From ca7f4223793a34afec5f5a325cf8138d789752fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 024/149] fix: point inside polygon test, also for clockwise
 polygons

---
 Patro/GeometryEngine/Polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 9297020..1beb3b7 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -498,14 +498,14 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        return winding_number != 0
 
     ##############################################
 
-- 
2.43.0


From 9e0605d9f37ee76614b564fce03d8c1d15ee8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 025/149] fix: convex hull of points which have the same angle
 or are duplicated

---
 Patro/GeometryEngine/Polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 1beb3b7..656e187 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -717,7 +717,8 @@ def sort_point_for_graham_scan(points):
     data = []
     for point in sorted_points[1:]:
         direction = Vector2D(point - p0)
-        data.append((point, direction, direction.orientation, None))
+        if direction: # else duplicate of p0
+            data.append([point, direction, direction.orientation, None])
     data.sort(key=itemgetter(2))
 
     # if several points have the same angle then only keep the farther
-- 
2.43.0


From 95cf7c4f228c76434538f2b7b86b9d562a34ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 026/149] fix: clone, reverse, transform, simplify and name
 regular polygons

---
 Patro/GeometryEngine/Polygon.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 656e187..59700e0 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -565,7 +565,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         # print(remove)
         if remove:
             points = [self._points[i] for i in range(number_of_points) if i not in remove]
-            return self.__class__(*points)
+            return Polygon2D(*points)
         else:
             return self
 
@@ -640,6 +640,23 @@ class RegularPolygon(Polygon2D):
 
     ##############################################
 
+    def clone(self):
+        obj = self.__class__(self._center, self._radius, self._number_of_edges, self._angle)
+        obj._set_points([point.clone() for point in self._points])
+        return obj
+
+    def reverse(self):
+        return Polygon2D(*self.reversed_points)
+
+    def apply_transformation(self, transformation):
+        super().apply_transformation(transformation)
+        self._center = transformation * self._center
+        radius = self._points[0] - self._center
+        self._radius = radius.magnitude
+        self._angle = radius.orientation
+
+    ##############################################
+
     @property
     def center(self):
         return self._center
@@ -665,7 +682,7 @@ class RegularPolygon(Polygon2D):
     @classmethod
     def ngon_name(cls, number_of_edges):
         try:
-            return self.NGON_NAMES[number_of_edges]
+            return cls.NGON_NAMES[number_of_edges]
         except IndexError:
             return self.LARGE_NGON_NAMES.get(number_of_edges, None)
 
-- 
2.43.0


From 2ba4b34f3084c6ba0bc85473c86fdd9f3eac0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 027/149] fix: simplify returns None for a flat polygon instead
 of to raise

---
 Patro/GeometryEngine/Polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 59700e0..29bcab4 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -565,6 +565,9 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         # print(remove)
         if remove:
             points = [self._points[i] for i in range(number_of_points) if i not in remove]
+            if len(points) < 3:
+                # degenerated case: flat polygon
+                return None
             return Polygon2D(*points)
         else:
             return self
-- 
2.43.0


From 0ce11385b5fa6890d8c5218b9b3ac20a526e484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 028/149] fix: cancellation in the quadratic roots when the
 leading coefficient is small

---
 Patro/Common/Math/Root.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..3a99b25 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -57,15 +57,19 @@ def quadratic_root(a, b, c):
     if D < 0:
         return None # not real
 
-    b = -b
-    s = 1 / (2*a)
     if D > 0:
-        # Fixme: sign of b ???
-        r1 = (b - sqrt(D)) * s
-        r2 = (b + sqrt(D)) * s
+        # don't subtract close numbers when a is small
+        if b >= 0:
+            q = -(b + sqrt(D)) / 2
+            r1 = q / a
+            r2 = c / q
+        else:
+            q = (sqrt(D) - b) / 2
+            r1 = c / q
+            r2 = q / a
         return r1, r2
     else:
-        return b * s
+        return -b / (2*a)
 
 ####################################################################################################
 
-- 
2.43.0


From 376dda8813a48394a117d58eea4c675523a2ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 029/149] fix: cubic_root returns a list of roots also when the
 cubic is degenerated

---
 Patro/Common/Math/Root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 3a99b25..9391b05 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -76,7 +76,11 @@ def quadratic_root(a, b, c):
 def cubic_root(a, b, c, d):
 
     if a == 0:
-        return quadratic_root(b, c, d)
+        # return a list as for a cubic
+        roots = quadratic_root(b, c, d)
+        if roots is None:
+            return []
+        return list(roots) if isinstance(roots, tuple) else [roots]
     else:
         return cubic_root_sympy(a, b, c, d)
 
-- 
2.43.0


From 6d4f3a959e3f070178ecfdbf7debd09bb7e2863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 030/149] fix: interpolated length of a closed Bezier curve

---
 Patro/GeometryEngine/Bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..8f12fb3 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -85,7 +85,11 @@ class BezierMixin2D(Primitive2DMixin):
         """Length of the curve obtained via line interpolation"""
 
         if dt is None:
-            dt = self.LineInterpolationPrecision / (self.end_point - self.start_point).magnitude
+            # Note: the curve can be closed
+            size = self.bounding_box.diagonal
+            if size == 0:
+                return 0
+            dt = self.LineInterpolationPrecision / size
 
         length = 0
         t = 0
-- 
2.43.0


From 71cfb6d16f7b253cc77be0beb1dc868d79ed538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 031/149] fix: length_at_t and t_at_length of Bezier curves

---
 Patro/GeometryEngine/Bezier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 8f12fb3..df264b9 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -109,14 +109,16 @@ class BezierMixin2D(Primitive2DMixin):
         if cache: # lookup cache
             if not hasattr(self, '_length_cache'):
                 self._length_cache = {}
-            length = self._length_cache.get(t, None)
+            # the control points can change
+            key = (t, *[tuple(point) for point in self.points])
+            length = self._length_cache.get(key, None)
             if length is not None:
                 return length
 
-        length = self.split_at_t(t).length
+        length = self.split_at_t(t)[0].length if t > 0 else 0
 
         if cache: # save
-            self._length_cache[t] = length
+            self._length_cache[key] = length
 
         return length
 
@@ -147,7 +149,7 @@ class BezierMixin2D(Primitive2DMixin):
             middle = (sup + inf) / 2
             length_at_middle = self.length_at_t(middle, cache=True) # Fixme: out of memory, use LRU ???
             # exit condition
-            if abs(length_at_middle - length) <= precision:
+            if abs(length_at_middle - length) <= precision or middle in (inf, sup):
                 return middle
             elif length_at_middle < length:
                 inf = middle
-- 
2.43.0


From 399ef418aaf1fc38ab20820c09c99cb5c964975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 032/149] fix: intersection of a Bezier curve with a line

---
 Patro/GeometryEngine/Bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index df264b9..eb3a7d5 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -61,7 +61,7 @@ from Patro.Common.Math.Root import quadratic_root, cubic_root, fifth_root
 from .Interpolation import interpolate_two_points
 from .Line import Line2D
 from .Primitive import Primitive3P, Primitive4P, PrimitiveNP, Primitive2DMixin
-from .Transformation import AffineTransformation
+from .Transformation import AffineTransformation2D
 from .Vector import Vector2D
 
 ####################################################################################################
@@ -180,9 +180,8 @@ class BezierMixin2D(Primitive2DMixin):
     ##############################################
 
     def _map_to_line(self, line):
-        transformation = AffineTransformation.Rotation(-line.v.orientation)
-        # Fixme: use __vector_cls__
-        transformation *= AffineTransformation.Translation(Vector2D(0, -line.p.y))
+        transformation = AffineTransformation2D.Translation(-line.p)
+        transformation *= AffineTransformation2D.Rotation(-line.v.orientation)
         # Fixme: better API ?
         return self.clone().transform(transformation)
 
-- 
2.43.0


From 5d3db725d987d9b50990156a62baa49b7761f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 033/149] fix: quadratic Bezier tangent, normals, fat line and
 inverse basis, non-parametric curve

---
 Patro/GeometryEngine/Bezier.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index eb3a7d5..fd5a849 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -192,9 +192,9 @@ class BezierMixin2D(Primitive2DMixin):
         the baseline of the fat-line, ti is equally spaced in [0, 1].
 
         """
-        ts = np.arange(0, 1, 1/(self.number_of_points-1))
+        ts = np.linspace(0, 1, self.number_of_points)
         distances = [line.distance_to_line(p) for p in self.points]
-        points = [Vector2D(t, d) for t, f in zip(ts, distances)]
+        points = [Vector2D(t, d) for t, d in zip(ts, distances)]
         return self.__class__(*points)
 
     ##############################################
@@ -219,9 +219,9 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ))
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-1, -3,  1),
-        (-1, -1, -2),
+        (1,   1, 1),
+        (0, 1/2, 1),
+        (0,   0, 1),
     ))
 
     _logger = _module_logger.getChild('QuadraticBezier2D')
@@ -304,13 +304,13 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
     @property
     def normal0(self):
-        return self.tangent0.normal()
+        return self.tangent0.normal
 
     ##############################################
 
     @property
-    def tangent1(self):
-        return self.tangent1.normal()
+    def normal1(self):
+        return self.tangent1.normal
 
     ##############################################
 
@@ -362,7 +362,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
     ##############################################
 
     def fat_line(self):
-        line = Line2D.from_two_points(self._p0, self._p3)
+        line = Line2D.from_two_points(self._p0, self._p2)
         d1 = line.distance_to_line(self._p1)
         d_min = min(0, d1 / 2)
         d_max = max(0, d1 / 2)
-- 
2.43.0


From 9ebdb65f28dacb5e0bc84422d631659125bb7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 034/149] fix: length of a quadratic Bezier curve with aligned
 control points

---
 Patro/GeometryEngine/Bezier.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index fd5a849..75dcc48 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -249,11 +249,16 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
 
         A0 = self._p1 - self._p0
         A1 = self._p0 - self._p1 * 2 + self._p2
-        if A1.magnitude_square != 0:
+        A0_square, A1_square = A0.magnitude_square, A1.magnitude_square
+        if A1_square > 1e-12 * A0_square:
             c = 4 * A1.dot(A1)
             b = 8 * A0.dot(A1)
             a = 4 * A0.dot(A0)
             q = 4 * a * c - b * b
+            if q <= 1e-12 * 4 * a * c:
+                # control points are aligned, the curve makes a u-turn at t0 and the log is singular
+                t0 = - b / (2 * c)
+                return sqrt(A1_square) * (abs(1 - t0) * (1 - t0) + abs(t0) * t0)
             two_cb = 2 * c + b
             sum_cba = c + b + a
             m0 = 0.25 / c
@@ -261,7 +266,8 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             return (m0 * (two_cb * sqrt(sum_cba) - b * sqrt(a)) +
                     m1 * (log(2 * sqrt(c * sum_cba) + two_cb) - log(2 * sqrt(c * a) + b)))
         else:
-            return 2 * A0.magnitude
+            # constant speed
+            return (self._p2 - self._p0).magnitude
 
     ##############################################
 
-- 
2.43.0


From 03f734a70cd58886984cfd22bb52dd17f28b4f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 035/149] fix: length of a cubic Bezier curve which is an
 elevated quadratic

---
 Patro/GeometryEngine/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 75dcc48..178ee57 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -516,7 +516,10 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
 
     def _t_max(self):
         """Return the split point for adaptive quadratic approximation"""
-        return (_Div18Sqrt3 * self.InterpolationPrecision / self._d01())**_OneThird
+        d01 = self._d01()
+        if d01 == 0:
+            return 1 # elevated quadratic curve
+        return (_Div18Sqrt3 * self.InterpolationPrecision / d01)**_OneThird
 
     ##############################################
 
-- 
2.43.0


From c33909f62f91131b31ff87c6779a545db0eee962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 036/149] fix: closest point on a Bezier curve when it is an
 extremity or there are several stationary points

---
 Patro/GeometryEngine/Bezier.py | 39 ++++++++++------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 178ee57..9431ebd 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -199,6 +199,15 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_stationary_point(self, point, roots):
+        """Return the closest point on the curve, *roots* are the stationary points of the distance"""
+        # the closest point can be an extremity
+        ts = [0, 1] + [float(root) for root in roots if 0 < root < 1]
+        points = [self.point_at_t(t) for t in ts]
+        return min(points, key=lambda p: (p - point).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
         p = self.closest_point(point)
         if p is not None:
@@ -394,14 +403,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t)
+        return self._closest_stationary_point(point, roots)
 
     ##############################################
 
@@ -887,23 +889,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_stationary_point(point, roots)
-- 
2.43.0


From 6a7cb992fd7fdac27cb3853da62cb7b0b48f5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 037/149] fix: area delimited by a cubic Bezier curve and its
 chord doesn't depend on the origin

---
 Patro/GeometryEngine/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 9431ebd..42bb74c 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -864,7 +864,8 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
         x3, y3 = list(self._p3)
         return (3 * ((y3 - y0) * (x1 + x2) - (x3 - x0) * (y1 + y2)
                      + y1 * (x0 - x2) - x1 * (y0 - y2)
-                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20)
+                     + y3 * (x2 + x0 / 3) - x3 * (y2 + y0 / 3)) / 20
+                + (x3*y0 - x0*y3) / 2) # close the area with the segment
 
     ##############################################
 
-- 
2.43.0


From 643e9e33cfbe953afc57726ef8a08bd1ac0db6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 038/149] fix: t_at_length rejects a length greater than the
 curve length

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 42bb74c..2f7bc1d 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -133,7 +133,7 @@ class BezierMixin2D(Primitive2DMixin):
         if length == 0:
             return 0
         curve_length = self.length # Fixme: cache ?
-        if (curve_length - length) <= precision:
+        if abs(curve_length - length) <= precision:
             return 1
         if length > curve_length:
             raise ValueError('Out of length')
-- 
2.43.0


From e42c473cd7fc2409ee25db9e07fe4205f9df4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 039/149] fix: uniform quadratic spline basis and evaluation,
 uniform cubic spline to Bezier

---
 Patro/GeometryEngine/Spline.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..f3b5e4d 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -53,12 +53,12 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
         (1, -2,  1),
         (1,  2, -2),
         (0,  0,  1),
-    ))
+    )) / 2
 
     INVERSE_BASIS = np.array((
-        (-2,  1, -2),
-        (-2, -3,  1),
-        (-1, -1, -2),
+        (   1,   1, 1),
+        (-1/2, 1/2, 3/2),
+        (   0,   0, 2),
     ))
 
     #######################################
@@ -83,18 +83,14 @@ class QuadraticUniformSpline2D(Primitive2DMixin, Primitive3P):
     def point_at_t(self, t):
 
         # Q(t) = (
-        #          P0 *  (1-t)**3                      +
-        #          P1 * (  3*t**3 - 6*t**2       + 4 ) +
-        #          P2 * ( -3*t**3 + 3*t**2 + 3*t + 1 ) +
-        #          P3 *      t**3
-        #        ) / 6
-        #
-        #     = P0*(1-t)**3/6 + P1*(3*t**3 - 6*t**2 + 4)/6 + P2*(-3*t**3 + 3*t**2 + 3*t + 1)/6 + P3*t**3/6
+        #          P0 *  (1-t)**2              +
+        #          P1 * ( -2*t**2 + 2*t + 1 )  +
+        #          P2 *      t**2
+        #        ) / 2
 
-        return (self._p0/6 + self._p1*2/3 + self._p2/6 +
-                (-self._p0/2 + self._p2/2)*t +
-                (self._p0/2 - self._p1 + self._p2/2)*t**2 +
-                (-self._p0/6 + self._p1/2 - self._p2/2 + self._p3/6)*t**3)
+        return (self._p0/2 + self._p1/2 +
+                (-self._p0 + self._p1)*t +
+                (self._p0/2 - self._p1 + self._p2/2)*t**2)
 
 ####################################################################################################
 
@@ -136,12 +132,6 @@ class CubicUniformSpline2D(Primitive2DMixin, Primitive4P):
     def to_bezier(self):
         basis = np.dot(self.BASIS, CubicBezier2D.INVERSE_BASIS)
         points = np.dot(self.point_array, basis).transpose()
-        if self._start:
-            # list(self.points)[:2]
-            points[:2] = self._p0, self._p1
-        elif self._stop:
-            # list(self.points)[-2:]
-            points[-2:] = self._p2, self._p3
         return CubicBezier2D(*points)
 
     ##############################################
-- 
2.43.0


From 57031426b325575df8c1ea986f94ec20e9247fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 040/149] fix: naive evaluation of a B-spline

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index f3b5e4d..f7ea652 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -343,7 +343,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         basis = np.array([self.basis_function(i, self._degree, t)
                           for i in range(self.number_of_points)])
         points = self.point_array
-        return self.__vector_cls__(np.dot(basis, points))
+        return self.__vector_cls__(np.dot(points, basis))
 
     ##############################################
 
-- 
2.43.0


From 0a12266b305587ab21c963f9e48a57cf1700d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 041/149] fix: evaluation of a non-uniform B-spline at its end
 knot

---
 Patro/GeometryEngine/Spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index f7ea652..6d231ff 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -262,6 +262,9 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if self._uniform:
             return int(t) + self._degree # start padding
         else:
+            if t == self.end_knot:
+                # the last non-empty span is closed
+                return sum(t_span < t for t_span in self._knots) -1
             for i, t_span in enumerate(self._knots):
                 if t < t_span:
                     return i-1
@@ -357,7 +360,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
                 # else computation fail
                 return self.end_point
 
-        if naive:
+        if naive and t != self.end_knot:
             return self._naive_point_at_t(t)
         else:
             return self._deboor(t)
-- 
2.43.0


From b508fdcdbdd9d76cfbf5e66d745c8a911b6354f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 042/149] fix: clone and reverse of a B-spline

---
 Patro/GeometryEngine/Spline.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 6d231ff..3f19d9a 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -202,6 +202,22 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        knots = None if self._uniform else self._knots
+        return self.__class__(self._points, self._degree, closed=self._closed, knots=knots)
+
+    ##############################################
+
+    def reverse(self):
+        knots = None
+        if not self._uniform:
+            # mirror the knots
+            inf, sup = self._knots[0], self._knots[-1]
+            knots = [inf + sup - t for t in reversed(self._knots)]
+        return self.__class__(list(self.reversed_points), self._degree, closed=self._closed, knots=knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From d5db940f6404bf1b9260ca7befee59359d0f9ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 043/149] fix: conversion of a B-spline of unsupported degree
 to Bezier curves

---
 Patro/GeometryEngine/Spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 3f19d9a..7fe98cf 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -450,10 +450,10 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
         if self._degree == 2:
             cls = Bezier.QuadraticBezier2D
-        elif self._degree >= 3:
+        elif self._degree == 3:
             cls = Bezier.CubicBezier2D
         else:
-            not NotImplementedError
+            raise NotImplementedError
 
         # Fixme: degree > 3
         spline = self.to_bezier_form()
-- 
2.43.0


From 76895a69c00d0ea3ef109a4660b3cedc8914bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 044/149] fix: length of an angular domain passing by 0, angles
 are equal modulo 360

---
 Patro/GeometryEngine/Mixin.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..844095d 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,16 +134,15 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                return 2*pi + length
 
     ##############################################
 
     def is_inside(self, angle):
-        if self.is_counterclockwise:
-            return self._start <= angle <= self._stop
-        else:
-            # Fixme: check !!!
-            return not(self._stop < angle < self._start)
+        if self.is_closed:
+            return True
+        # angles are equals modulo 360
+        return (angle - self._start) % 360 <= (self._stop - self._start) % 360
 
 ####################################################################################################
 
-- 
2.43.0


From 240a229e407b177ef8c0027f3a564c027711af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 045/149] fix: perimeter and eccentricity of a circle

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..c9eb29e 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -168,11 +168,11 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def eccentricity(self):
-        return 1
+        return 0
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
-- 
2.43.0


From 7672d87cf3707e47c8063940320d47c2903ee9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 046/149] fix: intersection of a conic and a segment when it is
 tangent or disjoint

---
 Patro/GeometryEngine/Conic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c9eb29e..ba787be 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -293,7 +293,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         elif discriminant == 0: # tangent line
             x = (  D * dy ) / dr2
             y = (- D * dx ) / dr2
-            return Vector2D(x, y) + self.center
+            return (Vector2D(x, y) + self.center,)
         else: # intersection
             x_a =  D * dy
             y_a = -D * dx
@@ -735,6 +735,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         circle = Circle2D(self.__vector_cls__(0, 0), self._radius_x)
 
         points = circle.intersect_segment(segment_in_frame)
+        if points is None:
+            return None
         points = [self.__vector_cls__(point.x, point.y / y_scale) for point in points]
         points = [self.point_from_ellipse_frame(point) for point in points]
 
-- 
2.43.0


From 77dd454daba888ddf1d2d0c750a59a4865a34ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 047/149] fix: SVG arc center, start angle and scaled radii
 (W3C F.6.5)

---
 Patro/GeometryEngine/Conic.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index ba787be..7b0ee75 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -371,7 +371,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         """
 
         # Ensure radii are non-zero
-        if radius_x == 0 or radius_y == 0:
+        # and points are different
+        if radius_x == 0 or radius_y == 0 or point1 == point2:
             return Segment2D(point1, point2)
 
         # Ensure radii are positive
@@ -392,7 +393,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Ensure radii are large enough
         radii_scale = point1_prime.x**2/radius_x2 + point1_prime.y**2/radius_y2
         if radii_scale > 1:
-            self._logger.warning('SVG Arc: radii must be scale')
+            cls._logger.warning('SVG Arc: radii must be scale')
             radii_scale = math.sqrt(radii_scale)
             radius_x = radii_scale * radius_x
             radius_y = radii_scale * radius_y
@@ -407,24 +408,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         ratio = radius_x/radius_y
 
         sign = 1 if large_arc != sweep else -1
-        # print(point1_prime)
-        # print(point1_prime.anti_normal)
-        # print(ratio)
-        # print(point1_prime.anti_normal.scale(ratio, 1/ratio))
-        sign *= -1 # Fixme: solve mirroring artefacts for y-axis pointing to the top
-        center_prime = sign * math.sqrt(num / den) * point1_prime.anti_normal.scale(ratio, 1/ratio)
+        # Note: num can be slightly negative when the radii are scaled
+        center_prime = sign * math.sqrt(max(num / den, 0)) * point1_prime.anti_normal.scale(ratio, 1/ratio)
 
         center = Transformation2D.Rotation(angle) * center_prime + origin_prime
 
         vector1 =   (point1_prime - center_prime).divide(radius_x, radius_y)
         vector2 = - (point1_prime + center_prime).divide(radius_x, radius_y)
-        theta = cls.__vector_cls__(1, 0).angle_with(vector1)
-        delta_theta = vector1.angle_with(vector2)
-        # if theta < 0:
-        #     theta = 180 + theta
-        # if delta_theta < 0:
-        #     delta_theta = 180 + delta_theta
-        delta_theta = delta_theta % 360
+        theta = vector1.orientation
+        delta_theta = (vector2.orientation - theta) % 360
         # print('theta', theta, delta_theta)
         if not sweep and delta_theta > 0:
             delta_theta -= 360
-- 
2.43.0


From 9e3907d45006dac16d6c6c0bb8c55b8d8c19938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 048/149] fix: intersection of two circles

---
 Patro/GeometryEngine/Conic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7b0ee75..b3074cf 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -314,7 +314,9 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: check domain !!!
 
         v = circle.center - self.center
-        d = sign(v.x) * v.magnitude
+        d = v.magnitude
+        if d == 0: # concentric circles
+            return None
 
         x = (d**2 - circle.radius**2 + self.radius**2) / (2*d)
         y2 = self.radius**2 - x**2
@@ -326,8 +328,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             if y2 == 0:
                 return p
             else:
-                n = v.normal() * sqrt(y2)
-                return p - n, p - n
+                n = v.normal * sqrt(y2)
+                return p - n, p + n
 
     ##############################################
 
-- 
2.43.0


From a9f750e3f651b61e244d8f17d41c12dc3a4a2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 049/149] fix: conversion to Bezier of an ellipse arc which
 sweeps through decreasing angles

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index b3074cf..eb197e1 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -761,8 +761,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         if self._domain is not None:
             # Fixme: is_over_closer
+            # Note: the arc sweeps through decreasing angles if stop < start
             start_angle = self._domain.start
-            angle_span = self._domain.span
+            angle_span = self._domain.stop - start_angle
         else:
             start_angle = 0
             angle_span = 360
-- 
2.43.0


From 7c57d1dbfba28858a0f8f616fec062e6db4c59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 050/149] fix: ellipse vectors, eccentricity and matrix

---
 Patro/GeometryEngine/Conic.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index eb197e1..12ce9be 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -462,7 +462,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def __repr__(self):
-        return '{0}({1._center}, {1._radius_x}, {1._radius_x}, {1._angle})'.format(self.__class__.__name__, self)
+        return '{0}({1._center}, {1._radius_x}, {1._radius_y}, {1._angle})'.format(self.__class__.__name__, self)
 
     ##############################################
 
@@ -493,12 +493,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def major_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle, self._radius_x)
+        return self.__vector_cls__.from_polar(self._radius_x, self._angle)
 
     @property
     def minor_vector(self):
         # Fixme: x < y
-        return self.__vector_cls__.from_polar(self._angle + 90, self._radius_y)
+        return self.__vector_cls__.from_polar(self._radius_y, self._angle + 90)
 
     ##############################################
 
@@ -507,7 +507,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # focal distance
         # c = sqrt(self._radius_x**2 - self._radius_y**2)
         # e = c / a
-        return sqrt(1 - (self._radius_y/self._radius_x)**2)
+        a = max(self._radius_x, self._radius_y)
+        b = min(self._radius_x, self._radius_y)
+        return sqrt(1 - (b/a)**2)
 
     ##############################################
 
@@ -531,9 +533,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         xc2 = xc**2
         yc2 = yc**2
 
-        A = a2*s + b2*c2
+        A = a2*s2 + b2*c2
         B = 2*(b2 - a2)*c*s
-        C = a2*c2 * b2*s2
+        C = a2*c2 + b2*s2
         D = -2*A*xc - B*yc
         E = -B*xc - 2*C*yc
         F = A*xc2 + B*xc*yc + C*yc2 - a2*b2
-- 
2.43.0


From 3ab88e2c2423a327eedc8e4535ae06f18e95dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 051/149] fix: bounding box of a rotated or modified ellipse

---
 Patro/GeometryEngine/Conic.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 12ce9be..e7c7998 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -439,8 +438,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -457,7 +454,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = transformation * self._radius_x
         self._radius_y = transformation * self._radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -569,26 +565,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
-
-        return self._bounding_box
+        # Note: the bounding box can be modified in place by the caller, so it isn't cached
+        angle = radians(self._angle)
+        c, s = cos(angle), sin(angle)
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(math.hypot(self._radius_x * c, self._radius_y * s))
+        bounding_box.y.enlarge(math.hypot(self._radius_x * s, self._radius_y * c))
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From c6ee4dce7e0cf9bfe687acd09017f08016a8283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 052/149] fix: ellipse inside test and distance when radius x <
 radius y

---
 Patro/GeometryEngine/Conic.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e7c7998..36ca478 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -631,6 +631,10 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
+        swap = e0 < e1
+        if swap:
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
 
         if y1 > 0:
             if  y0 > 0:
@@ -666,6 +670,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
+
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
@@ -675,17 +682,14 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         # Fixme: can be transform the problem to a circle using transformation ???
 
         point_in_frame = self.point_in_ellipse_frame(point)
+
+        if is_inside:
+            return (point_in_frame.x / self._radius_x)**2 + (point_in_frame.y / self._radius_y)**2 <= 1
+
         point_in_frame_abs = self.__vector_cls__(abs(point_in_frame.x), abs(point_in_frame.y))
         distance, point_in_ellipse = self._eberly_distance(point_in_frame_abs)
 
-        if is_inside:
-            # Fixme: right ???
-            return (
-                (point_in_frame_abs - self._center).magnitude_square
-                <=
-                (point_in_ellipse - self._center).magnitude_square
-            )
-        elif return_point:
+        if return_point:
             point_in_ellipse = self.__vector_cls__(
                 sign(point_in_frame.x)*(point_in_ellipse.x),
                 sign(point_in_frame.y)*(point_in_ellipse.y),
-- 
2.43.0


From 579a025ff5f905eb5b6f7fc6d9c22fda39de4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 053/149] fix: transformation of the angle and domain of
 conics, clones don't share their domain

---
 Patro/GeometryEngine/Conic.py | 38 +++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 36ca478..9f5607b 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -134,13 +134,23 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        domain = self._domain.__clone__() if self._domain is not None else None
+        return self.__class__(self._center, self._radius, domain)
 
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
+        center = transformation * self._center
         # Fixme: shear -> ellipse
+        if self._domain is not None:
+            start_vector, stop_vector = [transformation * point - center
+                                         for point in (self.start_point, self.stop_point)]
+            x_vector, y_vector = [transformation * (self._center + self.__vector_cls__(x, y)) - center
+                                  for x, y in ((1, 0), (0, 1))]
+            # a reflection swaps the start and the stop
+            start = (stop_vector if x_vector.cross(y_vector) < 0 else start_vector).orientation
+            self._domain = AngularDomain(start, start + self._domain.stop - self._domain.start)
+        self._center = center
         if self._radius is not None:
             self._radius = transformation * self._radius
 
@@ -445,15 +455,31 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._domain.__clone__() if self._domain is not None else None,
         )
 
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
+        center = transformation * self._center
+        # images of the conjugate radii
+        u, v = [transformation * self.point_at_angle(angle) - center for angle in (0, 90)]
+        # The singular values are the radii of the image
+        matrix = np.array(((u.x, v.x), (u.y, v.y)))
+        axes, radii, rotation = np.linalg.svd(matrix)
+        radius_x, radius_y = float(radii[0]), float(radii[1])
+        angle = math.degrees(math.atan2(axes[1,0], axes[0,0]))
+        if self._domain is not None:
+            span = self._domain.stop - self._domain.start
+            if np.linalg.det(matrix) < 0:
+                span = -span
+            offset = (transformation * self.start_point - center).rotate(-angle)
+            start = math.degrees(math.atan2(offset.y / radius_y, offset.x / radius_x))
+            self._domain = AngularDomain(start, start + span)
+        self._center = center
+        self._radius_x = radius_x
+        self._radius_y = radius_y
+        self._angle = angle
 
     ##############################################
 
-- 
2.43.0


From 33f7f78831e79d24f513c95f1678adac2dbce0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 054/149] fix: distance to an ellipse from a point close to an
 axis

---
 Patro/GeometryEngine/Conic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 9f5607b..8610b7c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -611,21 +611,22 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     def _distance_point_bisection(self, r0,  z0,  z1,  g):
 
+        # Note: we search for s + 1, since s is close to -1 and so s + 1 is inaccurate for a point near the major axis
         n0 = r0 * z0
-        s0 = z1 - 1
+        s0 = z1
         if g < 0:
-            s1 = 0
+            s1 = 1
         else:
-            s1 = self._robust_length(n0 , z1) - 1
+            s1 = self._robust_length(n0 , z1)
 
-        s = 0
+        s = 1
         MAX_ITERATION = 1074 # for double
         for i in range(MAX_ITERATION):
             s = (s0 + s1) / 2
             if s == s0 or s == s1:
                 break
-            ratio0 = n0 / (s + r0)
-            ratio1 = z1 / (s + 1)
+            ratio0 = n0 / (s + (r0 - 1))
+            ratio1 = z1 / s
             g = ratio0**2 + ratio1**2 -1
             if g > 0:
                 s0 = s
@@ -670,8 +671,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 if g != 0:
                     r0 = (e0 / e1)**2
                     sbar = self._distance_point_bisection(r0, z0, z1, g)
-                    x0 = r0 * y0 / (sbar + r0)
-                    x1 = y1 / (sbar + 1)
+                    x0 = r0 * y0 / (sbar + (r0 - 1))
+                    x1 = y1 / sbar
                     distance = math.sqrt((x0 - y0)**2 + (x1 - y1)**2)
                 else:
                     x0 = y0
-- 
2.43.0


From 528dee39d28b980f0fa08821e46200045c280182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 055/149] fix: clone of a path with linear or cubic parts, or
 closed

---
 Patro/GeometryEngine/Path.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..859bddc 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -419,14 +419,14 @@ class PathSegment(OnePointMixin, LinearSegment):
 
     def clone(self, path):
 
-        # Fixme: check
-        if obj._start_bulge:
+        # The start bulge requires the closing part, which is not yet cloned
+        if self._start_bulge:
             radius = None
         else:
             radius = self._radius
         obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
+        if self._start_bulge:
+            obj.close(self._radius)
 
         return obj
 
@@ -456,6 +456,19 @@ class DirectionalSegmentMixin(LinearSegment):
 
     ##############################################
 
+    def _clone(self, path, value):
+
+        # The start bulge requires the closing part, which is not yet cloned
+        if self._start_bulge:
+            obj = self.__class__(path, self._index, value)
+            obj.close(self._radius)
+        else:
+            obj = self.__class__(path, self._index, value, self._radius)
+
+        return obj
+
+    ##############################################
+
     def apply_transformation(self, transformation):
         # Since a rotation will change the direction
         # DirectionalSegment must be casted to PathSegment
@@ -511,7 +524,7 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        return self._clone(path, self._x)
 
     ##############################################
 
@@ -549,7 +562,7 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        return self._clone(path, self._y)
 
     ##############################################
 
@@ -587,7 +600,7 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        return self._clone(path, self._length)
 
     ##############################################
 
@@ -724,7 +737,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -899,6 +912,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From ab5b023796c336de726198b6dab58efbd97e1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 056/149] fix: null radius and absolute horizontal, vertical
 path segments

---
 Patro/GeometryEngine/Path.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 859bddc..cda61a0 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -310,7 +310,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
@@ -1017,8 +1017,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1026,8 +1025,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From af66661a8a7532506013f50df7f2f581444672f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 057/149] fix: stale path bulges, bulges ignored by directional
 segments

---
 Patro/GeometryEngine/Path.py | 71 +++++++++++-------------------------
 1 file changed, 22 insertions(+), 49 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index cda61a0..0f829be 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -236,32 +236,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -317,33 +303,28 @@ class LinearSegment(PathPart):
 
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        # Note: it depends of the previous parts, which can be modified, thus it isn't cached
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # return (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -357,30 +338,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -479,7 +454,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
@@ -973,8 +948,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From cb41b71749f706b5994bce623bc69de0fc56bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 058/149] fix: bounding box of a path with bulges

---
 Patro/GeometryEngine/Path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 0f829be..57817e5 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -979,6 +979,12 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
+            if isinstance(item, LinearSegment) and item.radius is not None:
+                # a bulge can go beyond the segments
+                arc = item.bulge_geometry
+                for angle in (0, 90, 180, 270):
+                    if arc.domain.is_inside(angle):
+                        bounding_box |= arc.point_at_angle(angle).bounding_box
         return bounding_box
 
     ##############################################
-- 
2.43.0


From 3b7098bf8815f437a4cc795926719daffdd11dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 059/149] fix: stringed Bezier path parts

---
 Patro/GeometryEngine/Path.py | 107 +++++++++++++++++++++++++++++------
 1 file changed, 90 insertions(+), 17 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 57817e5..1ddad26 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -741,57 +741,130 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
 
 ####################################################################################################
 
-class StringedQuadtraticBezierSegment(PathPart, TwoPointMixin):
+class StringedQuadtraticBezierSegment(OnePointMixin, PathPart):
+
+    """Class to implement a quadratic Bézier part which continues the previous one, *point* is the stop
+    point and the control point is the reflection of the previous control point.
+
+    """
 
     ##############################################
 
-    def __init__(self, path, index, point1, absolute=False):
+    def __init__(self, path, index, point, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        self.point1 = point1
+        self.point = point
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, absolute)
+        return self.__class__(path, self._index, self._point, self._absolute)
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point = self.stop_point
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def point1(self):
+        prev_part = self.prev_part
+        start_point = self.start_point
+        if isinstance(prev_part, (QuadraticBezierSegment, StringedQuadtraticBezierSegment)):
+            return start_point * 2 - prev_part.point1
+        else:
+            return start_point
+
+    @property
+    def point2(self):
+        return self.stop_point
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.point2)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return QuadraticBezier2D(*self.points)
 
 ####################################################################################################
 
-class StringedCubicBezierSegment(PathPart, TwoPointMixin):
+class StringedCubicBezierSegment(PathPart):
+
+    """Class to implement a cubic Bézier part which continues the previous one, *point2* is the second
+    control point, *point3* is the stop point and the first control point is the reflection of the
+    previous second control point.
+
+    """
 
     ##############################################
 
-    def __init__(self, path, index, point1, point2, absolute=False):
+    def __init__(self, path, index, point2, point3, absolute=False):
 
         PathPart.__init__(self, path, index)
         self._init_absolute(absolute)
 
-        # self.point1 = point1
+        self._point2 = Vector2D(point2)
+        self._point3 = Vector2D(point3)
 
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, absolute)
+        return self.__class__(path, self._index, self._point2, self._point3, self._absolute)
+
+    ##############################################
+
+    def apply_transformation(self, transformation):
+        self._point2 = transformation * self._point2
+        self._point3 = transformation * self._point3
+
+    ##############################################
+
+    def to_absolute(self):
+        self._point2 = self.point2
+        self._point3 = self.point3
+        self._absolute = True
+
+    ##############################################
+
+    @property
+    def point1(self):
+        prev_part = self.prev_part
+        start_point = self.start_point
+        if isinstance(prev_part, (CubicBezierSegment, StringedCubicBezierSegment)):
+            return start_point * 2 - prev_part.point2
+        else:
+            return start_point
+
+    @property
+    def point2(self):
+        return self.to_absolute_point(self._point2)
+
+    @property
+    def point3(self):
+        return self.to_absolute_point(self._point3)
+
+    @property
+    def stop_point(self):
+        return self.point3
+
+    @property
+    def points(self):
+        return (self.start_point, self.point1, self.point2, self.point3)
 
     ##############################################
 
     @property
     def geometry(self):
         # Fixme: cache ???
-        # Fixme: !!!
-        return Segment2D(self.start_point, self._point2)
-        # return CubicBezier2D(self.start_point, self._point1, self._point2, self._point3)
+        return CubicBezier2D(*self.points)
 
 ####################################################################################################
 
@@ -1074,12 +1147,12 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     ##############################################
 
     def stringed_quadratic_to(self, point, absolute=False):
-        return self._add_part(StringedQuadraticBezierSegment, point, absolute=absolute)
+        return self._add_part(StringedQuadtraticBezierSegment, point, absolute=absolute)
 
     ##############################################
 
-    def stringed_cubic_to(self, point1, point2, absolute=False):
-        return self._add_part(StringedCubicBezierSegment, point1, point2, absolute=absolute)
+    def stringed_cubic_to(self, point2, point3, absolute=False):
+        return self._add_part(StringedCubicBezierSegment, point2, point3, absolute=absolute)
 
     ##############################################
 
-- 
2.43.0


From 3f6702be53d3d670cc58c708c03509d3a0f8caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 060/149] fix: transformation of an arc path part

---
 Patro/GeometryEngine/Path.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1ddad26..9bf8d96 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -912,6 +912,23 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    def apply_transformation(self, transformation):
+
+        OnePointMixin.apply_transformation(self, transformation)
+
+        if self._radius_x and self._radius_y:
+            ellipse = Ellipse2D(Vector2D(0, 0), self._radius_x, self._radius_y, self._angle)
+            ellipse.apply_transformation(transformation)
+            self._radius_x = ellipse.radius_x
+            self._radius_y = ellipse.radius_y
+            self._angle = ellipse.angle
+            # a parity reverses the sweep
+            origin, x, y = [transformation * Vector2D(*point) for point in ((0, 0), (1, 0), (0, 1))]
+            if (x - origin).cross(y - origin) < 0:
+                self._sweep = not self._sweep
+
+    ##############################################
+
     @property
     def points(self):
         return self.start_point, self.stop_point
-- 
2.43.0


From 812b64ea4d488603bbb43b7b49981438d748a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 061/149] fix: arrow head with an axial offset or without side

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 56b2783..0c875f9 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -98,8 +98,8 @@ class TriangularHeadMixin(ArrowHead):
         self._right_side = bool(right_side)
 
         # Fixme: check length width ???
-        if not(self._left_side and self._right_side):
-            return ValueError('Any side')
+        if not(self._left_side or self._right_side):
+            raise ValueError('Any side')
 
         self._back_tip_point = None
 
@@ -160,7 +160,7 @@ class TriangularHeadMixin(ArrowHead):
 
     @property
     def offseted_back_tip_point(self):
-        return self.back_tip_point - self._direction * self._self._axial_offset
+        return self.back_tip_point - self._direction * self._axial_offset
 
     @property
     def left_point(self):
-- 
2.43.0


From e6658045b85a34b607d9b6ef7368db1debfb4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 062/149] fix: ancestors of a DAG node, topological sort of a
 deep DAG

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 32 ++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..fb14d11 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -58,8 +58,8 @@ class DirectedAcyclicGraphNode:
         return self._data
 
     @property
-    def ancestor(self):
-        return self._ancestor
+    def ancestors(self):
+        return self._ancestors
 
     @property
     def descendants(self):
@@ -162,15 +162,25 @@ class DirectedAcyclicGraph:
         temporary_marked_nodes = set()
 
         def visit(node):
-            if node in temporary_marked_nodes:
-                raise NameError('Not a DAG')
-            if node not in marked_nodes:
-                temporary_marked_nodes.add(node)
-                for descendant in node._descendants:
-                    visit(descendant)
-                marked_nodes.add(node)
-                temporary_marked_nodes.remove(node)
-                sorted_list.append(node)
+            # Note: the depth of the graph can exceed the recursion limit
+            if node in marked_nodes:
+                return
+            temporary_marked_nodes.add(node)
+            stack = [(node, iter(node._descendants))]
+            while stack:
+                node, descendants = stack[-1]
+                for descendant in descendants:
+                    if descendant in temporary_marked_nodes:
+                        raise NameError('Not a DAG')
+                    if descendant not in marked_nodes:
+                        temporary_marked_nodes.add(descendant)
+                        stack.append((descendant, iter(descendant._descendants)))
+                        break
+                else:
+                    stack.pop()
+                    marked_nodes.add(node)
+                    temporary_marked_nodes.remove(node)
+                    sorted_list.append(node)
 
         while unmarked_nodes:
             node = unmarked_nodes.pop()
-- 
2.43.0


From ef566dd9635170becd955565f0bae790fcafd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 063/149] fix: atomic counter returned the value of another
 increment

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From e8a6ee20e869bf927ae78de6d7ce6597b1a83091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 064/149] fix: instantiation of a monostate with arguments

---
 Patro/Common/Singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Singleton.py b/Patro/Common/Singleton.py
index 9fa4ef1..c7cc10a 100644
--- a/Patro/Common/Singleton.py
+++ b/Patro/Common/Singleton.py
@@ -111,6 +111,6 @@ class monostate:
 
     def __new__(cls, *args, **kwargs):
         # print('monostate __new__:', cls, args, kwargs, sep='\n... ')
-        obj = super(monostate, cls).__new__(cls, *args, **kwargs)
+        obj = super(monostate, cls).__new__(cls)
         obj.__dict__ = cls._shared_state
         return obj
-- 
2.43.0


From 69de266db9e421e19c630b939d7d43ed46baf5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 065/149] fix: closed_iterator and pairwise of an empty list

---
 Patro/Common/IterTools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/Common/IterTools.py b/Patro/Common/IterTools.py
index 0992f6b..88954a8 100644
--- a/Patro/Common/IterTools.py
+++ b/Patro/Common/IterTools.py
@@ -43,6 +43,8 @@ def closed_iterator(iterable):
     """
 
     number_of_items = len(iterable)
+    if not number_of_items:
+        return
     for i in range(number_of_items +1):
         yield iterable[i%number_of_items]
 
@@ -56,10 +58,8 @@ def pairwise(iterable):
 
     """
 
-    prev = iterable[0]
-    for x in iterable[1:]:
-        yield prev, x
-        prev = x
+    for i in range(len(iterable) -1):
+        yield iterable[i], iterable[i+1]
 
 ####################################################################################################
 
-- 
2.43.0


From a6528e58398b67c8a392e4c1612f6ff8b1e7d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 066/149] fix: find a file in a single directory

---
 Patro/Common/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Path.py b/Patro/Common/Path.py
index 0ddcf5b..e3fd99a 100644
--- a/Patro/Common/Path.py
+++ b/Patro/Common/Path.py
@@ -39,7 +39,7 @@ def parent_directory_of(file_name, step=1):
 ####################################################################################################
 
 def find(file_name, directories):
-    if isinstance(directories, bytes):
+    if isinstance(directories, (str, bytes)):
         directories = (directories,)
     for directory in directories:
         for directory_path, sub_directories, file_names in os.walk(directory):
-- 
2.43.0


From 3d65b01dce98819e4988ff8a780219141864bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 067/149] fix: XML adaptor initialisation from Python values
 and defaults

---
 Patro/Common/Xml/Objectivity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..ee0dfac 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
@@ -258,7 +260,7 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
 
         if args:
             self._init_from_xml(args[0])
-        elif kwargs:
+        else:
             self._init_from_kwargs(kwargs)
 
     ##############################################
@@ -288,7 +290,9 @@ class XmlObjectAdaptator(metaclass=XmlObjectAdaptatorMetaClass):
             # Fixme: duplicated code
             if py_attribute in kwargs:
                 # Fixme: see VitFormat.py StrokeStyleAttribute !!!
-                value = attribute.from_xml(kwargs[py_attribute])
+                value = kwargs[py_attribute]
+                if value is not None:
+                    value = attribute.from_xml(value)
             else:
                 value = attribute.default
             attribute.set_attribute(self, value)
-- 
2.43.0


From 08d3ed7db5c653d1554cb0667d2b76856d0bdb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 068/149] fix: separators of a float list in XML

---
 Patro/Common/Xml/Objectivity.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index ee0dfac..41c3c2e 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -181,13 +181,8 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            # separators are white spaces and commas
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From 90ddd71671be4a54948b1e9f1a08feb8a6fbf3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 069/149] fix: text of an XML element was lost

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 41c3c2e..7135bfd 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -351,14 +351,15 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
     def __init__(self, *args, **kwargs):
 
         super().__init__(*args, **kwargs)
-        self.text = kwargs.get('text', '')
+        if not args:
+            self.text = kwargs.get('text', '')
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        self.text = str(xml_element.text or '')
 
     ##############################################
 
-- 
2.43.0


From cfe7b542bbeaf2ce70432ef0e2395e044ca7c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:17 +0000
Subject: [PATCH 070/149] fix: representation of a path

---
 Patro/GeometryEngine/Path.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 9bf8d96..aff4aa3 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -983,6 +983,12 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        # path is not defined by a list of points
+        return '{0}({1._p0}, {1._parts})'.format(self.__class__.__name__, self)
+
+    ##############################################
+
     def __len__(self):
         return len(self._parts)
 
-- 
2.43.0


From f81e0cbb4239f8f20a2f3a97ac221c7b750ccb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 071/149] fix: SVG transform: list of transforms, skew, matrix
 output

---
 Patro/FileFormat/Svg/SvgFormat.py | 51 ++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..fb8e735 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,8 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import math
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -434,6 +436,17 @@ class TransformAttribute(StringAttribute):
         'translate'
     )
 
+    TRANSFORM_REGEX = re.compile(r'({})\s*\(([^()]*)\)[\s,]*'.format('|'.join(TRANSFORM)))
+
+    NUMBER_OF_VALUES = {
+        'matrix': (6,),
+        'rotate': (1, 3),
+        'scale': (1, 2),
+        'skewX': (1,),
+        'skewY': (1,),
+        'translate': (1, 2),
+    }
+
     ##############################################
 
     @classmethod
@@ -444,15 +457,19 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
+            position = 0
+            # transforms are separated by white spaces and commas, as well as their values
+            value = value.strip(' \t\r\n,')
+            while position < len(value):
+                match = cls.TRANSFORM_REGEX.match(value, position)
+                if match is None:
+                    raise ValueError("Invalid transform '{}'".format(value))
+                transform_type, values = match.groups()
+                values = [float(x) for x in values.replace(',', ' ').split()]
+                if len(values) not in cls.NUMBER_OF_VALUES[transform_type]:
+                    raise ValueError("Invalid number of values in transform '{}'".format(value))
                 transforms.append((transform_type, values))
-                # Fixme:
+                position = match.end()
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -461,9 +478,12 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
         # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        # | a c e |
+        # | b d f |  -> matrix(a b c d e f)
+        # | 0 0 1 |
+        values = value.to_list()
+        return 'matrix({})'.format(' '.join([str(values[i]) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
@@ -490,15 +510,16 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(vector)
                 transform = AffineTransformation2D.RotationAt(vector, angle)
             elif name == 'skewX':
-                angle = values[0]
-                raise NotImplementedError
+                angle = math.radians(values[0])
+                transform = AffineTransformation2D([1, math.tan(angle), 0, 0, 1, 0, 0, 0, 1])
             elif name == 'skewY':
-                angle = values[0]
-                raise NotImplementedError
+                angle = math.radians(values[0])
+                transform = AffineTransformation2D([1, 0, 0, math.tan(angle), 1, 0, 0, 0, 1])
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # transforms are applied from right to left
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From bd15daa5f6f048c0541363580bc22a86a0a58b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 072/149] fix: SVG length with unit or percent

---
 Patro/FileFormat/Svg/SvgFormat.py | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index fb8e735..ceb6623 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -230,6 +230,7 @@ class InheritAttribute(StringAttribute):
 ####################################################################################################
 
 class NumberAttribute(InheritAttribute):
+
     @classmethod
     def _from_xml(cls, value):
         return float(value)
@@ -248,6 +249,11 @@ class PercentValue:
     def __float__(self):
         return self._value
 
+    ##############################################
+
+    def __str__(self):
+        return '{:.12g}%'.format(self._value * 100)
+
 ####################################################################################################
 
 class UnitValue:
@@ -260,13 +266,19 @@ class UnitValue:
 
     ##############################################
 
+    @property
+    def unit(self):
+        return self._unit
+
+    ##############################################
+
     def __float__(self):
         return self._value
 
     ##############################################
 
     def __str__(self):
-        return self._unit
+        return '{}{}'.format(self._value, self._unit)
 
 ####################################################################################################
 
@@ -277,26 +289,16 @@ class PercentLengthAttribute(InheritAttribute):
     @classmethod
     def _from_xml(cls, value):
         # length ::= number ("em" | "ex" | "px" | "in" | "cm" | "mm" | "pt" | "pc" | "%")?
+        if isinstance(value, (int, float, PercentValue, UnitValue)): # Python value
+            return value
+        value = value.strip()
         if value.endswith('%'):
             return PercentValue(value[:-1])
-        elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+        elif value[-2:].isalpha():
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
-    ##############################################
-
-    @classmethod
-    def _to_xml(cls, value):
-
-        # Fixme: ok ???
-        if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
-        elif isinstance(value, UnitValue):
-            return '{}{}'.format(float(value), value.unit)
-        else:
-            return str(value)
-
 ####################################################################################################
 
 class ColorMixin:
-- 
2.43.0


From d7318a12e9ec69d3f306c434487cce4a6852994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 073/149] fix: SVG polygon tag, id and transform of a SVG
 ellipse

---
 Patro/FileFormat/Svg/SvgFormat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index ceb6623..f6d87db 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -761,7 +761,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
@@ -1144,7 +1144,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From ca2280d74d6f16fdd24ee1a87c392d338e7bb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:44 +0000
Subject: [PATCH 074/149] fix: parsing of SVG path data, smooth Bezier
 commands, path output

---
 Patro/FileFormat/Svg/SvgFormat.py | 107 +++++++++++++++++++++---------
 Patro/GeometryEngine/Path.py      |  22 ++++++
 2 files changed, 98 insertions(+), 31 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index f6d87db..3ddccb5 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -80,7 +80,7 @@ from Patro.Common.Xml.Objectivity import (
 )
 
 # Fixme: should we mix SVG format and ... ???
-from Patro.GeometryEngine.Path import Path2D
+from Patro.GeometryEngine.Path import ArcSegment, LinearSegment, Path2D
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 
@@ -967,13 +967,17 @@ class PathDataAttribute(StringAttribute):
         'c':6,
         's':4,
         'q':4,
-        't':3,
+        't':2,
         'a':7,
         'z':0,
         }
 
     COMMANDS = ''.join(NUMBER_OF_ARGS.keys())
 
+    NUMBER_REGEX = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?')
+    FLAG_REGEX = re.compile(r'[01]')
+    SEPARATOR_REGEX = re.compile(r'[\s,]*')
+
     _logger = _module_logger.getChild('PathDataAttribute')
 
     ##############################################
@@ -981,41 +985,39 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def from_xml(cls, svg_path):
 
+        if not isinstance(svg_path, str): # Python value
+            return svg_path
+
         # cls._logger.info('SVG path:\n'+ svg_path)
 
-        # Replace comma separator by space
-        cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
-        parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
-                part = float(part)
-            parts.append(part)
+        def skip_separator(position):
+            return cls.SEPARATOR_REGEX.match(svg_path, position).end()
 
         commands = []
         command = None # last command
-        number_of_args = None
-        i = 0
-        while i < len(parts):
-            part = parts[i]
-            if isinstance(part, str):
-                command = part
-                command_lower = command.lower()
-                if command_lower not in cls.COMMANDS:
+        position = skip_separator(0)
+        while position < len(svg_path):
+            letter = svg_path[position]
+            if letter.isalpha():
+                command = letter
+                if command.lower() not in cls.COMMANDS:
                     raise ValueError("Invalid path instruction: '{}' in\n{}".format(command, svg_path))
-                number_of_args = cls.NUMBER_OF_ARGS[command_lower]
-                i += 1 # move to first arg
+                position = skip_separator(position +1) # move to first arg
+            elif command is None or command in 'zZ':
+                raise ValueError("Missing path instruction in\n{}".format(svg_path))
             # else repeated instruction
-            next_i = i + number_of_args
-            args = parts[i:next_i]
+            command_lower = command.lower()
+            args = []
+            for i in range(cls.NUMBER_OF_ARGS[command_lower]):
+                # arc flags can be concatenated
+                is_flag = command_lower == 'a' and i in (3, 4)
+                regex = cls.FLAG_REGEX if is_flag else cls.NUMBER_REGEX
+                match = regex.match(svg_path, position)
+                if match is None:
+                    raise ValueError("Invalid path arguments for '{}' in\n{}".format(command, svg_path))
+                args.append(float(match.group()))
+                position = skip_separator(match.end())
             commands.append((command, args))
-            i = next_i
             # for implicit line to
             if command == 'm':
                 command = 'l'
@@ -1031,6 +1033,9 @@ class PathDataAttribute(StringAttribute):
     @classmethod
     def to_xml(cls, value):
 
+        if isinstance(value, Path2D):
+            value = cls.from_geometry(value)
+
         path_data = ''
         for command in value:
             if path_data:
@@ -1051,6 +1056,46 @@ class PathDataAttribute(StringAttribute):
 
     ##############################################
 
+    @classmethod
+    def from_geometry(cls, path):
+
+        """Convert a path to a list of absolute commands"""
+
+        def bulge_command(part, point):
+            sweep = part.prev_part.direction.cross(part.direction) > 0
+            return ('A', [part.radius, part.radius, 0, 0, int(sweep), point.x, point.y])
+
+        commands = [('M', list(path.p0))]
+        for part in path:
+            if isinstance(part, LinearSegment):
+                start_point, stop_point = part.points
+                if part.radius is not None:
+                    if part.index == 0:
+                        # path is closed by a bulge
+                        commands = [('M', list(start_point))]
+                    else:
+                        commands.append(bulge_command(part, start_point))
+                commands.append(('L', list(stop_point)))
+            elif isinstance(part, ArcSegment):
+                commands.append(('A', [part.radius_x, part.radius_y, part.angle,
+                                       int(part.large_arc), int(part.sweep), *part.stop_point]))
+            else:
+                points = [x for point in list(part.points)[1:] for x in point]
+                commands.append(('Q' if len(points) == 4 else 'C', points))
+
+        if path.is_closed:
+            start_part = path.start_segment
+            if isinstance(start_part, LinearSegment) and start_part.radius is not None:
+                commands.append(bulge_command(start_part, start_part.points[0]))
+            else:
+                # Z draw the last segment
+                commands.pop()
+            commands.append(('Z', []))
+
+        return commands
+
+    ##############################################
+
     @classmethod
     def to_geometry(cls, commands):
 
@@ -1080,11 +1125,11 @@ class PathDataAttribute(StringAttribute):
                 elif command_lower == 'c':
                     path.cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 's':
-                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'q':
                     path.quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 't':
-                    path.stringed_cubic_to(*cls.as_vector(args), absolute=absolute)
+                    path.stringed_quadratic_to(*cls.as_vector(args), absolute=absolute)
                 elif command_lower == 'a':
                     radius_x, radius_y, angle, large_arc, sweep, x, y = args
                     point = Vector2D(x, y)
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index aff4aa3..4ef1038 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -900,6 +900,28 @@ class ArcSegment(OnePointMixin, PathPart):
 
     ##############################################
 
+    @property
+    def radius_x(self):
+        return self._radius_x
+
+    @property
+    def radius_y(self):
+        return self._radius_y
+
+    @property
+    def angle(self):
+        return self._angle
+
+    @property
+    def large_arc(self):
+        return self._large_arc
+
+    @property
+    def sweep(self):
+        return self._sweep
+
+    ##############################################
+
     def __repr__(self):
         template = '{0}(@{1._index} {1._point} rx={1._radius_x} ry={1._radius_y} a={1._angle} la={1._large_arc} s={1._sweep})'
         return template.format(self.__class__.__name__, self)
-- 
2.43.0


From bfac47b595db9d739f5b1a2c20231cc138b47839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 075/149] fix: inheritance of SVG presentation attributes,
 style parsing

---
 Patro/FileFormat/Svg/SvgFile.py | 51 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..083ed03 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -55,6 +55,13 @@ class RenderState:
     STATES = [name for name in SvgFormat.PresentationAttributes.__dict__.keys()
               if not name.startswith('_')]
 
+    # Some attributes have another name in SvgFormat
+    ITEM_ATTRIBUTES = {
+        'stroke_linecap': 'stroke_line_cap',
+        'stroke_linejoin': 'stroke_line_join',
+        'stroke_miterlimit': 'stroke_miter_limit',
+    }
+
     ##############################################
 
     @classmethod
@@ -66,14 +73,11 @@ class RenderState:
             if value == 'none':
                 return None
             else:
-                try:
-                    float_value = float(value)
-                    if '.' in value:
-                        return float_value
-                    else:
-                        return int(float_value)
-                except ValueError:
-                    pass
+                for numeric_type in (int, float):
+                    try:
+                        return numeric_type(value)
+                    except ValueError:
+                        pass
 
         return value
 
@@ -113,26 +117,31 @@ class RenderState:
     def merge(self, item):
 
         for state in self.STATES:
-            if hasattr(item, state):
-                value = getattr(item, state)
-                if state == 'transform':
-                    if value is not None:
-                        # Transform matrix is composed from top to item
-                        # thus left to right
-                        self.transform = self.transform * value
-                elif state == 'style':
-                    pass
-                else:
-                    setattr(self, state, self.to_python(value))
+            value = getattr(item, state, None)
+            if value is None:
+                value = getattr(item, self.ITEM_ATTRIBUTES.get(state, state), None)
+            # an undefined attribute is inherited
+            if value is None or isinstance(value, str) and value == 'inherit':
+                continue
+            if state == 'transform':
+                # Transform matrix is composed from top to item
+                # thus left to right
+                self.transform = self.transform * value
+            elif state == 'style':
+                pass
+            else:
+                setattr(self, state, self.to_python(value))
 
         # Merge style
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                state, separator, value = [x.strip() for x in pair.partition(':')]
+                if not separator or value == 'inherit':
+                    continue
                 state = state.replace('-', '_')
                 if state == 'transform':
-                    self.transform = self.transform * value
+                    self.transform = self.transform * SvgFormat.TransformAttribute.from_xml(value)
                 else:
                     setattr(self, state, self.to_python(value))
 
-- 
2.43.0


From 43705093414292971c433a416d7b2e896f869610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 076/149] fix: SVG group state, comments and view box

---
 Patro/FileFormat/Svg/SvgFile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 083ed03..35741eb 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -252,6 +252,8 @@ class SvgDispatcher:
 
     def element_tag(self, element):
         tag = element.tag
+        if not isinstance(tag, str): # comment, processing instruction
+            return None
         if '{' in tag:
             tag = tag[tag.find('}')+1:]
         return tag
@@ -292,6 +294,8 @@ class SvgDispatcher:
 
         self.on_root(element)
 
+        self._state_stack.pop()
+
     ##############################################
 
     def on_graphic_item(self, element):
@@ -366,8 +370,11 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        if svg_root.view_box is not None:
+            x_inf, y_inf, width, height = svg_root.view_box
+            self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
+        else:
+            self._view_box = None
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From fb8f29c2a4dd9df3e34fcf50799be64fc84db86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 077/149] fix: SVG rectangle default position and radius

---
 Patro/FileFormat/Svg/SvgFormat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 3ddccb5..0e9592e 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1234,12 +1234,17 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
-        if radius_y == 0:
+        # a missing radius is equal to the other one
+        if radius_y is None:
+            radius_y = radius_x
+        if radius_x is None:
+            radius_x = radius_y
+        if not radius_x or not radius_y:
             radius = None
         else:
-            radius = radius_y
+            radius = min(radius_y, width / 2, height / 2)
 
-        point = Vector2D(self.x, self.y)
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 6803e83da85c74894e1bb57d6b671a69fb51423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:01 +0000
Subject: [PATCH 078/149] fix: imports, annotations and a syntax error which
 prevent to import the graphic scene

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 12 ++++++------
 Patro/GraphicEngine/GraphicScene/Scene.py            |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..d7bdf35 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
@@ -59,7 +59,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', user_data: Any) -> None:
         self._scene = scene
         self._user_data = user_data
 
@@ -75,7 +75,7 @@ class GraphicItem:
     ##############################################
 
     @property
-    def scene(self) -> GraphicScene:
+    def scene(self) -> 'GraphicScene':
         return self._scene
 
     @property
@@ -84,7 +84,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __hash__(self) -> str:
+    def __hash__(self) -> int:
         return hash(self._user_data)
 
     ##############################################
@@ -177,7 +177,7 @@ class PathStyleItemMixin(GraphicItem):
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, path_style: GraphicPathStyle, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', path_style: GraphicPathStyle, user_data: Any) -> None:
         GraphicItem.__init__(self, scene, user_data)
         self._path_style = path_style
 
@@ -270,7 +270,7 @@ class ThreePositionMixin(TwoPositionMixin):
         return self._position3
 
     @property
-    def positions(self) -> list(Vector2D, Vector2D, Vector2D):
+    def positions(self) -> list[Vector2D]:
         return (self._position1, self._position2, self._position3)
 
 ####################################################################################################
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From 47138da5a87d6a5ce2088f5c8e25e222553726bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 079/149] fix: scene items, dirty state, removal and query

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py      |  6 ++----
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 11 ++++-------
 Patro/GraphicEngine/GraphicScene/Scene.py            | 10 ++++------
 3 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..55001b7 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -391,10 +391,8 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        # Note: the geometry is recomputed when the item is dirty
+        return list(self.geometry.to_cubic().points)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index d7bdf35..f9febb9 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -134,10 +134,8 @@ class GraphicItem:
 
     @dirty.setter
     def dirty(self, value: bool) -> None:
-        if bool(value):
-            self._dirty = True
-        else:
-            self._dirty = True
+        self._dirty = bool(value)
+        if self._dirty:
             self._geometry = None
             self._bounding_box = None
 
@@ -153,7 +151,6 @@ class GraphicItem:
     def geometry(self) -> None:
         if self._geometry is None:
             self._geometry = self.get_geometry()
-            self._dirty = False
         return self._geometry
 
     ##############################################
@@ -212,8 +209,8 @@ class PositionMixin:
     #     self._position = value
 
     @property
-    def positions(self) -> str | Vector2D:
-        return self._position
+    def positions(self) -> tuple[str | Vector2D]:
+        return (self._position,)
 
     @property
     def casted_position(self) -> Vector2D:
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..afe3be2 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
@@ -236,6 +236,7 @@ class GraphicSceneScope:
             # print(item, bounding_box)
             self._rtree.insert(item_id, bounding_box)
             self._item_bounding_box_cache[item_id] = bounding_box
+            item.dirty = False
             # except AttributeError:
             #     print('bounding_box not implemented for', item)
             #     pass # Fixme:
@@ -246,10 +247,7 @@ class GraphicSceneScope:
         # Fixme: Interval2D ok ?
         # print('item_in_bounding_box', bounding_box)
         item_ids = self._rtree.intersection(bounding_box)
-        if item_ids:
-            return [self._items[item_id] for item_id in item_ids]
-        else:
-            return None
+        return [self._items[item_id] for item_id in item_ids]
 
     ##############################################
 
-- 
2.43.0


From 273f7dd10771e4c8ddedcb9687d824e6297b15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:54 +0000
Subject: [PATCH 080/149] fix: conic arcs, paths, splines and Bezier chains
 added to a scene

---
 .../GraphicEngine/GraphicScene/GraphicItem.py |  3 +-
 Patro/GraphicEngine/GraphicScene/Scene.py     | 28 +++++++++++++------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 55001b7..b60c463 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -200,7 +200,8 @@ class EllipseItem(PositionMixin, StartStopAngleMixin, PathStyleItemMixin):
 
     def get_geometry(self) -> Ellipse2D:
         position = self.casted_position
-        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle)
+        domain = AngularDomain(self._start_angle, self._stop_angle)
+        return Ellipse2D(position, self._radius_x, self._radius_y, self._angle, domain=domain)
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index afe3be2..eae9152 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -299,13 +299,17 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Circle2D):
             ctor = self.circle
             args = [item.radius]
-            if item.domain:
+            if item.domain is not None:
                 kwargs['start_angle'] = item.domain.start
                 kwargs['stop_angle'] = item.domain.stop
 
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain is not None:
+                # Note: an ellipse arc can sweep through decreasing angles
+                kwargs['start_angle'] = min(item.domain.start, item.domain.stop)
+                kwargs['stop_angle'] = max(item.domain.start, item.domain.stop)
 
         # Line
         elif isinstance(item, Line.Line2D):
@@ -314,7 +318,7 @@ class GraphicSceneScope:
 
         # Path
         elif isinstance(item, Path.Path2D):
-            self.add_path(item, path_style, as_segments=True)
+            return self.add_path(item, path_style, as_segments=True)
 
         # Polygon
         elif isinstance(item, Polygon.Polygon2D):
@@ -366,8 +370,9 @@ class GraphicSceneScope:
     ##############################################
 
     def add_spline(self, spline, path_style: GraphicPathStyle) -> list:
+        method = self.quadratic_bezier if spline.degree == 2 else self.cubic_bezier
         return [
-            self.cubic_bezier(*bezier.points, path_style, user_data=spline)
+            method(*bezier.points, path_style, user_data=spline)
             for bezier in spline.to_bezier()
         ]
 
@@ -428,7 +433,7 @@ class GraphicSceneScope:
                              path,
                              path_style: GraphicPathStyle,
                              user_data: Any = None,
-                             ) -> None:
+                             ) -> list:
         """Add a path as one item for each segments.
 
         .. warning: path cannot be filled.
@@ -466,14 +471,17 @@ class GraphicSceneScope:
             # add_segment(Segment.Segment2D(*segment.points))
             ellipse = segment.geometry
             # print(ellipse, ellipse.domain)
+            if isinstance(ellipse, Segment.Segment2D):   # null radius
+                add_segment(segment)
+                return
             arc_item = self.ellipse(
                 ellipse.center,
                 ellipse.radius_x,
                 ellipse.radius_y,
                 ellipse.angle,
                 path_style,
-                start_angle=ellipse.domain.start,
-                stop_angle=ellipse.domain.stop,
+                start_angle=min(ellipse.domain.start, ellipse.domain.stop),
+                stop_angle=max(ellipse.domain.start, ellipse.domain.stop),
                 user_data=user_data, # segment
             )
             items.append(arc_item)
@@ -503,9 +511,11 @@ class GraphicSceneScope:
             elif isinstance(segment, Path.ArcSegment):
                 add_ellipse(segment)
             elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
+                add_quadratic(segment)
             elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+                add_cubic(segment)
+
+        return items
 
     ##############################################
 
@@ -537,7 +547,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From 2ff394c2ebb782bf4112009b65ef3f9d478d616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 081/149] fix: arcs, smooth curves, rounded corners and
 geometry of path items

---
 .../GraphicEngine/GraphicScene/GraphicItem.py | 17 +++++-
 Patro/GraphicEngine/GraphicScene/Scene.py     | 53 ++++++++++++++-----
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index b60c463..395fccc 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -432,13 +432,25 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        cast = self._scene.cast_position
+        path = Path2D(self.casted_position)
+        methods = {
+            LinearSegment: path.line_to,
+            QuadraticSegment: path.quadratic_to,
+            CubicSegment: path.cubic_to,
+        }
+        for segment in self._segments:
+            positions = [cast(position) for position in segment.positions]
+            methods[segment.__class__](*positions, absolute=True)
+        if self._closed:
+            path.close()
+        return path
 
     ##############################################
 
     def _add_segment(self, segment) -> None:
         self._segments.append(segment)
+        self.dirty = True
 
     ##############################################
 
@@ -459,6 +471,7 @@ class PathItem(PositionMixin, PathStyleItemMixin):
 
     def close(self) -> None:
         self._closed = True
+        self.dirty = True
 
 ####################################################################################################
 
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index eae9152..6f438d0 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -49,6 +49,7 @@ from Patro.GeometryEngine import (
     Spline,
     Triangle,
 )
+from Patro.GeometryEngine.Mixin import AngularDomain
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from Patro.GeometryEngine.Vector import Vector2D
 from . import GraphicItem
@@ -403,26 +404,50 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
+        p0 = path.p0
+        if len(path):
+            # can be a bulge stop point
+            start_point = path[0].points[0]
+            if start_point != p0:
+                p0 = start_point
+
+        item = self.add_item(GraphicItem.PathItem, p0, path_style, user_data)
+
+        def add_arc(arc) -> None:
+            for bezier in arc.to_bezier():
+                item.cubic_to(*list(bezier.points)[1:])
+
+        def add_bulge(segment) -> None:
+            arc = segment.bulge_geometry
+            start, stop = arc.domain.start, arc.domain.stop
+            if stop < start:
+                stop += 360
+            if segment.bulge_angle < 0:
+                start, stop = stop, start
+            add_arc(Conic.Ellipse2D(arc.center, arc.radius, arc.radius, domain=AngularDomain(start, stop)))
 
         # cf. add_as_path_segments
-        for segment in path:
+        for index, segment in enumerate(path):
+            points = list(segment.points)
             if isinstance(segment, Path.LinearSegment):
-                # if segment.radius is not None:
-                #     add_bulge(segment)
-                item.line_to(segment.stop_point)
-            elif isinstance(segment, Path.QuadraticBezierSegment):
-                item.quadratic_to(segment.point1, segment.point2)
-            elif isinstance(segment, Path.CubicBezierSegment):
-                item.cubic_to(segment.point1, segment.point2, segment.point3)
+                if segment.radius is not None and index:
+                    add_bulge(segment)
+                item.line_to(points[1])
+            elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadtraticBezierSegment)):
+                item.quadratic_to(*points[1:])
+            elif isinstance(segment, (Path.CubicBezierSegment, Path.StringedCubicBezierSegment)):
+                item.cubic_to(*points[1:])
             elif isinstance(segment, Path.ArcSegment):
-                pass
-            elif isinstance(segment, Path.StringedQuadtraticBezierSegment):
-                pass
-            elif isinstance(segment, Path.StringedCubicBezierSegment):
-                pass
+                arc = segment.geometry
+                if isinstance(arc, Segment.Segment2D):   # null radius
+                    item.line_to(points[1])
+                else:
+                    add_arc(arc)
 
         if path.is_closed:
+            start_segment = path.start_segment
+            if isinstance(start_segment, Path.LinearSegment) and start_segment.radius is not None:
+                add_bulge(start_segment)
             item.close()
 
         return item
-- 
2.43.0


From 12511232ab217e3b197c21db78c8f50aca9e5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:06 +0000
Subject: [PATCH 082/149] fix: query of a scene having polygons, rectangles or
 empty paths

---
 Patro/GeometryEngine/Path.py      | 2 +-
 Patro/GeometryEngine/Primitive.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 4ef1038..32b722c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1090,7 +1090,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
     def bounding_box(self):
 
         # Fixme: cache
-        bounding_box = None
+        bounding_box = self._p0.bounding_box if not self._parts else None
         for item in self._parts:
             interval = item.geometry.bounding_box
             if bounding_box is None:
diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index ab664bd..4a69cd5 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -120,6 +120,12 @@ class Primitive:
 
     ##############################################
 
+    def distance_to_point(self, point):
+        """Distance of a point to the primitive."""
+        raise NotImplementedError
+
+    ##############################################
+
     # @property
     # def perimeter(self):
     #     raise NotImplementedError
-- 
2.43.0


From a728c8a83907f800535ec7391ec17530f946879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:51 +0000
Subject: [PATCH 083/149] fix: typography unit conversion

---
 Patro/GraphicEngine/GraphicScene/TypographyUnit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
index 5219859..7425bf0 100644
--- a/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
+++ b/Patro/GraphicEngine/GraphicScene/TypographyUnit.py
@@ -37,14 +37,14 @@ __all__ = [
 class TypographyUnit:
 
     INCH_2_MM        = 25.4    # 1 inch = 25.4 mm
-    POINT_2_INCH     = 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
-    TEX_POINT_2_INCH = 72.27   # TeX pt
+    POINT_2_INCH     = 1 / 72      # 1 inch = 72 point   PostScript, CSS pt and TeX bp
+    TEX_POINT_2_INCH = 1 / 72.27   # TeX pt
     PICA_2_POINT     = 12      # 1 pica = 12 point
 
-    POINT_2_MM    = INCH_2_MM / POINT_2_INCH
+    POINT_2_MM    = INCH_2_MM * POINT_2_INCH
 
     MM_2_INCH     = 1 / INCH_2_MM
-    INCH_2_POINT  = 1 / POINT_2_INCH
+    INCH_2_POINT  = 72
     MM_2_POINT    = 1 / POINT_2_MM
 
     ##############################################
@@ -55,7 +55,7 @@ class TypographyUnit:
     ##############################################
 
     def __float__(self) -> float:
-        return self._value
+        return float(self._value)
 
 ####################################################################################################
 
@@ -65,7 +65,7 @@ class MmUnit(TypographyUnit):
         return self
 
     def to_inch(self) -> 'InchUnit':
-        return InchUnit(self._value * self.MM_2_POINT)
+        return InchUnit(self._value * self.MM_2_INCH)
 
     def to_point(self) -> 'PointUnit':
         return PointUnit(self._value * self.MM_2_POINT)
-- 
2.43.0


From 03a97fd6c7b146bbeb0f4cde67a57fd54352ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:55 +0000
Subject: [PATCH 084/149] fix: clone of graphic styles

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
@@ -203,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From 4fa1a57d0bd7f7dcbf7a9743eda5eebdfcc7dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 085/149] fix: colours made from a colour, a short string or
 integer hue components

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..09207d9 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
@@ -72,6 +72,8 @@ class Color:
                 if not rgb.startswith('#'):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
+                if len(rgb) != 6:
+                    raise ValueError(f'Invalid color #{rgb}')
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
                 self._red, self._green, self._blue = [self._to_float(int(x, 16))
                                                       for x in (red, green, blue)]
@@ -89,7 +91,7 @@ class Color:
                 red, green, blue = colorsys.hsv_to_rgb(hue, saturation, value)
             else:
                 raise ValueError('Missing color parameter')
-            self._red, self._green, self._blue = [self._check_value(x) for x in (red, green, blue)]
+            self._red, self._green, self._blue = [self._check_value(float(x)) for x in (red, green, blue)]
 
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
-- 
2.43.0


From cda7489d7ca5eadddd4d02e20fec06a4fa07bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 086/149] fix: distance of the center to a circle arc

---
 Patro/GeometryEngine/Conic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 8610b7c..f75385d 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -255,6 +255,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         if self._domain is not None:
             # Fixme: check !!!
             # try:
+            if point == self._center:
+                return self._radius
             angle = self.angle_for_point(point)
             # print('distance_to_circle', point, angle)
             if self._domain.is_inside(angle):
-- 
2.43.0


From 9a496a9cec4ed9b47c808830cf27a46bbc366ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:49 +0000
Subject: [PATCH 087/149] fix: rounding of a colour component

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 09207d9..442896d 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -118,7 +118,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From 8c6315dae1aacdf9f025dc068f0894e244427898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 088/149] fix: Valentina measurement set

---
 Patro/Measurement/ValentinaMeasurement.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..9e58ff8 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -65,7 +65,8 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
@@ -81,7 +82,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
@@ -91,8 +92,6 @@ class ValentinaMeasurements(Measurements):
 
     ##############################################
 
-    def add(self, *args: list, **kgwars: dict) -> None:
-        # Fixme: name ?
-        measurement = super().add(*args, **kgwars)
-        if measurement.is_custom():
-            self._measurements[measurement.valentina_name] = measurement
+    def __getitem__(self, name: str) -> ValentinaMeasurement:
+        # A custom measurement is registered by its name, the Valentina name with @ is an alias
+        return super().__getitem__(ValentinaMeasurement.replace_custom_prefix(name))
-- 
2.43.0


From b4760e79001208474b155d1c9b587813508e06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 089/149] fix: encoding of measurement files

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..87391ca 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From 86ac29d3da9217f2dc089be8078dc06cee947822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 090/149] fix: evaluation of measurements defined by
 measurements

---
 Patro/Measurement/Measurement.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 87391ca..92da46e 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,13 +111,17 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            expression = self._measurements.subs(self)
+            if expression.free_symbols:
+                # a measurement is missing, it can be added later
+                return expression
+            self._evaluated_expression = expression
         return self._evaluated_expression
 
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(sympy.sympify(self.evaluated_expression).evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
@@ -207,7 +211,15 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        expression = measurement.expression
+        # An expression can refer to measurements which are themselves defined by an expression.
+        # A chain of references is at most as long as the number of measurements.
+        for _ in range(len(self._expressions)):
+            substituted_expression = expression.subs(self._expressions)
+            if substituted_expression == expression:
+                break
+            expression = substituted_expression
+        return expression
 
     ##############################################
 
-- 
2.43.0


From 0f24db1990115e11f1add90cdacd12c80ddf5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:49 +0000
Subject: [PATCH 091/149] fix: measurement names hide sympy names

---
 Patro/Measurement/Measurement.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 92da46e..60827e4 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -23,6 +23,7 @@ __all__ = ['MeasurementSet', 'Measurement']
 ####################################################################################################
 
 import logging
+import re
 from pathlib import Path
 from typing import Optional, Iterator
 
@@ -60,7 +61,7 @@ class Measurement:
             self._value = float(value)
         else:
             # https://docs.sympy.org/latest/modules/core.html#id1
-            self._expression = sympy.sympify(str(value))
+            self._expression = self._sympify(str(value))
             self._evaluated_expression = None
             self._value = None
 
@@ -78,6 +79,18 @@ class Measurement:
 
     ##############################################
 
+    def _sympify(self, expression: str) -> sympy.core.expr.Expr:
+        # An identifier which is not a function is a measurement, excepted the constants like pi.
+        # Elsewhere sympy would replace some names by its own objects, e.g. S, N or beta.
+        names = self._measurements.names
+        symbols = {}
+        for name in re.findall(r'\b[^\W\d]\w*\b(?!\s*\()', expression):
+            if name in names or not isinstance(getattr(sympy, name, None), sympy.Expr):
+                symbols[name] = sympy.Symbol(name)
+        return sympy.sympify(expression, locals=symbols)
+
+    ##############################################
+
     def __repr__(self) -> str:
         return f'''
 {self._name} = {self._expression}
@@ -148,7 +161,7 @@ class MeasurementSet:
         self._pattern_making_system = pattern_making_system   # Fixme: purpose ???
         self._personal = PersonalData() if personal_data is None else personal_data
         self._measurements = {}   # name -> Measurement
-        self._expressions = {}   # name -> expression  for sympy substitution
+        self._expressions = {}   # symbol -> expression  for sympy substitution
 
     ##############################################
 
@@ -189,6 +202,12 @@ class MeasurementSet:
 
     ##############################################
 
+    @property
+    def names(self) -> list[str]:
+        return list(self._measurements.keys())
+
+    ##############################################
+
     def __getitem__(self, name: str) -> Measurement:
         return self._measurements[name]
 
@@ -205,7 +224,7 @@ class MeasurementSet:
         if measurement.name in self._measurements:
             raise NameError(f"Measurement {measurement.name} is already registered")
         self._measurements[measurement.name] = measurement
-        self._expressions[measurement.name] = measurement.expression
+        self._expressions[sympy.Symbol(measurement.name)] = measurement.expression
         return measurement
 
     ##############################################
-- 
2.43.0


From ec43cdb57afb3623c8bb3211d5ed99b0dd44d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 092/149] fix: reading of the measurement files

---
 Patro/FileFormat/Valentina/Measurement.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..4167daf 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -88,21 +88,24 @@ class VitFileInternal(XmlFileMixin):
 
         measurements = self.measurements
 
-        version = self.get_xpath_element(tree, 'version').text
+        version = self.get_text_element(tree, 'version')
         # self.read_only = self.get_xpath_element(tree, 'read-only').text
         # self.notes = self.get_xpath_element(tree, 'notes').text
-        self.unit = self.get_xpath_element(tree, 'unit').text
-        self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.get_text_element(tree, 'unit')
+        measurements.pattern_making_system = self.get_text_element(tree, 'pm_system')
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-        # replace last_name first_name
-        personal.customer = self.get_xpath_element(personal_element, 'customer').text
-        # personal.last_name = self.get_xpath_element(personal_element, 'family-name').text
-        # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
-        personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
-        personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        if personal_element is not None:
+            # old files only have a customer name
+            personal.last_name = (self.get_text_element(personal_element, 'family-name')
+                                  or self.get_text_element(personal_element, 'customer')
+                                  or '')
+            personal.first_name = self.get_text_element(personal_element, 'given-name') or ''
+            # an element can be missing or empty
+            personal.birth_date = self.get_text_element(personal_element, 'birth-date') or None
+            personal.gender = Gender[(self.get_text_element(personal_element, 'gender') or 'unknown').upper()]
+            personal.email = self.get_text_element(personal_element, 'email') or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-- 
2.43.0


From e14cf248c5814e9aba6a258bc4e64819e69533b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 093/149] fix: conversion of a datetime to a date

---
 Patro/Common/Datetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Datetime.py b/Patro/Common/Datetime.py
index 9efa740..536751e 100644
--- a/Patro/Common/Datetime.py
+++ b/Patro/Common/Datetime.py
@@ -27,7 +27,9 @@ from datetime import datetime, date
 ####################################################################################################
 
 def ensure_date(x: date | str) -> date:
-    if isinstance(x, date):
+    if isinstance(x, datetime):   # is also a date
+        return x.date()
+    elif isinstance(x, date):
         return x
     else:
         # "1970-01-01"
-- 
2.43.0


From 0982751299eaf457cebf7e000e3e2c6ae9cd7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:33 +0000
Subject: [PATCH 094/149] fix: parsing of the identifiers of an expression,
 dependencies

---
 Patro/Pattern/Calculator.py | 104 ++++++++++++++----------------------
 1 file changed, 41 insertions(+), 63 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..7e48792 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -22,6 +22,7 @@
 
 import ast
 import logging
+import re
 
 import astunparse
 # import astor
@@ -66,12 +67,13 @@ class NodeVisitor(ast.NodeVisitor):
         #   https://greentreesnakes.readthedocs.io/en/latest/index.html
 
         function = node.func
-        if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
-            dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
-                for arg in node.args:
-                    dependence = self._calculator._name_to_point(arg.s)
-                    self._dependencies.append(dependence)
+        # catch __calculator__._function_Line
+        if (isinstance(function, ast.Attribute)
+            and isinstance(function.value, ast.Name) and function.value.id == '__calculator__'):
+            # the arguments are point names
+            for arg in node.args:
+                dependence = self._calculator._name_to_point(arg.value)
+                self._dependencies.append(dependence)
 
         self.generic_visit(node)
 
@@ -238,22 +240,40 @@ class Expression:
 
     ##############################################
 
-    def _find_identifier(self, prefix, start=0):
+    # A custom measurement or an identifier
+    __IDENTIFIER_REGEXP__ = re.compile(r'@?\b[^\W\d]\w*')
 
-        """Find an identifier in a Python expression"""
+    __FUNCTIONS__ = (
+        'Angle1Spl',
+        'Angle2Spl',
+        'AngleLine',
+        'C1LengthSpl',
+        'C2LengthSpl',
+        'CurrentLength',
+        'Line',
+        'Spl',
+    )
 
-        expression = self._expression
-        start = expression.find(prefix, start)
-        if start is -1:
-            return None, None
-        index = start + 1
-        while index < len(expression):
-            c = expression[index]
-            if 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9' or c in '_':
-                index += 1
-            else:
-                break
-        return expression[start:index], index + 1
+    def _pythonise_identifier(self, match):
+
+        """Return the Python code for an identifier of an expression"""
+
+        identifier = match.group()
+
+        # Python don't accept identifier starting with @
+        # Replace @foo by the name of the measurement
+        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
+        if identifier.startswith('@'):
+            return self._calculator.measurements[identifier].name
+
+        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
+        function, *args = identifier.split('_')
+        number_of_args = 0 if function == 'CurrentLength' else 2
+        if function in self.__FUNCTIONS__ and len(args) == number_of_args:
+            args = ', '.join(["'{}'".format(x) for x in args])
+            return '__calculator__._function_{}({})'.format(function, args)
+
+        return identifier
 
     ##############################################
 
@@ -262,49 +282,7 @@ class Expression:
         expression = self._expression
         self._logger.debug("expression '{}'".format(expression))
 
-        # Python don't accept identifier starting with @
-        # Replace @foo by __custom__foo
-        # https://docs.python.org/3.5/reference/lexical_analysis.html#identifiers
-        if '@' in expression:
-            custom_measurements = []
-            start = 0
-            while True:
-                name, start = self._find_identifier('@', start)
-                if name is None:
-                    break
-                else:
-                    custom_measurements.append(name)
-            for measurement in custom_measurements:
-                py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
-
-        # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
-        functions = []
-        for function in (
-                'Angle1Spl_',
-                'Angle2Spl_',
-                'AngleLine_',
-                'CurrentLength',
-                'C1LengthSpl_',
-                'C2LengthSpl_',
-                'Line_',
-                'Spl_',
-        ):
-            start = 0
-            while True:
-                name, start = self._find_identifier(function, start)
-                if name is None:
-                    break
-                else:
-                    functions.append(name)
-        # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
-            parts = function_call.split('_')
-            function = parts[0]
-            args = parts[1:]
-            pythonised_function = '__calculator__._function_' + function + '(' + ', '.join(["'{}'".format(x) for x in args]) + ')'
-            # self._logger.debug('Function {} {} -> {}'.format(function, args, pythonised_function))
-            expression = expression.replace(function_call, pythonised_function)
+        expression = self.__IDENTIFIER_REGEXP__.sub(self._pythonise_identifier, expression)
 
         self._logger.debug("Pythonised expression '{}'".format(expression))
 
-- 
2.43.0


From bde457be5ca8bd546f2ae68983ab5d822eefbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 095/149] fix: spline functions of the expressions

---
 Patro/Pattern/Calculator.py | 33 +++++++++++++++++++++------------
 Patro/Pattern/Sketch.py     |  1 +
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 7e48792..47605c8 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -71,9 +71,12 @@ class NodeVisitor(ast.NodeVisitor):
         if (isinstance(function, ast.Attribute)
             and isinstance(function.value, ast.Name) and function.value.id == '__calculator__'):
             # the arguments are point names
-            for arg in node.args:
-                dependence = self._calculator._name_to_point(arg.value)
+            names = [arg.value for arg in node.args]
+            for name in names:
+                dependence = self._calculator._name_to_point(name)
                 self._dependencies.append(dependence)
+            if function.attr.endswith('Spl'):
+                self._dependencies.append(self._calculator._names_to_spline(*names))
 
         self.generic_visit(node)
 
@@ -94,6 +97,7 @@ class Calculator:
         self._dag = DirectedAcyclicGraph()
         self._cache  = {'__calculator__': self} # used to eval expressions
         self._points = {}
+        self._splines = {}
         self._current_operation = None # Fixme: ???
         self._current_segment = None
 
@@ -131,6 +135,16 @@ class Calculator:
 
     ##############################################
 
+    def add_spline(self, spline):
+        self._splines[(spline.first_point.name, spline.second_point.name)] = spline
+
+    ##############################################
+
+    def _names_to_spline(self, point_name1, point_name2):
+        return self._splines[(point_name1, point_name2)]
+
+    ##############################################
+
     def _name_to_point(self, name):
         return self._points[name]
 
@@ -162,12 +176,10 @@ class Calculator:
     #   functions
 
     def _function_Angle1Spl(self, point_name1, point_name2):
-        point1, point2 = self._names_to_vector_points(point_name1, point_name2)
-        return 0 # Fixme:
+        return self._names_to_spline(point_name1, point_name2).angle1.value
 
     def _function_Angle2Spl(self, point_name1, point_name2):
-        point1, point2 = self._names_to_vector_points(point_name1, point_name2)
-        return 0 # Fixme:
+        return self._names_to_spline(point_name1, point_name2).angle2.value
 
     def _function_AngleLine(self, point_name1, point_name2):
         point1, point2 = self._names_to_vector_points(point_name1, point_name2)
@@ -177,20 +189,17 @@ class Calculator:
         return self._current_segment.magnitude
 
     def _function_C1LengthSpl(self, point_name1, point_name2):
-        point1, point2 = self._names_to_vector_points(point_name1, point_name2)
-        return 0 # Fixme:
+        return self._names_to_spline(point_name1, point_name2).length1.value
 
     def _function_C2LengthSpl(self, point_name1, point_name2):
-        point1, point2 = self._names_to_vector_points(point_name1, point_name2)
-        return 0 # Fixme:
+        return self._names_to_spline(point_name1, point_name2).length2.value
 
     def _function_Line(self, point_name1, point_name2):
         point1, point2 = self._names_to_vector_points(point_name1, point_name2)
         return (point2 - point1).magnitude
 
     def _function_Spl(self, point_name1, point_name2):
-        point1, point2 = self._names_to_vector_points(point_name1, point_name2)
-        return 0 # Fixme:
+        return self._names_to_spline(point_name1, point_name2).geometry().length
 
 ####################################################################################################
 
diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..4d51323 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -114,6 +114,7 @@ class Sketch:
                 operation.eval()
             elif isinstance(operation, SketchOperation.SimpleInteractiveSpline):
                 operation.eval() # for control points
+                self._calculator.add_spline(operation)
             else:
                 pass
             operation.connect_ancestor_for_expressions()
-- 
2.43.0


From ebf5ced0d2c7166d6d7e71c95086671a803d5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 096/149] fix: debug prints of the point of contact

---
 Patro/Pattern/SketchOperation.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..dc8e5d2 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -634,8 +634,6 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
     ##############################################
 
     def eval_internal(self):
-        print('>'*50)
-        print(self)
         segment = Segment2D(self._first_point.vector, self._second_point.vector)
         circle = Circle2D(self._center.vector, self._radius.value)
         points = circle.intersect_segment(segment)
@@ -649,9 +647,6 @@ class PointOfContact(Point, FirstSecondPointMixin, CenterRadiusMixin):
             self._logger.warning('More than one points for line-circle intersection')
             # point must lie in the segment
             point0 = points[0]
-            segment.contain_point(points[0])
-            segment.contain_point(points[1])
-            print('>'*50)
             if segment.contain_point(point0):
                 self._vector = point0
             else:
-- 
2.43.0


From d5bfcc337af4449054a9dd35e47326c21fa4e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 097/149] fix: ids of the operations are unique over a pattern,
 not over the process

---
 Patro/Pattern/Pattern.py         | 38 ++++++++++++++++++++++++++++++++
 Patro/Pattern/SketchOperation.py | 18 ++++++++++-----
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..e9cb43b 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -34,6 +34,33 @@ _module_logger = logging.getLogger(__name__)
 
 ####################################################################################################
 
+class OperationIds:
+
+    """Class to attribute the ids of the operations, they are unique over a pattern"""
+
+    ##############################################
+
+    def __init__(self):
+        self._ids = set()
+        self._last_id = 0
+
+    ##############################################
+
+    def add(self, id):
+        if id in self._ids:
+            raise NameError("id {} is already attributed".format(id))
+        self._ids.add(id)
+        self._last_id = max(self._last_id, id)
+
+    ##############################################
+
+    def new(self):
+        id = self._last_id + 1
+        self.add(id)
+        return id
+
+####################################################################################################
+
 class Pattern:
 
     """Class to implement the root of a pattern"""
@@ -48,6 +75,7 @@ class Pattern:
         self._unit = unit
 
         self._scopes = [] # not a dict so as to don't manage renaming
+        self._operation_ids = OperationIds()
 
     ##############################################
 
@@ -61,6 +89,12 @@ class Pattern:
 
     ##############################################
 
+    @property
+    def operation_ids(self):
+        return self._operation_ids
+
+    ##############################################
+
     @property
     def scopes(self):
         return iter(self._scopes)
@@ -124,6 +158,10 @@ class PatternScope(ObjectNameMixin):
     def unit(self):
         return self._pattern._unit
 
+    @property
+    def operation_ids(self):
+        return self._pattern.operation_ids
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index dc8e5d2..8343da3 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -29,7 +29,7 @@ A sketch operation must be build from the corresponding method of the Pattern cl
 
 import logging
 
-from Patro.Common.Object import ObjectGlobalIdMixin
+from Patro.Common.Object import ObjectCkeckedIdMixin
 from Patro.GeometryEngine.Bezier import CubicBezier2D
 from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
@@ -65,7 +65,7 @@ def quote(x):
 ####################################################################################################
 
 # metaclass = SketchOperationMetaClass
-class SketchOperation(ObjectGlobalIdMixin):
+class SketchOperation(ObjectCkeckedIdMixin):
 
     """Baseclass for sketch operation"""
 
@@ -79,17 +79,23 @@ class SketchOperation(ObjectGlobalIdMixin):
 
         # Valentina set an incremental integer id for each calculation (entity)
         # id is used to identify operation, see _get_operation
+        # An id is unique over a pattern
         # A calculation which generate a point has also a name
-        try:
-            super().__init__(id)
-        except ValueError:
-            raise NameError("id {} is already attributed".format(id))
+        super().__init__(id)
 
         self._dag_node = self._dag.add_node(pyid(self), data=self)
         self._dependencies = set()
 
     ##############################################
 
+    def new_id(self):
+        return self._sketch.pattern.operation_ids.new()
+
+    def check_id(self, id):
+        self._sketch.pattern.operation_ids.add(id)
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
-- 
2.43.0


From f8e203f04fd13c88ff1c0a259e70d024bdfd1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 098/149] fix: Python code of the line properties of an
 operation

---
 Patro/Pattern/SketchOperation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 8343da3..f8fceb2 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -35,7 +35,7 @@ from Patro.GeometryEngine.Conic import Circle2D
 from Patro.GeometryEngine.Line import Line2D
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
-from Patro.GraphicStyle import StrokeStyle, Colors
+from Patro.GraphicStyle import StrokeStyle, Color, Colors
 from .Calculator import Expression
 
 # Rename id buitin
@@ -48,7 +48,7 @@ _module_logger = logging.getLogger(__name__)
 ####################################################################################################
 
 def quote(x):
-    return "'{}'".format(x)
+    return repr(str(x))
 
 ####################################################################################################
 
@@ -176,8 +176,12 @@ class SketchOperation(ObjectCkeckedIdMixin):
                     value_str = quote(value)
             elif isinstance(value, Vector2D):
                 value_str = 'Vector2D({0.x}, {0.y})'.format(value)
+            elif isinstance(value, StrokeStyle):
+                value_str = str(value)
+            elif isinstance(value, Color):
+                value_str = 'Color({})'.format(quote(value))
             else:
-                value_str = ''
+                raise NotImplementedError('{} {}'.format(arg, value))
             values.append(value_str)
         kwargs = ', '.join(['sketch'] + [key + '=' + value for key, value in zip(args, values)])
         return self.__class__.__name__ + '(' + kwargs + ')'
-- 
2.43.0


From ca8e12537d639a973a23fecddd1a6d0d4aa1d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 099/149] fix: line properties of an operation given by their
 names

---
 Patro/Pattern/SketchOperation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index f8fceb2..179e7b5 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -227,9 +227,22 @@ class LinePropertiesMixin:
 
     ##############################################
 
+    # Valentina names
+    __LINE_STYLES__ = {
+        'none': StrokeStyle.NoPen,
+        'hair': StrokeStyle.SolidLine,
+        'solid': StrokeStyle.SolidLine,
+        'dashLine': StrokeStyle.DashLine,
+        'dotLine': StrokeStyle.DotLine,
+        'dashDotLine': StrokeStyle.DashDotLine,
+        'dashDotDotLine': StrokeStyle.DashDotDotLine,
+    }
+
+    ##############################################
+
     def __init__(self, line_style, line_color):
-        self._line_color = line_color
-        self._line_style = line_style
+        self.line_color = line_color
+        self.line_style = line_style
 
     ##############################################
 
@@ -239,7 +252,7 @@ class LinePropertiesMixin:
 
     @line_color.setter
     def line_color(self, value):
-        self._line_color = value
+        self._line_color = Colors.ensure_color(value)
 
     @property
     def line_style(self):
@@ -247,6 +260,8 @@ class LinePropertiesMixin:
 
     @line_style.setter
     def line_style(self, value):
+        if isinstance(value, str):
+            value = self.__LINE_STYLES__[value]
         self._line_style = value
 
 ####################################################################################################
-- 
2.43.0


From 449124dc3a17c082c9c607667d029a144a0879b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 100/149] fix: scene of a sketch having points without label or
 line style

---
 Patro/Pattern/Sketch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index 4d51323..cf59053 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -28,6 +28,7 @@ import logging
 from Patro.GeometryEngine.Vector import Vector2D
 from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
 from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
+from Patro.GraphicStyle import StrokeStyle
 from . import SketchOperation
 from .Calculator import Calculator
 from .SketchStyle import DetailSketchStyle
@@ -157,8 +158,10 @@ class Sketch:
 
         """Generate a :class:`GraphicPathStyle` instance for a operation"""
 
+        # A line is not drawn when it has no style
+        line_style = operation.line_style
         return GraphicPathStyle(
-            stroke_style=operation.line_style,
+            stroke_style=line_style if line_style is not None else StrokeStyle.NoPen,
             stroke_color=operation.line_color,
             **kwargs
         )
@@ -192,9 +195,12 @@ class Sketch:
                              user_data=operation,
                 )
                 label_offset = operation.label_offset
-                offset = Vector2D(label_offset.x, -label_offset.y) # Fixme: ???
-                label_position = operation.vector + offset
+                if label_offset is not None:
+                    offset = Vector2D(label_offset.x, -label_offset.y) # Fixme: ???
+                else:
+                    offset = None
                 if offset:
+                    label_position = operation.vector + offset
                     # arrow must point to the label center and be clipped
                     scene.segment(operation.vector, label_position,
                                   style.label_line_style,
-- 
2.43.0


From 7cee05ae9916b08c45cc8bf42190fef8c43df6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 101/149] fix: reading and writing of pattern files

---
 Patro/FileFormat/Valentina/Pattern.py   | 56 ++++++++++++++++---------
 Patro/FileFormat/Valentina/VitFormat.py | 37 +++++++++-------
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..119b8a9 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -29,6 +29,7 @@ from pathlib import Path
 
 from lxml import etree
 
+from Patro.Common.Xml.Objectivity import IntAttribute
 from Patro.Common.Xml.XmlFile import XmlFileMixin
 from Patro.Pattern.Pattern import Pattern
 from .Measurement import VitFile
@@ -87,7 +88,7 @@ class Dispatcher:
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if tag_cls is not None:
             return tag_cls(element)
         else:
@@ -144,9 +145,9 @@ class CalculationDispatcher(Dispatcher):
 
     def from_xml(self, element):
 
-        tag_cls = self.__TAGS__[element.tag]
+        tag_cls = self.__TAGS__.get(element.tag, None)
         if hasattr(tag_cls, '__TYPES__'):
-            cls = tag_cls.__TYPES__[element.attrib['type']]
+            cls = tag_cls.__TYPES__.get(element.attrib['type'], None)
         else:
             cls = tag_cls
         if cls is not None:
@@ -266,7 +267,7 @@ class ValFileReaderInternal(XmlFileMixin):
 
     def read_measurements(self):
 
-        measurements_path = self.get_xpath_element(self.root, 'measurements').text
+        measurements_path = self.get_text_element(self.root, 'measurements')
         if measurements_path is not None:
             measurements_path = Path(measurements_path)
             if not measurements_path.exists():
@@ -306,9 +307,10 @@ class ValFileReaderInternal(XmlFileMixin):
         scope = self.pattern.add_scope(piece_name)
 
         sketch = scope.sketch
-        for element in self.get_xpath_element(piece, 'calculation'):
+        for element in self.get_xpath_elements(piece, 'calculation/*'):
             try:
                 xml_calculation = _calculation_dispatcher.from_xml(element)
+                self.check_references(sketch, xml_calculation)
                 operation = xml_calculation.to_operation(sketch)
                 self._logger.info('Add operation {}'.format(operation))
             except NotImplementedError:
@@ -316,35 +318,51 @@ class ValFileReaderInternal(XmlFileMixin):
         sketch.eval()
 
         modeling = Modeling()
-        for element in self.get_xpath_element(piece, 'modeling'):
-            xml_modeling_item = _modeling_dispatcher.from_xml(element)
-            modeling.add(xml_modeling_item)
-            self._logger.info('Modeling {}'.format(xml_modeling_item))
+        for element in self.get_xpath_elements(piece, 'modeling/*'):
+            try:
+                xml_modeling_item = _modeling_dispatcher.from_xml(element)
+                modeling.add(xml_modeling_item)
+                self._logger.info('Modeling {}'.format(xml_modeling_item))
+            except NotImplementedError:
+                self._logger.warning('Not implemented modeling\n' +  str(etree.tostring(element)))
 
         # details = []
-        for detail_element in self.get_xpath_element(piece, 'details'):
+        for detail_element in self.get_xpath_elements(piece, 'details/*'):
             self.read_detail(scope, modeling, detail_element)
             # details.append(xml_detail)
 
     ##############################################
 
+    @staticmethod
+    def check_references(sketch, xml_calculation):
+        # a calculation can depend on a calculation which is not implemented
+        for attribute in xml_calculation.__attributes__:
+            if isinstance(attribute, IntAttribute) and attribute.py_attribute != 'id':
+                if not sketch.has_operation_id(attribute.get_attribute(xml_calculation)):
+                    raise NotImplementedError
+
+    ##############################################
+
     def read_detail(self, scope, modeling, detail_element):
 
         xml_detail = Detail(modeling, detail_element)
         self._logger.info('Detail {}'.format(xml_detail))
-        for element in detail_element:
+        for element in self.get_xpath_elements(detail_element, '*'):
             if element.tag == 'nodes':
-                for node in element:
+                for node in self.get_xpath_elements(element, '*'):
                     xml_node = DetailNode(node)
                     xml_detail.append_node(xml_node)
             else:
-                xml_modeling_item = _detail_dispatcher.from_xml(element)
-                # Fixme: xml_detail. = xml_modeling_item
-                print(xml_modeling_item)
-
-        for node, modeling_item in xml_detail.iter_on_nodes():
-            # print(node.object_id, '->', modeling_item, '->', modeling_item.object_id)
-            print(node, '->\n', modeling_item, '->\n', scope.sketch.get_operation(modeling_item.object_id))
+                try:
+                    xml_modeling_item = _detail_dispatcher.from_xml(element)
+                    # Fixme: xml_detail. = xml_modeling_item
+                    self._logger.info('Detail item {}'.format(xml_modeling_item))
+                except NotImplementedError:
+                    self._logger.warning('Not implemented detail\n' +  str(etree.tostring(element)))
+
+        # Fixme: a node can refer to a modeling item which is not implemented
+        # for node, modeling_item in xml_detail.iter_on_nodes():
+        #     print(node, '->\n', modeling_item, '->\n', scope.sketch.get_operation(modeling_item.object_id))
 
 ####################################################################################################
 
diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..51ad67e 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -114,21 +114,22 @@ class StrokeStyleAttribute(Attribute):
         'none': StrokeStyle.NoPen,
     }
 
-    # Fixme: from_xml to_xml ???
     __TO_STROKE_STYLE__ = {value:name for name, value in __STROKE_STYLE__.items()}
-    __STROKE_STYLE__.update(__TO_STROKE_STYLE__)
 
     ##############################################
 
     @classmethod
     def from_xml(cls, value):
-        return cls.__STROKE_STYLE__[value]
+        if isinstance(value, StrokeStyle): # Python value
+            return value
+        else:
+            return cls.__STROKE_STYLE__[value]
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        return cls.__TO_STROKE_STYLE__[value]
 
 ####################################################################################################
 
@@ -394,7 +395,11 @@ class PointMixin(CalculationTypeMixin, MxMyMixin):
     def to_operation(self, sketch):
 
         kwargs = self.to_dict(exclude=('mx', 'my')) # id'
-        kwargs['label_offset'] = Vector2D(self.mx, self.my)
+        # the label offset is optional
+        if self.mx is not None and self.my is not None:
+            kwargs['label_offset'] = Vector2D(self.mx, self.my)
+        else:
+            kwargs['label_offset'] = None
         return self.call_operation_function(sketch, kwargs)
 
     ##############################################
@@ -404,8 +409,9 @@ class PointMixin(CalculationTypeMixin, MxMyMixin):
 
         kwargs = cls.get_dict(operation, exclude=('mx', 'my'))
         label_offset = operation.label_offset
-        kwargs['mx'] = label_offset.x
-        kwargs['my'] = label_offset.y
+        if label_offset is not None:
+            kwargs['mx'] = label_offset.x
+            kwargs['my'] = label_offset.y
         return cls(**kwargs)
 
 ####################################################################################################
@@ -642,7 +648,8 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color', Colors.black),
+        StrokeStyleAttribute('line_style', 'penStyle', StrokeStyle.SolidLine),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
@@ -785,7 +792,7 @@ class Detail(MxMyMixin, XmlObjectAdaptator):
         IntAttribute('id'),
         IntAttribute('version'),
         BoolAttribute('forbidFlipping'),
-        IntAttribute('width'),
+        StringAttribute('width'), # can be a formula
         BoolAttribute('united'),
         StringAttribute('name'),
         BoolAttribute('inLayout'),
@@ -817,7 +824,7 @@ class VisibleRotationMixin:
 
     __attributes__ = (
         BoolAttribute('visible'),
-        IntAttribute('rotation'),
+        StringAttribute('rotation'), # can be a formula
     )
 
 ####################################################################################################
@@ -825,8 +832,8 @@ class VisibleRotationMixin:
 class HeightWidthMixin:
 
     __attributes__ = (
-        IntAttribute('height'),
-        IntAttribute('width'),
+        StringAttribute('height'), # can be a formula
+        StringAttribute('width'),
     )
 
 ####################################################################################################
@@ -863,7 +870,7 @@ class DetailGrainline(MxMyMixin, VisibleRotationMixin, XmlObjectAdaptator):
 
     __attributes__ = (
         IntAttribute('arrows'),
-        IntAttribute('length'),
+        StringAttribute('length'), # can be a formula
     )
 
 ####################################################################################################
-- 
2.43.0


From 783811ca2e4e3e568ed0d73e0d743e9c3ff7b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 102/149] fix: expression starting with a space

---
 Patro/Pattern/Calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 47605c8..a8d036e 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -300,7 +300,7 @@ class Expression:
         # http://beltoforion.de/article.php?a=muparserx
 
         # Get the AST of the expression
-        self._ast = ast.parse(expression, mode='eval')
+        self._ast = ast.parse(expression.strip(), mode='eval')
 
         # Get the dependencies
         node_visitor = NodeVisitor(self._calculator)
-- 
2.43.0


From e6000855156d18193ec1e6206a3723663b94c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:47 +0000
Subject: [PATCH 103/149] fix: tiles not covering the bounding box and bounding
 box of the scene enlarged by the tiler

---
 Patro/GraphicEngine/Painter/Painter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..28e0025 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,8 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        # Note: enlarge works in place
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
@@ -66,7 +67,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 22469cfce7ca46d607837cbc8f99995dfe6c8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 104/149] fix: SVG export of scenes (position, circles, curves,
 colours, dashes, invisible lines)

---
 Patro/GraphicEngine/Painter/Painter.py    | 16 +++++++++++++---
 Patro/GraphicEngine/Painter/SvgPainter.py | 19 ++++++++++++-------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 28e0025..b5bd5a5 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -27,6 +27,7 @@ from IntervalArithmetic import Interval2D
 from Patro.Common.Math.Functions import ceil_int
 from Patro.GeometryEngine.Vector import Vector2D
 from Patro.GraphicEngine.GraphicScene.GraphicItem import GraphicItem
+from Patro.GraphicStyle import StrokeStyle
 
 ####################################################################################################
 
@@ -114,10 +115,19 @@ class Painter:
 
         # Fixme: GraphicItemScope
         for item in self._scene.z_value_iter():
-            try:
-                self.__paint_method__[item.__class__](self, item)
-            except KeyError:
+            # Note: don't catch a KeyError raised by the paint method
+            paint_method = self.__paint_method__.get(item.__class__, None)
+            if paint_method is None:
                 raise NotImplementedError('{} is not implemented in painter'.format(item.__class__))
+            paint_method(self, item)
+
+    ##############################################
+
+    @staticmethod
+    def is_stroked(item):
+        """Return True if the outline of the path item must be painted"""
+        path_style = item.path_style
+        return path_style.stroke_style != StrokeStyle.NoPen and path_style.stroke_color is not None
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..e9491a8 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -52,8 +52,8 @@ class SvgPainter(Painter):
         StrokeStyle.SolidLine: None,
         StrokeStyle.DashLine: [6, 3], # Fixme:
         StrokeStyle.DotLine: [1, 2], # Fixme:
-        StrokeStyle.DashDotLine: [6, 3], # Fixme:
-        StrokeStyle.DashDotDotLine: [6, 3], # Fixme:
+        StrokeStyle.DashDotLine: [6, 3, 1, 3], # Fixme:
+        StrokeStyle.DashDotDotLine: [6, 3, 1, 3, 1, 3], # Fixme:
     }
 
     ##############################################
@@ -66,8 +66,9 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        # Note: *= composes on the left, translate and then scale cm to mm
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
@@ -92,7 +93,7 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
@@ -114,12 +115,14 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
 
     def paint_SegmentItem(self, item):
+        if not self.is_stroked(item):
+            return
         p1, p2 = self.cast_item_positions(item)
         line = SvgFormat.Line(
             x1=p1.x,
@@ -133,11 +136,13 @@ class SvgPainter(Painter):
     ##############################################
 
     def paint_CubicBezierItem(self, item):
+        if not self.is_stroked(item):
+            return
         coordinates = self.cast_item_coordinates(item, flat=True)
         path = SvgFormat.Path(
             path_data='M {} {} C {} {}, {} {}, {} {}'.format(*coordinates),
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 16bf8dee28ac824ddb4924979304551a4ef40072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 105/149] fix: DXF export of scenes (text, colours, line types,
 invisible lines)

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 33 ++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..8541dfa 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -32,6 +32,7 @@ from .Painter import Painter
 
 try:
     import ezdxf
+    from ezdxf.enums import TextEntityAlignment
 except ImportError:
     ezdxf = None
 
@@ -65,17 +66,12 @@ class EzdxfPainter(DxfPainterBase):
     # AC1032 AutoCAD R2018
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
+        # Note: see ezdxf.tools.standards for the names
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
-    }
-
-    __COLOR__ = {
-        None : None,
-        'black': 0,
+        StrokeStyle.DashDotDotLine: 'DIVIDE',
     }
 
     ##############################################
@@ -85,7 +81,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=['linetypes'])
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
@@ -110,13 +106,13 @@ class EzdxfPainter(DxfPainterBase):
     def _graphic_style(self, item):
         # cf. https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#common-dxf-attributes-for-dxf-r13-or-later
         path_style = item.path_style
-        if path_style.stroke_color is None:
-            return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
+        color = path_style.stroke_color
+        # Note: requires AutoCAD R2004
+        true_color = ezdxf.rgb2int((color.red, color.green, color.blue))
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
+        return {'linetype': line_type, 'true_color': true_color} # 'lineweight':line_weight
 
     ##############################################
 
@@ -124,7 +120,10 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        self._model_space.add_text(item.text).set_placement(
+            list(position),
+            align=TextEntityAlignment.CENTER,
+        )
 
     ##############################################
 
@@ -135,6 +134,8 @@ class EzdxfPainter(DxfPainterBase):
     ##############################################
 
     def paint_SegmentItem(self, item):
+        if not self.is_stroked(item):
+            return
         positions = self.cast_item_coordinates(item)
         self._model_space.add_line(
             *positions,
@@ -144,6 +145,8 @@ class EzdxfPainter(DxfPainterBase):
     ##############################################
 
     def paint_CubicBezierItem(self, item):
+        if not self.is_stroked(item):
+            return
         positions = self.cast_item_coordinates(item)
         for position in positions:
             position.append(0)
-- 
2.43.0


From 53188b9a780370df880cac110f8bcb83a7fee92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 106/149] fix: Matplotlib rendering of colours, dashed and
 invisible lines

---
 Patro/GraphicEngine/Painter/MplPainter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..4f7d61b 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -41,10 +41,10 @@ class MplPainter(Painter):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 2, 1, 2, 1, 2)),
     }
 
     ##############################################
@@ -81,9 +81,11 @@ class MplPainter(Painter):
     ##############################################
 
     def _add_path(self, item, vertices, codes):
+        if not self.is_stroked(item):
+            return
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From 1e6c1df817b4537bb9f2ef7dac75a75b7deccada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 107/149] fix: PDF export of scenes (default driver, scale,
 graphic styles)

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 32 ++++++++++++++---------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..55bb857 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -71,10 +71,10 @@ class ReportlabPainter(PdfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: (),
-        StrokeStyle.DashLine: (), # Fixme: ???
+        StrokeStyle.DashLine: (6, 3),
         StrokeStyle.DotLine: (1, 2),
-        StrokeStyle.DashDotLine: (6, 3),
-        StrokeStyle.DashDotDotLine: (), # Fixme: ???
+        StrokeStyle.DashDotLine: (6, 3, 1, 3),
+        StrokeStyle.DashDotDotLine: (6, 3, 1, 3, 1, 3),
     }
 
     ##############################################
@@ -112,18 +112,16 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def cast_position(self, position):
-        return super().cast_position(position) * cm * .7 # Fixme:
+        return super().cast_position(position) * cm
 
     ##############################################
 
     def _set_graphic_style(self, item):
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
-        self._canvas.setStrokeColor(color)
+        self._canvas.setStrokeColor(str(path_syle.stroke_color))
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
-        self._canvas.setDash(*line_style)
-        line_width = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        self._canvas.setLineWidth(line_width)
+        self._canvas.setDash(list(line_style))
+        self._canvas.setLineWidth(path_syle.line_width_as_float) # pt
 
     ##############################################
 
@@ -137,6 +135,7 @@ class ReportlabPainter(PdfPainterBase):
     def paint_CircleItem(self, item):
         position = self.cast_position(item.position)
         self._canvas.saveState()
+        self._canvas.setStrokeColor('black')
         self._canvas.setFillColor('black')
         self._canvas.circle(position.x, position.y, 2*mm, fill=1)
         self._canvas.restoreState()
@@ -144,14 +143,22 @@ class ReportlabPainter(PdfPainterBase):
     ##############################################
 
     def paint_SegmentItem(self, item):
-        # self._set_graphic_style(item)
+        if not self.is_stroked(item):
+            return
+        self._canvas.saveState()
+        self._set_graphic_style(item)
         self._canvas.line(*self.cast_item_coordinates(item, flat=True))
+        self._canvas.restoreState()
 
     ##############################################
 
     def paint_CubicBezierItem(self, item):
-        # self._set_graphic_style(item)
+        if not self.is_stroked(item):
+            return
+        self._canvas.saveState()
+        self._set_graphic_style(item)
         self._canvas.bezier(*self.cast_item_coordinates(item, flat=True))
+        self._canvas.restoreState()
 
 ####################################################################################################
 
@@ -161,6 +168,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From ede0ebf623844132081b064992dea3557ab3c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 108/149] fix: TeX export of scenes (colours, line styles,
 invisible lines, scope transformation, file name)

---
 Patro/GraphicEngine/Painter/TexPainter.py | 7 ++++++-
 Patro/GraphicEngine/TeX/Document.py       | 9 ++++-----
 Patro/GraphicEngine/TeX/Tikz.py           | 6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..44fd203 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -98,9 +98,10 @@ class TexPainter(Painter):
 
     def _format_position(self, position):
         if isinstance(position, str):
+            # Note: the scope transformation is applied to the coordinate
             return '(' + position + ')'
         elif isinstance(position, Vector2D):
-            return '({0.x:.2f},{0.y:.2f})'.format(position)
+            return '({0.x:.2f},{0.y:.2f})'.format(self.cast_position(position))
 
     ##############################################
 
@@ -131,6 +132,8 @@ class TexPainter(Painter):
     ##############################################
 
     def paint_SegmentItem(self, item):
+        if not self.is_stroked(item):
+            return
         style = TikzFigure.format_path_style(item.path_style)
         coordinates = [self._format_position(position) for position in item.positions]
         self._figure.append(r'\draw[{0}] {1} -- {2};'.format(style, *coordinates) + '\n')
@@ -138,6 +141,8 @@ class TexPainter(Painter):
     ##############################################
 
     def paint_CubicBezierItem(self, item):
+        if not self.is_stroked(item):
+            return
         style = TikzFigure.format_path_style(item.path_style)
         coordinates = [self._format_position(position) for position in item.positions]
         self._figure.append(r'\draw[{0}] {1} .. controls {2} and {3} .. {4};'.format(style, *coordinates) + '\n')
diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..5b75760 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -40,9 +40,8 @@ class Document:
 
     def __init__(self, filename, class_name, class_options=''):
 
-        # Fixme: Path, vs path
-
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        filename = str(filename)
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
@@ -60,7 +59,7 @@ class Document:
 
     @property
     def output_directory(self):
-        return os.path.dirname(self._tex_filename())
+        return os.path.dirname(self.tex_filename)
 
     @property
     def pdf_filename(self):
@@ -104,7 +103,7 @@ class Document:
 
     def write(self):
 
-        with open(self.tex_filename, 'w') as fd:
+        with open(self.tex_filename, 'w', encoding='utf-8') as fd:
             fd.write(str(self))
 
     ##############################################
diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..82bd642 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,6 +32,7 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid',
@@ -41,14 +42,15 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        stroke_color = path_syle.stroke_color
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
         if stroke_style is not None:
             styles.append(stroke_style)
         if stroke_color is not None:
-            styles.append(stroke_color)
+            # Note: xcolor doesn't know all the names
+            styles.append('color={{rgb,255:red,{0.red};green,{0.green};blue,{0.blue}}}'.format(stroke_color))
         return ', '.join(styles)
 
     ##############################################
-- 
2.43.0


From fcf8965ada2a39bc990b0df2fb9bc34ec1559f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 109/149] fix: TeX document in landscape orientation

---
 Patro/GraphicEngine/Painter/TexPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index 44fd203..eadf295 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -41,7 +41,7 @@ _preambule = r'''
 
 \usepackage[%
 paper=«0.paper_name»,%
-%landscape,
+«0.orientation»,%
 %includeheadfoot,%
 margin=«0.margin»mm,%
 headsep=0cm, footskip=0cm,%
@@ -82,6 +82,10 @@ class TexPainter(Painter):
     def paper_name(self):
         return self._paper.name.lower() + 'paper'
 
+    @property
+    def orientation(self):
+        return self._paper.orientation
+
     @property
     def margin(self):
         return self._paper.margin
-- 
2.43.0


From 006732ed19c73f049afe27ac2b4bc2788d56ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:05 +0000
Subject: [PATCH 110/149] fix: clockwise arcs of DXF polylines

---
 Patro/FileFormat/Dxf/Polyline.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..e00c970 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -103,7 +102,7 @@ class PolylineVertex:
     ##############################################
 
     def __str__(self):
-        return '({0.x:5.2f} {0.y:5.2f} {0._bulge:5.2f})'.format(self)
+        return '({0.x:5.2f} {0.y:5.2f} {0.bulge:5.2f})'.format(self)
 
     ##############################################
 
@@ -130,12 +129,13 @@ class PolylineVertex:
         if self._bulge == 0:
             return 0
         else:
-            return self.demi_chord/2 * (self._bulge + 1/self._bulge)
+            return self.demi_chord/2 * abs(self._bulge + 1/self._bulge)
 
     ##############################################
 
     @property
     def sagitta_dual(self):
+        # Note: sign is the one of the bulge if |bulge| < 1
         if self._bulge == 0:
             return 0
         else:
@@ -189,7 +189,7 @@ class Polyline:
     ##############################################
 
     def __str__(self):
-        return ' '.join(['{:5.2f}'.format(vertex) for vertex in self])
+        return ' '.join([str(vertex) for vertex in self])
 
     ##############################################
 
@@ -212,7 +212,8 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
+                # offset is signed, center is left of line if 0 < bulge < 1
+                center = segment_center + normal * offset
                 arc = Circle2D(center, vertex1.bulge_radius)
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
-- 
2.43.0


From bafa6314f2cf3c9b8ced96bc8582cea4bddf2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 111/149] fix: import of DXF splines and ellipse arcs

---
 Patro/FileFormat/Dxf/Importer.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..f4603c9 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -28,6 +28,8 @@ __all__ = ['DxfImporter']
 
 ####################################################################################################
 
+import numpy as np
+
 import ezdxf # Python packahe to read/write DXF
 
 from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D, AngularDomain
@@ -77,6 +79,20 @@ class DxfImporter:
 
     ##############################################
 
+    @staticmethod
+    def _to_knots(knots, degree, number_of_points):
+        """Return None if the knots are uniform and clamped, up to the parametrisation"""
+        knots = [float(x) for x in knots]
+        if not knots:
+            return None
+        uniform_knots = BSpline2D.uniform_knots(degree, number_of_points)
+        scale = (knots[-1] - knots[0]) / uniform_knots[-1]
+        if np.allclose(knots, [knots[0] + x * scale for x in uniform_knots], rtol=0, atol=1e-9 * scale):
+            return None
+        return knots
+
+    ##############################################
+
     def _add(self, item):
         self._items.append(item)
 
@@ -105,7 +121,6 @@ class DxfImporter:
         segment = Segment2D(*self._to_vectors((item_dxf.start, item_dxf.end)))
         self._add(segment)
 
-
     ##############################################
 
     def _on_circle(self, item, is_arc):
@@ -128,12 +143,11 @@ class DxfImporter:
         major_axis = self._to_vector(item_dxf.major_axis)
         minor_axis = major_axis * item_dxf.ratio
         domain = AngularDomain(item_dxf.start_param, item_dxf.end_param, degrees=False)
+        if domain.is_clockwise:
+            # a DXF ellipse is always drawn counterclockwise
+            domain.stop += 360
         radius_x, radius_y = major_axis.magnitude, minor_axis.magnitude
         angle = major_axis.orientation
-        if angle == 90:
-            radius_x, radius_y = radius_y, radius_x
-            angle = 0
-        # Fixme: ...
         ellipse = Ellipse2D(
             center,
             radius_x, radius_y,
@@ -156,8 +170,8 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
-        item_dxf = item.dxf
-        spline = BSpline2D(points, item_dxf.degree, item.closed)
+        points = self._to_vectors(item.control_points)
+        degree = item.dxf.degree
+        knots = self._to_knots(item.knots, degree, len(points))
+        spline = BSpline2D(points, degree, item.closed, knots)
         self._add(spline)
-- 
2.43.0


From 0c4d865166f469a400f5ca35db7b12f1bb8517cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 112/149] fix: import of DXF points

---
 Patro/FileFormat/Dxf/Importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index f4603c9..60f0f10 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -71,7 +71,8 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        # Note: an ezdxf Vec3 cannot be sliced
+        return Vector2D(point[0], point[1])
 
     @classmethod
     def _to_vectors(cls, points):
-- 
2.43.0


From 5cf79fa1f150986b48f358c970e3a424d3c3a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 113/149] fix: loading of the fibre database

---
 Patro/TextileTechnology/Fiber.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..64236fc 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -47,8 +47,8 @@ class Fiber:
 
         self._name = str(name)
         self._fiber_type = FiberType(fiber_type)
-        self._source_type = str(source_type)
-        self._source = str(source)
+        self._source_type = FiberType(source_type) if source_type is not None else None
+        self._source = str(source) if source is not None else None
 
     ##############################################
 
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
-            self.add(Fiber(name, FiberType.Synthetic, None, None))
+            self.add(Fiber(name, FiberType.Synthetic, None, (item or {}).get('source', None)))
-- 
2.43.0


From 057c8e8ec56c14e9078280a642ea5480792ef834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 114/149] fix: conversion of yarn units to tex, yarn without
 twist

---
 Patro/TextileTechnology/Yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Yarn.py b/Patro/TextileTechnology/Yarn.py
index b77e202..2e32f37 100644
--- a/Patro/TextileTechnology/Yarn.py
+++ b/Patro/TextileTechnology/Yarn.py
@@ -30,13 +30,13 @@ def tex2den(x):
     return x*9
 
 def den2tex(x):
-    return x*10/9
+    return x/9
 
 def tex2nm(x):
     return 1000/x
 
 def nm2tex(x):
-    return 1000*x
+    return 1000/x
 
 ####################################################################################################
 
@@ -66,7 +66,7 @@ class Yarn:
         self._fiber = str(fiber) # composition ?
         self._color = color # Fixme: multicolor ? data type ?
         self._tex = float(tex) # g/km
-        self._twist_type = TwistType(twist_type)
+        self._twist_type = TwistType(twist_type) if twist_type is not None else None
 
     ##############################################
 
-- 
2.43.0


From 42af8b6429d769d4f0a58fc99e3ba66219638eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:10 +0000
Subject: [PATCH 115/149] fix: fabric constructor, name of seams, size of
 needles

---
 Patro/TextileTechnology/Fabric.py        | 2 +-
 Patro/TextileTechnology/Seam.py          | 2 +-
 Patro/TextileTechnology/SewingMachine.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/TextileTechnology/Fabric.py b/Patro/TextileTechnology/Fabric.py
index 9f6926a..4fab543 100644
--- a/Patro/TextileTechnology/Fabric.py
+++ b/Patro/TextileTechnology/Fabric.py
@@ -100,7 +100,7 @@ class Fabric:
         self._shear = float(kwargs['shear'])
         self._fiction = float(kwargs['friction'])
         self._weight = float(kwargs['weight'])
-        self._shrinkage = FloatPair(kwargs.get('shrinkage', (0, 0)))
+        self._shrinkage = FloatPair(*kwargs.get('shrinkage', (0, 0)))
         self._pressure = float(kwargs['pressure'])
 
         # texture attributes
diff --git a/Patro/TextileTechnology/Seam.py b/Patro/TextileTechnology/Seam.py
index 76585aa..dbcdb62 100644
--- a/Patro/TextileTechnology/Seam.py
+++ b/Patro/TextileTechnology/Seam.py
@@ -52,4 +52,4 @@ class AstmSeam:
 
     @property
     def name(self):
-        return '{self._class}{self._type}-{self._number_of_rows}'.format(self)
+        return '{0._class}{0._type}-{0._number_of_rows}'.format(self)
diff --git a/Patro/TextileTechnology/SewingMachine.py b/Patro/TextileTechnology/SewingMachine.py
index 0f1ff8d..ea4d51b 100644
--- a/Patro/TextileTechnology/SewingMachine.py
+++ b/Patro/TextileTechnology/SewingMachine.py
@@ -138,7 +138,7 @@ class Needle:
 
     @property
     def size(self):
-        return self._size
+        return self._nm_size
 
     @property
     def multiplicity(self):
-- 
2.43.0


From 476d9fddddd615175143f28dabfe0220bc36d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 116/149] fix: loading of the stitch database

---
 Patro/TextileTechnology/StitchType.py | 36 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Patro/TextileTechnology/StitchType.py b/Patro/TextileTechnology/StitchType.py
index 3a961cd..414740b 100644
--- a/Patro/TextileTechnology/StitchType.py
+++ b/Patro/TextileTechnology/StitchType.py
@@ -46,14 +46,21 @@ class StitchType:
         self._number = int(number) # cf. ISO 4915:1991
         self._name = str(name)
 
-        self._number_of_needles = int(number_of_needles)
-        self._number_of_threads = int(number_of_threads)
-        self._number_of_loops = int(number_of_loops) # looper
+        self._number_of_needles = self._to_int(number_of_needles)
+        self._number_of_threads = self._to_int(number_of_threads)
+        self._number_of_loops = self._to_int(number_of_loops) # looper
 
         # a 3D model and SVG projection, with a color per thread
 
     ##############################################
 
+    @staticmethod
+    def _to_int(value):
+        # could be unknown
+        return int(value) if value is not None else None
+
+    ##############################################
+
     @property
     def number(self):
         return self._number
@@ -86,17 +93,18 @@ class StitchDatabase(Database):
 
         data = super().load(yaml_path)
 
-        self._introduction = data['introduction']
-        classes =  data['classes']
+        self._introduction = data['Introduction']
+        classes =  data['Classes']
 
-        for classe_name, stitch_classe in classes.items():
-            name = stitch_classe['name']
-            description = stitch_classe['description']
+        for stitch_classe in classes.values():
             for stitch_number, stitch_data in stitch_classe['stitches'].items():
                 if stitch_data is not None:
-                    name = stitch_data['name']
-                    number_of_needles = stitch_data.get('number_of_needles', None)
-                    number_of_threads = stitch_data.get('number_of_threads', None)
-                    number_of_loops = stitch_data.get('number_of_loops', None)
-                    composition = stitch_data.get('composition', None)
-                    astm = stitch_data.get('astm', None)
+                    # Note: the names are not unique
+                    # Fixme: composition astm
+                    self._items[stitch_number] = StitchType(
+                        stitch_number,
+                        stitch_data['name'],
+                        stitch_data.get('number_of_needles', None),
+                        stitch_data.get('number_of_threads', None),
+                        stitch_data.get('number_of_loops', None),
+                    )
-- 
2.43.0


From b367f24c0ec3b1e473421a2cab6d8b545c642acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 117/149] fix: pen of invisible items, filled items and texts
 in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..f77b240 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -222,17 +222,18 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
 
         # print(item, color, line_style)
-        if color is None or line_style is StrokeStyle.NoPen:
+        if color is None or line_style == Qt.NoPen:
             # invisible item
-            pen = QPen(Qt.NoPen)
+            # Note: else it would be painted using the pen of the previous item
+            self._painter.setPen(Qt.NoPen)
             # print('Warning Pen:', item, item.user_data, color, line_style)
             return None
         else:
@@ -468,6 +469,8 @@ class QtPainter(Painter):
         # height = font_metrics.height()
         # width = font_metrics.width(item.text)
 
+        # Fixme: text style
+        self._painter.setPen(QColor('red' if item.selected else 'black'))
         self._painter.setFont(qfont)
         self._painter.drawText(position, item.text)
 
-- 
2.43.0


From 3f083ad168fc1cd5054fa01733137bcdf8fb6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 118/149] fix: curves and closure of path items in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index f77b240..7437a2e 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -448,11 +448,11 @@ class QtPainter(Painter):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = self.cast_item_positions(segment)
                 method(*positions)
 
-        # if item.it_closed:
-        #     path.closeSubpath()
+        if item.is_closed:
+            path.closeSubpath()
 
         self._painter.drawPath(path)
 
-- 
2.43.0


From 7fd40ce422e91a4d1eca0e1809e2160d7c89c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 119/149] fix: scope transformation applied twice on quadratic
 curves in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7437a2e..93cee7d 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -380,7 +380,8 @@ class QtPainter(Painter):
 
     def paint_QuadraticBezierItem(self, item):
 
-        vertices = [self.cast_position(position) for position in item.cubic_positions]
+        # Note: the scope transformation is already applied
+        vertices = [self.scene_to_viewport(position) for position in item.cubic_positions]
         self._paint_cubic(item, vertices)
 
     ##############################################
-- 
2.43.0


From 57debd52aeecb2b6fd8b2e8d0bd102c4d63f792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:51 +0000
Subject: [PATCH 120/149] fix: rotation of ellipses in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 93cee7d..fd42b21 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -342,8 +342,15 @@ class QtPainter(Painter):
 
         pen = self._set_pen(item)
 
-        # Fixme: angle !!!
-        self._paint_arc(item, center, radius_x, radius_y)
+        if item.angle:
+            self._painter.save()
+            self._painter.translate(center)
+            # Note: Qt rotates clockwise
+            self._painter.rotate(-item.angle)
+            self._paint_arc(item, QPointF(0, 0), radius_x, radius_y)
+            self._painter.restore()
+        else:
+            self._paint_arc(item, center, radius_x, radius_y)
 
     ##############################################
 
-- 
2.43.0


From 2ac6ed27fbd101edc128dae27366ebd418ee572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 121/149] fix: SVG export by Qt painter (crash, orientation)

---
 Patro/GraphicEngine/Painter/QtPainter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index fd42b21..4965fbc 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -142,8 +142,10 @@ class QtPainter(Painter):
         self._scale = scale
 
         bounding_box = self._scene.bounding_box
-        size = QSize(*[x*self._scale for x in bounding_box.size])
-        view_box = QRectF(*[x*self._scale for x in bounding_box.rect])
+        width, height = [x*self._scale for x in bounding_box.size]
+        # Note: the vertical axis is downward in Qt
+        view_box = QRectF(bounding_box.x.inf*self._scale, -bounding_box.y.sup*self._scale, width, height)
+        size = QSize(math.ceil(width), math.ceil(height))
         generator.setSize(size)
         generator.setViewBox(view_box)
 
@@ -178,7 +180,7 @@ class QtPainter(Painter):
         return None
 
     def scene_to_viewport(self, position):
-        return QPointF(position.x * self._scale, position.y * self._scale)
+        return QPointF(position.x * self._scale, -position.y * self._scale)
 
         # Note: painter.scale apply to text as well
 
-- 
2.43.0


From 88542334cc911cd76154d93aebdf58e7a3010eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 122/149] fix: scene set before the size of the viewport

---
 Patro/GraphicEngine/Painter/QtPainter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 4965fbc..cc426f6 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -538,7 +538,11 @@ class ViewportArea:
         # self._height = geometry.height()
         self._viewport_size = self._to_np_array(geometry.width(), geometry.height())
         if self:
-            self._update_viewport_area()
+            if self._center is None:
+                # the scene was set before the size
+                self.fit_scene()
+            else:
+                self._update_viewport_area()
 
     ##############################################
 
@@ -632,7 +636,8 @@ class ViewportArea:
     def fit_scene(self):
 
         # Fixme: AttributeError: 'NoneType' object has no attribute 'center'
-        if self:
+        # and the viewport could have no size yet
+        if self and self._viewport_size is not None and self._viewport_size.all():
             center = self._to_np_array(self.scene_area.center)
             scale, axis = self._compute_scale_to_fit_scene()
             self.zoom_at(center, scale)
-- 
2.43.0


From 36a14f966b7be51ef11f9a8f3094c988f53b71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 123/149] fix: quadratic segments of path items in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index cc426f6..7735435 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -453,7 +453,7 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
-- 
2.43.0


From 53eedf5e538b3a5e58546f37b5db535998112877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 124/149] fix: size of images in Qt painter

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7735435..a75f78f 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -404,7 +404,8 @@ class QtPainter(Painter):
     def paint_ImageItem(self, item):
 
         vertices = self.cast_item_positions(item)
-        rec = QRectF(vertices[0], vertices[1])
+        # Note: Qt expects a positive size
+        rec = QRectF(vertices[0], vertices[1]).normalized()
 
         image = item.image
         height, width, bytes_per_line = image.shape
-- 
2.43.0


From 442c052b1dd8045be30a493ba2336e36227c689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 125/149] fix: crash of Qt when a scene cannot be exported to
 SVG

---
 Patro/GraphicEngine/Painter/QtPainter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index a75f78f..36329cc 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -151,10 +151,12 @@ class QtPainter(Painter):
 
         painter = QPainter()
         painter.begin(generator)
-        self.paint(painter)
-        painter.end()
-
-        self._scale = None
+        try:
+            self.paint(painter)
+        finally:
+            # Note: Qt crashes if the device is deleted while it is painted
+            painter.end()
+            self._scale = None
 
     ##############################################
 
-- 
2.43.0


From b0a4716be5305063583eb1a80dbc65adae2e1705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:41 +0000
Subject: [PATCH 126/149] fix: removal of the scene of a Qt view

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 36329cc..7da2fe2 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -555,7 +555,7 @@ class ViewportArea:
 
     @scene.setter
     def scene(self, value):
-        if not isinstance(value, GraphicScene):
+        if not (value is None or isinstance(value, GraphicScene)):
             raise ValueError
         self._scene = value
 
-- 
2.43.0


From af70c7090e76850b2e1e94878d5b3952788182fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 127/149] fix: platform on machines without CPU frequency,
 number of cores

---
 Patro/Common/Platform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Patro/Common/Platform.py b/Patro/Common/Platform.py
index c1242b1..95e3450 100644
--- a/Patro/Common/Platform.py
+++ b/Patro/Common/Platform.py
@@ -62,7 +62,8 @@ class Platform:
         self.cpu = self._get_cpu()
         self.number_of_cores = self._get_number_of_cores()
         self.cpu_khz = self._get_cpu_khz()
-        self.cpu_mhz = int(self._get_cpu_khz()/float(1000)) # rint
+        # undefined on some architectures
+        self.cpu_mhz = None if self.cpu_khz is None else int(self.cpu_khz/float(1000)) # rint
 
         # RAM
         self.memory_size_kb = self._get_memory_size_kb()
@@ -89,8 +90,8 @@ class Platform:
         if self.os == PlatformType.Linux:
             with open('/proc/cpuinfo', 'rt') as cpuinfo:
                 for line in cpuinfo:
-                    if 'model name' in line:
-                        s = line.split(':')[1]
+                    if line.startswith('model name'):
+                        s = line.split(':', 1)[1]
                         return s.strip().rstrip()
 
         elif self.os == PlatformType.Windows:
@@ -104,7 +105,7 @@ class Platform:
             number_of_cores = 0
             with open('/proc/cpuinfo', 'rt') as cpuinfo:
                 for line in cpuinfo:
-                    if 'processor' in line:
+                    if line.startswith('processor'):
                         number_of_cores += 1
             return number_of_cores
 
-- 
2.43.0


From 4aefd88c5ee766b23cb6b1b599cb6a4dc3a386b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 128/149] fix: Qt message sent from a file whose path is not
 ASCII

---
 Patro/QtApplication/QmlApplication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/QtApplication/QmlApplication.py b/Patro/QtApplication/QmlApplication.py
index 2f9ab08..2c11f21 100644
--- a/Patro/QtApplication/QmlApplication.py
+++ b/Patro/QtApplication/QmlApplication.py
@@ -200,7 +200,10 @@ class Application(QObject):
 
         # local_msg = msg.toLocal8Bit()
         # localMsg.constData()
-        context_file = context.file
+        try:
+            context_file = context.file
+        except UnicodeDecodeError: # PyQt decodes the path as ASCII
+            context_file = None
         if context_file is not None:
             file_path = Path(context_file).name
         else:
-- 
2.43.0


From 0c24286529c23ad3893ace016d04b6333e0c42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 129/149] fix: painting of a Qt view whose scene was removed

---
 Patro/GraphicEngine/Painter/QtPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7da2fe2..4cd766f 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -161,7 +161,7 @@ class QtPainter(Painter):
     ##############################################
 
     def paint(self, painter):
-        if bool(self):
+        if self._scene is not None:
             self._logger.info('Start painting')
             self._painter = painter
             if self._show_grid:
-- 
2.43.0


From 3a01e2f98f8b1d6fb9efbb5dbda59d9855ba4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 130/149] fix: axes of a self-intersecting polygon

---
 Patro/GeometryEngine/Polygon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 29bcab4..a4678af 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -106,10 +106,10 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         # self._cross = None
         self._barycenter = None
 
-        # self._major_axis_angle = None
+        self._major_axis_angle = None
         self._major_axis = None
-        # self._minor_axis = None
-        # self._axis_ratio = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
@@ -124,7 +124,10 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._area = None
         self._is_clockwise = None
         self._barycenter = None
+        self._major_axis_angle = None
         self._major_axis = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
-- 
2.43.0


From 0f64efaeca78a84d4b639718477be37696706c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 131/149] fix: sides of a curvy arrow head are mirrored by its
 axis

---
 Patro/GeometryEngine/Shape/ArrowHead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Shape/ArrowHead.py b/Patro/GeometryEngine/Shape/ArrowHead.py
index 0c875f9..286f846 100644
--- a/Patro/GeometryEngine/Shape/ArrowHead.py
+++ b/Patro/GeometryEngine/Shape/ArrowHead.py
@@ -270,7 +270,7 @@ class TriangularCurvyHead(TriangularHeadMixin, Path2D):
     def right_curved_point(self):
         if self._right_side:
             direction = self.right_point - self.tip_point
-            return (self.right_point + self.tip_point) / 2 - direction.normal * self._curve_depth
+            return (self.right_point + self.tip_point) / 2 + direction.normal * self._curve_depth
         else:
             return None
 
-- 
2.43.0


From 8efdc5912ba61446258b386d0db9b7b9b7cb10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 132/149] fix: weight and fractional coordinates of homogeneous
 vectors are kept

---
 Patro/GeometryEngine/Transformation.py |  4 +++-
 Patro/GeometryEngine/Vector.py         | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f764fdf..bd17a31 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -423,7 +423,9 @@ class AffineTransformation2D(AffineTransformation):
 
         if isinstance(obj, HomogeneousVector2D):
             array = np.matmul(self._m, obj.v)
-            return obj.__class__(array)
+            vector = obj.__class__(array)
+            vector.w = array[2]
+            return vector
         elif isinstance(obj, Vector2D):
             array = np.matmul(self._m, HomogeneousVector2D(obj).v)
             # return HomogeneousVector2D(array).to_vector()
diff --git a/Patro/GeometryEngine/Vector.py b/Patro/GeometryEngine/Vector.py
index 4ae22e4..58cd1fd 100644
--- a/Patro/GeometryEngine/Vector.py
+++ b/Patro/GeometryEngine/Vector.py
@@ -619,7 +619,7 @@ class HomogeneousVector2D(Vector2D):
     def __init__(self, vector) -> None:
         # self._v = np.ones((3), dtype=self.__data_type__)
         # self._v[:2] = vector.v[:2]
-        self._v = np.array(vector[:2])   # to keep compatibility
+        self._v = np.array(vector[:2], dtype=self.__data_type__)   # to keep compatibility
         self._w = 1
 
     ##############################################
@@ -642,5 +642,13 @@ class HomogeneousVector2D(Vector2D):
 
     ##############################################
 
+    def clone(self) -> 'HomogeneousVector2D':
+        """ Return a copy of self """
+        obj = self.__class__(self._v)
+        obj._w = self._w
+        return obj
+
+    ##############################################
+
     def to_vector(self) -> 'Vector2D':
         return Vector2D(self._v)
-- 
2.43.0


From 607e351e857821338d66648404e8399fd7c39184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:36 +0000
Subject: [PATCH 133/149] fix: a radius on a straight corner gives no bulge
 instead of NaN

---
 Patro/FileFormat/Svg/SvgFormat.py         |  4 ++--
 Patro/GeometryEngine/Path.py              | 16 +++++++++++++---
 Patro/GraphicEngine/GraphicScene/Scene.py |  6 +++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 0e9592e..61b2c06 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1069,7 +1069,7 @@ class PathDataAttribute(StringAttribute):
         for part in path:
             if isinstance(part, LinearSegment):
                 start_point, stop_point = part.points
-                if part.radius is not None:
+                if part.has_bulge:
                     if part.index == 0:
                         # path is closed by a bulge
                         commands = [('M', list(start_point))]
@@ -1085,7 +1085,7 @@ class PathDataAttribute(StringAttribute):
 
         if path.is_closed:
             start_part = path.start_segment
-            if isinstance(start_part, LinearSegment) and start_part.radius is not None:
+            if isinstance(start_part, LinearSegment) and start_part.has_bulge:
                 commands.append(bulge_command(start_part, start_part.points[0]))
             else:
                 # Z draw the last segment
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 32b722c..5d433ac 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -272,13 +272,13 @@ class LinearSegment(PathPart):
     @property
     def points(self):
 
-        if self._radius is not None:
+        if self.has_bulge:
             start_point = self.bulge_stop_point
         else:
             start_point = self.start_point
 
         next_part = self.next_part
-        if isinstance(next_part, LinearSegment) and next_part.radius is not None:
+        if isinstance(next_part, LinearSegment) and next_part.has_bulge:
             stop_point = next_part.bulge_start_point
         else:
             stop_point = self.stop_point
@@ -301,6 +301,16 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    @property
+    def has_bulge(self):
+        """True if the segment starts by a bulge, a straight corner hasn't one"""
+        if self._radius is None:
+            return False
+        prev_direction, direction = self.prev_part.direction, self.direction
+        return not (prev_direction.dot(direction) > 0 and abs(prev_direction.cross(direction)) < 1e-9)
+
+    ##############################################
+
     @property
     def direction(self):
         # Note: it depends of the previous parts, which can be modified, thus it isn't cached
@@ -1097,7 +1107,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
-            if isinstance(item, LinearSegment) and item.radius is not None:
+            if isinstance(item, LinearSegment) and item.has_bulge:
                 # a bulge can go beyond the segments
                 arc = item.bulge_geometry
                 for angle in (0, 90, 180, 270):
diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 6f438d0..6f42035 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -430,7 +430,7 @@ class GraphicSceneScope:
         for index, segment in enumerate(path):
             points = list(segment.points)
             if isinstance(segment, Path.LinearSegment):
-                if segment.radius is not None and index:
+                if segment.has_bulge and index:
                     add_bulge(segment)
                 item.line_to(points[1])
             elif isinstance(segment, (Path.QuadraticBezierSegment, Path.StringedQuadtraticBezierSegment)):
@@ -446,7 +446,7 @@ class GraphicSceneScope:
 
         if path.is_closed:
             start_segment = path.start_segment
-            if isinstance(start_segment, Path.LinearSegment) and start_segment.radius is not None:
+            if isinstance(start_segment, Path.LinearSegment) and start_segment.has_bulge:
                 add_bulge(start_segment)
             item.close()
 
@@ -522,7 +522,7 @@ class GraphicSceneScope:
             if isinstance(segment, Path.LinearSegment):
                 # if segment._start_radius is True:
                 #     continue
-                if segment.radius is not None:
+                if segment.has_bulge:
                     add_bulge(segment)
                 # if segment._closing is True:
                 #     start_segment = path.start_segment
-- 
2.43.0


From f8a0f222729adb074a74720e8d0d164b929e2d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:10 +0000
Subject: [PATCH 134/149] fix: closest point of a cubic curve reduced to a
 point, roots of a constant

---
 Patro/Common/Math/Root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 9391b05..ffa4df8 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -132,7 +132,10 @@ def fifth_root_normalised(a, b, c, d, e):
 def fifth_root(*args):
     # Fixme: RuntimeWarning: divide by zero encountered in double_scalars
     a = args[0]
-    if a == 0:
+    if not any(args[:-1]):
+        # constant, as for a cubic
+        return []
+    elif a == 0:
         return fifth_root_sympy(*args)
     else:
         return fifth_root_normalised(*[x/a for x in args[1:]])
-- 
2.43.0


From 703d41f58f90fa4cd82d6a757298a05b4eed1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:30 +0000
Subject: [PATCH 135/149] fix: names of regular polygons were shifted by one,
 NameError for the large ones

---
 Patro/GeometryEngine/Polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index a4678af..0dd565a 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -687,10 +687,10 @@ class RegularPolygon(Polygon2D):
 
     @classmethod
     def ngon_name(cls, number_of_edges):
-        try:
-            return cls.NGON_NAMES[number_of_edges]
-        except IndexError:
-            return self.LARGE_NGON_NAMES.get(number_of_edges, None)
+        if 1 <= number_of_edges <= len(cls.NGON_NAMES):
+            return cls.NGON_NAMES[number_of_edges -1]
+        else:
+            return cls.LARGE_NGON_NAMES.get(number_of_edges, None)
 
     @property
     def str_name(self):
-- 
2.43.0


From 62ecdac806b80f62ec8b91824d783f1a28aa9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:11 +0000
Subject: [PATCH 136/149] fix: a rejected operation leaves its id and a node in
 the graph of the sketch

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 10 ++++++++++
 Patro/Pattern/Pattern.py                   |  5 +++++
 Patro/Pattern/SketchOperation.py           |  8 ++++++++
 Patro/Pattern/__init__.py                  |  7 ++++++-
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index fb14d11..6c44dbb 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -139,6 +139,16 @@ class DirectedAcyclicGraph:
 
     ##############################################
 
+    def remove_node(self, node_id):
+
+        node = self._nodes.pop(node_id)
+        for ancestor in list(node.ancestors):
+            node.disconnect_ancestor(ancestor)
+        for descendant in list(node.descendants):
+            descendant.disconnect_ancestor(node)
+
+    ##############################################
+
     def add_edge(self, ancestor, descendant):
         descendant.connect_ancestor(ancestor)
 
diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index e9cb43b..f307d80 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -54,6 +54,11 @@ class OperationIds:
 
     ##############################################
 
+    def remove(self, id):
+        self._ids.remove(id)
+
+    ##############################################
+
     def new(self):
         id = self._last_id + 1
         self.add(id)
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index 179e7b5..66829ef 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -96,6 +96,14 @@ class SketchOperation(ObjectCkeckedIdMixin):
 
     ##############################################
 
+    def cancel(self):
+        """Release the id and the DAG node of an operation which is rejected, e.g. for an unknown point."""
+        if hasattr(self, '_dag_node'): # else the id itself is rejected
+            self._sketch.pattern.operation_ids.remove(self._id)
+            self._dag.remove_node(pyid(self))
+
+    ##############################################
+
     @property
     def sketch(self):
         return self._sketch
diff --git a/Patro/Pattern/__init__.py b/Patro/Pattern/__init__.py
index 0eb902d..011fbac 100644
--- a/Patro/Pattern/__init__.py
+++ b/Patro/Pattern/__init__.py
@@ -44,7 +44,12 @@ for operation_cls in _sketch_operations:
 
     def _make_function(operation_cls):
         def function(self, *args, **kwargs):
-            sketch_operation = operation_cls(self, *args, **kwargs)
+            sketch_operation = operation_cls.__new__(operation_cls)
+            try:
+                sketch_operation.__init__(self, *args, **kwargs)
+            except Exception:
+                sketch_operation.cancel()
+                raise
             self._add_operation(sketch_operation)
             return sketch_operation
         return function
-- 
2.43.0


From 535a531f06bdaf31080548c782e013a0ee1deed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:29 +0000
Subject: [PATCH 137/149] fix: a dash array none or inherit of a SVG element

---
 Patro/FileFormat/Svg/SvgFormat.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 61b2c06..6dc1174 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -301,6 +301,30 @@ class PercentLengthAttribute(InheritAttribute):
 
 ####################################################################################################
 
+class DashArrayAttribute(FloatListAttribute):
+
+    # 'none' is not the same as undefined: a dash array is inherited
+
+    ##############################################
+
+    @classmethod
+    def from_xml(cls, value):
+        if value in ('none', 'inherit'):
+            return value
+        else:
+            return super().from_xml(value)
+
+    ##############################################
+
+    @classmethod
+    def to_xml(cls, value):
+        if isinstance(value, str):
+            return value
+        else:
+            return super().to_xml(value)
+
+####################################################################################################
+
 class ColorMixin:
 
     __attributes__ = (
@@ -317,7 +341,7 @@ class StrokeMixin:
         StringAttribute('stroke_line_join', 'stroke-linejoin'),
         NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
-        FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
+        DashArrayAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
 
     LINE_CAP_STYLE = (
-- 
2.43.0


From 7da94e391e1803e7f0d77e0926d1687498d761e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 138/149] fix: a comment in the measurements of a vit file

---
 Patro/FileFormat/Valentina/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 4167daf..53da5e2 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -107,8 +107,8 @@ class VitFileInternal(XmlFileMixin):
             personal.gender = Gender[(self.get_text_element(personal_element, 'gender') or 'unknown').upper()]
             personal.email = self.get_text_element(personal_element, 'email') or ''
 
-        elements = self.get_xpath_element(tree, 'body-measurements')
-        for element in elements:
+        # skip comments
+        for element in self.get_xpath_elements(tree, 'body-measurements/*'):
              if element.tag == XmlMeasurement.__tag__:
                  xml_measurement = XmlMeasurement(element)
                  measurements.add(**xml_measurement.to_dict())
-- 
2.43.0


From 89989dc9b43f0e24226d5a1f11b8fcf42cda5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:26 +0000
Subject: [PATCH 139/149] fix: Bezier curves of a closed spline

---
 Patro/GeometryEngine/Spline.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 7fe98cf..36c92f7 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -262,10 +262,8 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
     @property
     def number_of_spans(self):
         if self._uniform:
-            count = self.number_of_points - self._degree
-            if self._closed:
-                count += 1
-            return count
+            # Note: a closed spline is clamped as well
+            return self.number_of_points - self._degree
         else:
             # multiplicity
             raise NotImplementedError
-- 
2.43.0


From 70a09ed94234baa303d33a93d7ac930c204c1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:28 +0000
Subject: [PATCH 140/149] fix: a bulge between two identical vertices of a DXF
 polyline

---
 Patro/FileFormat/Dxf/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index e00c970..67b7904 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -206,7 +206,7 @@ class Polyline:
         items = []
         for vertex1, vertex2 in self.iter_on_segment():
             segment = Segment2D(vertex1.point, vertex2.point)
-            if vertex1.bulge:
+            if vertex1.bulge and vertex1.point != vertex2.point: # else a null segment
                 segment_center = segment.center
                 direction = vertex1.segment_vector.normalise()
                 normal = direction.normal
-- 
2.43.0


From 2cc3fb79408a385a216fcdd296f2784428c401d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:46 +0000
Subject: [PATCH 141/149] fix: import of a DXF spline defined by its fit points

---
 Patro/FileFormat/Dxf/Importer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 60f0f10..e225344 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -171,8 +171,14 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        points = self._to_vectors(item.control_points)
-        degree = item.dxf.degree
-        knots = self._to_knots(item.knots, degree, len(points))
+        if item.control_point_count():
+            points, degree, knots = item.control_points, item.dxf.degree, item.knots
+        else:
+            # only defined by the fit points
+            tool = item.construction_tool()
+            points, degree, knots = tool.control_points, tool.degree, tool.knots()
+
+        points = self._to_vectors(points)
+        knots = self._to_knots(knots, degree, len(points))
         spline = BSpline2D(points, degree, item.closed, knots)
         self._add(spline)
-- 
2.43.0


From 0008b0bc997e03e421eb230dbf4b6ee4673cbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:18 +0000
Subject: [PATCH 142/149] fix: the insertion of a knot opened a closed spline

---
 Patro/GeometryEngine/Spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index 36c92f7..b99d3a7 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -420,7 +420,7 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         # l += degree
         knots = self._knots[:l+1] + [t] + self._knots[l+1:]
 
-        return self.__class__(new_points, self._degree, knots=knots)
+        return self.__class__(new_points, self._degree, closed=self._closed, knots=knots)
 
     ##############################################
 
-- 
2.43.0


From 1f3a1b2faaa182071c6d1e8eaf053e15e3a606eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:40 +0000
Subject: [PATCH 143/149] fix: closure of a path which is closed or whose first
 part is a curve

---
 Patro/GeometryEngine/Path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 5d433ac..1ed10d9 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1181,7 +1181,12 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         # Fixme: identify as close for SVG export <-- meaning ???
 
+        if self._is_closed:
+            return None
+
         closing = close_radius is not None
+        if closing and self._parts and not isinstance(self.start_segment, LinearSegment):
+            raise ValueError('First path segment must be linear')
         segment = self._add_part(PathSegment, self._p0, radius, absolute=True, closing=closing)
         if closing:
             self.start_segment.close(close_radius)
-- 
2.43.0


From 5f8c2a29a7416a3329916872a94d46afeae42c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 144/149] fix: a rejected transformation of a circle or a path
 modified it

---
 Patro/GeometryEngine/Conic.py | 5 +++--
 Patro/GeometryEngine/Path.py  | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index f75385d..48f8e93 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -142,6 +142,8 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     def apply_transformation(self, transformation):
         center = transformation * self._center
         # Fixme: shear -> ellipse
+        # Note: a sheared transformation must be rejected before to change the circle
+        radius = transformation * self._radius if self._radius is not None else None
         if self._domain is not None:
             start_vector, stop_vector = [transformation * point - center
                                          for point in (self.start_point, self.stop_point)]
@@ -151,8 +153,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             start = (stop_vector if x_vector.cross(y_vector) < 0 else start_vector).orientation
             self._domain = AngularDomain(start, start + self._domain.stop - self._domain.start)
         self._center = center
-        if self._radius is not None:
-            self._radius = transformation * self._radius
+        self._radius = radius
 
     ##############################################
 
diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1ed10d9..4692e31 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1074,6 +1074,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         # self._logger.info(str(self) + '\n' + str(transformation.type) + '\n' + str(transformation) )
 
+        # A bulge cannot be sheared, it must be rejected before to change the path
+        for part in self._parts:
+            if isinstance(part, LinearSegment) and part.radius is not None:
+                transformation * part.radius
+
         for part in self._parts:
             # print(part)
             if isinstance(part, DirectionalSegmentMixin):
-- 
2.43.0


From c52919ffb0c04bec50a8f657fae28669e85c589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:41 +0000
Subject: [PATCH 145/149] fix: colour strings with signs or spaces were
 accepted

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 442896d..78399df 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -29,6 +29,7 @@ __all__ = ['Color', 'ColorDataBase']
 ####################################################################################################
 
 import colorsys
+from string import hexdigits
 from typing import Iterator
 
 ####################################################################################################
@@ -72,7 +73,8 @@ class Color:
                 if not rgb.startswith('#'):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
-                if len(rgb) != 6:
+                # Note: int also accepts a sign, spaces and underscores
+                if len(rgb) != 6 or not all(x in hexdigits for x in rgb):
                     raise ValueError(f'Invalid color #{rgb}')
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
                 self._red, self._green, self._blue = [self._to_float(int(x, 16))
-- 
2.43.0


From c323092e15f5cf452d118fb182da67106d605b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:15 +0000
Subject: [PATCH 146/149] fix: the domain of a spline which is not clamped was
 wrong

---
 Patro/GeometryEngine/Spline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index b99d3a7..23e58e9 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -243,14 +243,16 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
         if self._uniform:
             return 0
         else:
-            return self._knots[0]
+            # first knot if clamped
+            return self._knots[self._degree]
 
     @property
     def end_knot(self):
         if self._uniform:
             return self.number_of_points - self._degree
         else:
-            return self._knots[-1]
+            # last knot if clamped
+            return self._knots[self.number_of_points]
 
     @property
     def knot_iter(self):
-- 
2.43.0


From 2919af3ff3b88e893e4351384ce4a7cc3fc6cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:22 +0000
Subject: [PATCH 147/149] fix: views on an image, and RGBA images, were not
 painted

---
 Patro/GraphicEngine/Painter/QtPainter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 4cd766f..748fdd9 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -409,10 +409,12 @@ class QtPainter(Painter):
         # Note: Qt expects a positive size
         rec = QRectF(vertices[0], vertices[1]).normalized()
 
-        image = item.image
-        height, width, bytes_per_line = image.shape
-        bytes_per_line *= width
-        qimage = QImage(image, width, height, bytes_per_line, QImage.Format_RGB888)
+        # Note: Qt requires contiguous pixels, the image can be a view on a larger one
+        image = np.ascontiguousarray(item.image)
+        height, width, number_of_channels = image.shape
+        bytes_per_line = number_of_channels * width
+        image_format = QImage.Format_RGBA8888 if number_of_channels == 4 else QImage.Format_RGB888
+        qimage = QImage(image, width, height, bytes_per_line, image_format)
 
         self._painter.drawImage(rec, qimage)
 
-- 
2.43.0


From 041ea2e3646ee9cd88545a8116e537f76fc55141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:54 +0000
Subject: [PATCH 148/149] fix: the presentation attributes of the SVG root were
 not inherited

---
 Patro/FileFormat/Svg/SvgFile.py   | 2 ++
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 35741eb..d5e7493 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -350,6 +350,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
 
         svg_root = self._dispatcher.from_xml(tree)
         self.on_svg_root(svg_root)
+        # the style of the root is inherited by the items
+        self._dispatcher.state.merge(svg_root)
 
         self._dispatcher.on_root(tree)
 
diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 6dc1174..212e6c5 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -598,7 +598,7 @@ class SvgElementMixin(IdMixin, StyleMixin, TransformMixin):
 #
 ####################################################################################################
 
-class Svg(PositionMixin, SizeMixin, XmlObjectAdaptator):
+class Svg(PositionMixin, SizeMixin, FontMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
 
     """Creates an SVG document fragment"""
 
-- 
2.43.0


From 023f04d2c099243ec1c24521acdea6c8e03c9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:09 +0000
Subject: [PATCH 149/149] fix: multiple roots of polynomials with float
 coefficients could be lost

---
 Patro/Common/Math/Root.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index ffa4df8..010020b 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -32,6 +32,7 @@ __all__ = [
 
 ####################################################################################################
 
+from fractions import Fraction
 from math import acos, cos, pi, sqrt
 
 try:
@@ -89,7 +90,18 @@ def cubic_root(a, b, c, d):
 def x_symbol():
     return sympy.Symbol('x', real=True)
 
+def exact_coefficient(coefficient):
+    # the simplest fraction which has the value of the float, e.g. 1/10 for .1
+    value = float(coefficient)
+    exact_value = Fraction(value)
+    fraction = exact_value.limit_denominator(10**12)
+    if float(fraction) != value:
+        fraction = exact_value
+    return sympy.Rational(fraction.numerator, fraction.denominator)
+
 def real_roots(expression, x):
+    # sympy rounds the floats, this can lose a multiple root
+    expression = expression.xreplace({i:exact_coefficient(i) for i in expression.atoms(sympy.Float)})
     return [i.n() for i in sympy.real_roots(expression, x)]
 
 ####################################################################################################
-- 
2.43.0

