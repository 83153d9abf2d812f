From 609e4bbadb3d4dbf0e1030c657cf5d1d50e7e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 01/33] fix: a point emptied after its validity was asked
 stayed valid (isvalid was cached)

---
 geometry/SR_point.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..009bc8a 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import math
-from cached_property import cached_property
 from geometry import _plotting_available, plt
 
 EMPTY = (None, None)
@@ -107,7 +106,7 @@ class Point(object):
     def distance(self, other):
         return distance(self, other)
 
-    @cached_property
+    @property
     def isvalid(self):
         """ checks for validity """
         if self._coords == EMPTY:
-- 
2.43.0


From d1ce30dc1f7e38727340077a5b8a90e7c38796ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 02/33] fix: opposite directions were missed when the angles
 differed by a rounding error

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..6ff9c55 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -229,7 +229,8 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
+        # the angles of antiparallel lines are subject to numerical error, the signs of the products are not
+        if self.is_parallel(other) and self.dotproduct(other) < 0:
             return True
         else:
             return False
-- 
2.43.0


From a7380c7b51126c44d3e9cae9d3ec1bb50d9183a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 03/33] fix: the angle between parallel lines raised when the
 cosine was rounded beyond 1

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 6ff9c55..c64d746 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -518,7 +518,8 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        # the quotient may leave [-1, 1] by a rounding error
+        _ret = degrees(acos(max(-1.0, min(1.0, self.dotproduct(other) / (self.norm * other.norm)))))
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From 935f3fbd34ba5f6b5e0983d2e52882d20498c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 04/33] fix: motions moved only one of two coincident vertices
 that are not one object

---
 geometry/SR_polygon.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..db8b23d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -308,6 +308,11 @@ class PolygonLine(object):
         return sorted(list(set(self.all_points)), key=lambda z: (z.x, z.y))
         # return sorted(list(set(itertools.chain(*[s.ij for s in self.segments]))), key=lambda z: (z.x, z.y))
 
+    @property
+    def _point_objects(self):
+        """ Each Point object of the segments once. Coincident but not identical Points are all in. """
+        return list({id(p): p for p in itertools.chain(*[s.ij for s in self.segments])}.values())
+
     @property
     def crossing_lines(self):
         """ gives a list of tuples of lines that cross each other """
@@ -565,7 +570,7 @@ class PolygonLine(object):
         _cp = math.cos(math.radians(phi))  # sin(phi) shorthand
         _sp = math.sin(math.radians(phi))  # cos(phi) shorthand
         self.purge()
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
             _c = tuple([round(x, int(PRECISION)) for x in _c])  # rounding to "PRRECISION" number of decimals
             _p._set_coords(coords=_c)
@@ -573,7 +578,7 @@ class PolygonLine(object):
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
         self.purge()
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
 
     def move(self, x0=None, y0=None):
@@ -581,7 +586,7 @@ class PolygonLine(object):
         self.purge()
         # for s in self._segments:
         #     s.move(x0=x0, y0=y0)
-        for _p in self.point_set:
+        for _p in self._point_objects:
             _p._set_coords(coords=(_p.x + x0, _p.y + y0))
 
     def rotate_about_xy(self, x0=None, y0=None, phi=None):
-- 
2.43.0


From 5b6ff790511a2dd781114ce3597e21e559cc4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 05/33] fix: ordered_copy returned the success of the ordering
 and lost the copy

---
 geometry/SR_polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index db8b23d..dcc63bb 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -184,9 +184,9 @@ class PolygonLine(object):
                 self.purged = True
 
     def ordered_copy(self):
-        import copy
-        _ = copy.deepcopy(self)
-        return _.order()
+        """ returns an ordered copy, False if the segments can not be ordered """
+        _ret = copy.deepcopy(self)
+        return _ret if _ret.order() else False
 
     def order(self):
         """
-- 
2.43.0


From 9a75302e7e5eb13ad8be8099f872f5c9d8dd8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 06/33] fix: orientation of concave polygons was told by
 counting turns, which is wrong for many outlines

---
 geometry/SR_polygon.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index dcc63bb..d7a5e9d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -469,17 +469,10 @@ class PolygonLine(object):
             else:
                 return True
 
-        else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+        else:  # positive and negative values mixed: the sign of the enclosed area decides, not the number of the turns
+            _o = self.first_point
+            _a = sum((s.i.x - _o.x) * (s.j.y - _o.y) - (s.i.y - _o.y) * (s.j.x - _o.x) for s in self.segments)
+            return _a < 0
 
     @property
     def isccw(self):
-- 
2.43.0


From 91ccc98bdc25ca9b0288e479eea7fee2bb424cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 07/33] fix: rays of the point in polygon test ended inside
 outlines with negative coordinates

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index d7a5e9d..054a034 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -492,12 +492,14 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        # the size of the polygon, its position doesn't tell anything about what is far enough
+        _d = max(_bb[0][1] - _bb[0][0], _bb[1][1] - _bb[1][0])
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                P = Point((random.uniform(_x + _d, _x + 500 * _d), random.uniform(_y + _d, _y + 30 * _d)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 4a23ecaed5f6d53f0b730cd35c6363a747fa43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 08/33] fix: no point was ever on the boundary of a polygon

---
 geometry/SR_polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 054a034..626f3d1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -535,8 +535,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From d05cbbb2b093de2c59082bfc57489e2ca2ec5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:21 +0000
Subject: [PATCH 09/33] fix: equal polygons had different hashes, as a
 generator object was hashed

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 626f3d1..d51050c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From 594959fd0da4d625dfcb1b0d8e77f08e0ac5c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 10/33] fix: the area of a triangle is the cross product of two
 sides, collinear points have none

---
 geometry/SR_polygon.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index d51050c..d7636bf 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1025,17 +1025,9 @@ class Triangle(PolygonLine):
 
     @property
     def area(self):
-        """ area by the Heron-formula """
-        s = sum([x.norm for x in self.segments]) / 2.
-        _segs = self.segments
-        discriminant = s * (s - _segs[0].norm) * (s - _segs[1].norm) * (s - _segs[2].norm)
-        try:
-            return math.sqrt(discriminant)
-        except ValueError:  # if the discriminant would be zero
-            if abs(discriminant) < EPS:
-                return 0
-            else:
-                raise
+        """ half of the cross product of two sides. The Heron-formula loses the zero of collinear points to rounding """
+        a, b = self.segments[0], self.segments[1]
+        return abs(a.crossproduct(b)) / 2.
 
     @property
     def quality(self):
-- 
2.43.0


From 83d4a0cd00ae63c67bdc407f628dcbab95c6c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 11/33] fix: triangles overlap exactly when no side separates
 them

---
 geometry/SR_polygon.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index d7636bf..97a5a86 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1072,31 +1072,23 @@ class Triangle(PolygonLine):
             return True
 
     def overlap(self, other):
-        """ partial or total overlap, works vica versa """
+        """ partial or total overlap, that is the interiors have common points. works vica versa """
         assert isinstance(self, Triangle) and isinstance(other, Triangle)
 
-        # some points of self are inside the other or vica versa
-        if any(self.is_internal_point(x) for x in other.point_set) or \
-                any(other.is_internal_point(x) for x in self.point_set):
-            return True
-
-        # there are intersecting lines but the intersection_point is not on an endpoint
-        _common_parts = set()
-        pairs = set()
-        for ss in self.segments:
-            for os in other.segments:
-                if (ss, os) not in pairs and (os, ss) not in pairs:
-                    pairs.add((ss, os))
-
-        for pair in pairs:
-            cp = pair[0].common_part(pair[1])
-            cp_type = pair[0].common_part_type(pair[1])
-            if cp_type == 'Point' and cp is not None and cp not in self.point_set + other.point_set:
-                _common_parts.add(cp)
-        if _common_parts:
-            return True
+        # the interiors of two triangles have no common point if and only if the line of one of the sides separates them
+        for a, b in ((self, other), (other, self)):
+            for side in a.segments:
+                _own = [side.crossproduct(LineSegment(side.i, x.i)) for x in a.segments]
+                _other = [side.crossproduct(LineSegment(side.i, x.i)) for x in b.segments]
+                _tol = 2 * EPS * side.norm  # the coordinates are rounded
+                if max(_own) > _tol:  # self is on the left
+                    _separated = max(_other) <= _tol
+                else:
+                    _separated = min(_other) >= -_tol
+                if _separated:
+                    return False
 
-        return False
+        return True
 
     def touch(self, other):
         """ whatever is found in common_part, the points are all on the boundary """
-- 
2.43.0


From f9865a45c14a46e9a9fc711cb1fee29a90d56636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 12/33] fix: area and triangles of a polygon follow changes of
 its outline

---
 geometry/SR_polygon.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 97a5a86..95451f1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -9,7 +9,6 @@ from geometry import _plotting_available, plt, PURGE
 import random
 import pprint as pp
 import collections
-from cached_property import cached_property
 
 
 TRIANGULATION_ALGORITHM = 'triangle'  # currently only triangle works
@@ -31,6 +30,8 @@ class PolygonLine(object):
         self._external_point = []
         self.purged = False
         self._triangles = set()
+        self._triangulated = None  # the outline the triangles were made for
+        self._area = None  # the outline and its area
         # self.delaunay = Delaunay2d(self)
 
     def __nonzero__(self):
@@ -98,6 +99,11 @@ class PolygonLine(object):
     def triangles(self):
         return self._triangles
 
+    @property
+    def _outline(self):
+        """ the coordinates of the segments """
+        return [(s.i.xy, s.j.xy) for s in self.segments]
+
     def _delete_triangles(self):
         self._triangles = set()
 
@@ -595,16 +601,22 @@ class PolygonLine(object):
         else:
             return False
 
-    @cached_property
+    @property
     def area(self):
         """
         checks for the results of three different ways to calculate the area and yields one
         """
-        if len(set(self.detailled_area.values())) == 1:
-            return self.detailled_area[TRIANGULATION_ALGORITHM]
+        _outline = self._outline
+        if self._area is not None and self._area[0] == _outline:  # unchanged since the last calculation
+            return self._area[1]
+
+        _areas = self.detailled_area
+        if len(set(_areas.values())) == 1:
+            self._area = (_outline, _areas[TRIANGULATION_ALGORITHM])
+            return self._area[1]
 
         else:
-            pp.pprint(self.detailled_area)
+            pp.pprint(_areas)
             import time
             time.sleep(0.5)
 
@@ -669,7 +681,9 @@ class PolygonLine(object):
         if algorithm == 'random':
             algorithm = random.choice(['delaunay', 'ear clipping', 'triangle'])
 
-        if not self.triangles or force:  # if previously not triangulated or is forced to recalculate
+        # if previously not triangulated, changed since then or is forced to recalculate
+        if not self.triangles or force or self._triangulated != self._outline:
+            self._triangulated = self._outline
             if algorithm is not None:
                 if algorithm == 'delaunay':
                     self.triangulate_delaunay()
-- 
2.43.0


From bfb9e04d899944f13e59c85885c79ce8cdc7566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 13/33] fix: loose equality of polygons compares every segment
 once and takes the direction into account

---
 geometry/SR_polygon.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 95451f1..dcfa068 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -72,22 +72,17 @@ class PolygonLine(object):
         if len(self.segments) != len(other.segments):
             return False
 
-        segment_loose_equality = False  # segment loose equality
-        if direction_matters:  # direction matters
-            if set(self.segments) == set(other.segments):
-                segment_loose_equality = True
-
-        else:  # whatever the direction
-            # we must find for ALL segments in self a segment in other that is loosely equal
-            segment_loose_equality = []
-            for x in self.segments:  # each segment in self
-                _eq = []
-                for y in other.segments:  # each segment in other
-                    # is there in other.segments, straight or reversed
-                    _eq.append(any([z.loose_equal(x) for z in [y, y.line_reversed]]))
-                segment_loose_equality.append(any(_eq))
-
-        return all(segment_loose_equality)
+        # we must find for ALL segments in self a segment of its own in other that is (loosely) equal
+        _others = list(other.segments)
+        for x in self.segments:
+            for k, y in enumerate(_others):
+                if (x == y) if direction_matters else x.loose_equal(y):
+                    _others.pop(k)
+                    break
+            else:
+                return False
+
+        return True
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 0d9ef42d8e92d3451771e203486262d550862914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 14/33] fix: the edge list of a group holds vertex numbers,
 points can not be sorted

---
 geometry/SR_polygon_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..b461750 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -267,8 +267,7 @@ class PolygonGroup(object):
     def as_edgelist(self):
         """ Prepares a list of segments, where each node has a separate value (int), to be used in MCB """
         _conn = self.points_numbered
-        # graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
-        graph = sorted([(s.i, s.j) for s in self.all_segments])
+        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
         return graph
 
     def as_adjacency_list(self, as_numbered=False):
-- 
2.43.0


From 9fe7b912dbbabb5d47dbd2e3e06a63b677107966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 15/33] fix: a group with a vertex of ten or more neighbours
 was valid

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index b461750..17a36a1 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -168,7 +168,7 @@ class PolygonGroup(object):
         #
         _al = self.as_adjacency_list(as_numbered=True)
         nd = {}
-        for n in range(10):
+        for n in range(max([4] + [len(x) for x in _al.values()]) + 1):
             nd[n] = sum([1 for x in _al.keys() if len(_al[x]) == n])
 
         if nd[0] > 0:  # has non-connected node
@@ -183,7 +183,7 @@ class PolygonGroup(object):
         elif nd[3] % 2 == 1:  # has odd number of branches
             print('has odd number of branches')
             _ret = False
-        elif sum([1 for x in range(4, 10) if nd[x] > 0]):  # has node with more than 3 edges connected
+        elif sum([1 for x in nd.keys() if x >= 4 and nd[x] > 0]):  # has node with more than 3 edges connected
             print('has node with more than 3 edges connected')
             _ret = False
         else:
-- 
2.43.0


From 536cbb5a8b888242f8e3c02b079d014e0389bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 16/33] fix: numbering the vertices of a group tied its
 polygons together

---
 geometry/SR_polygon_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 17a36a1..b0b89af 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -242,7 +243,8 @@ class PolygonGroup(object):
         This PolygonLine is not necessarily valid, but can be used as a Graph of the PolygonGroup
         """
         # _sum = sum([x.segments for x in self.polygons], [])
-        _sum = itertools.chain.from_iterable([x.segments for x in self.polygons])
+        # copies, as purging lets the segments share their points and moving one polygon would drag along the others
+        _sum = copy.deepcopy(list(itertools.chain.from_iterable([x.segments for x in self.polygons])))
         pl = PolygonLine(_sum)
         pl.purge()
         return pl
-- 
2.43.0


From cb7fca6b2d6225cf40581ec673503ee978f53620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 17/33] fix: the clockwise variant of an arc or of a closed
 ring of nodes had a chord from start to end

---
 geometry/SR_polygon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index dcfa068..da496e3 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1684,7 +1684,10 @@ def polygon_from_nodes(nodes, cw=False):
     # list of nodes
 
     if cw:
-        nodes = [nodes[0]] + nodes[::-1][:-1]  # reversed, keeping the first point
+        if Point(nodes[0]) == Point(nodes[-1]):  # already returns to the first point
+            nodes = nodes[::-1]
+        else:
+            nodes = [nodes[0]] + nodes[::-1][:-1]  # reversed, keeping the first point
 
     ps = []
     for n in nodes:
@@ -1738,7 +1741,7 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    pl = polygon_from_nodes(nodes=nodes[::-1] if cw else nodes)  # not a ring: reversed from end to start
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From 1a078ba1f927f1b89c9610453537d23eb76bd958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 18/33] fix: a room table was compared with the reference by
 the names of its own rooms

---
 SR_Vessel/SR_hauptteile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..39366b1 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -48,21 +48,21 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
             _raums.append(kk)
     _raums = list(set(itertools.chain.from_iterable(_raums)))
 
-    # the 'independent' values used for comparison
-    _iv = [chr(x) for x in range(97, min(123, 97+len(_raums)))]
+    # the values used for comparison: the ones in the reference
+    _iv = list(set(itertools.chain.from_iterable(vv for v in basedict.values() for vv in v.values())))
 
     # the pairs to be checked. one of these must yield the same as the dict used for testing
     # a list of dicts is created for this
-    pairs = [list(zip(x, _iv)) for x in itertools.permutations(_raums, len(_iv))]
+    pairs = [list(zip(x, _iv)) for x in itertools.permutations(_raums, len(_iv))
+             if len(_raums) == len(_iv)]
     _repldict = []
     for pair in pairs:
         _repldict.append({})
         for p in pair:
             _repldict[-1][p[0]] = p[1]
 
-    # converting the result dict once
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _adict = None
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From 944b44730de9138434aaa334f5517634ad24ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 19/33] fix: a line touching a sphere raised a NameError

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From 0d9e4499e236a30bdeeb02886a6494a6ea85e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 20/33] fix: a walk missed branches whose segments arrive at
 the point

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index da496e3..bfcf5a2 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1853,7 +1853,8 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
+        # any direction counts
+        if len([x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]) > 1:
             _has_branch = True
         _nextsegment = _nextsegment[0]
 
-- 
2.43.0


From 5f55b8c7ed2e6e73f552a734716389e6cf6b9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 21/33] fix: a walk from a point that no segment starts in
 failed

---
 geometry/SR_polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index bfcf5a2..a0acc57 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1844,7 +1844,8 @@ def walk_segments(segments=(), startingpoint=None):
 
     _has_branch = False
     _not_visited = set(copy.deepcopy(segments))
-    _aktsegment = [x for x in _not_visited if startingpoint == x.i][0]
+    # preferably a segment that starts in startingpoint
+    _aktsegment = sorted((x for x in _not_visited if startingpoint in x.ij), key=lambda x: startingpoint != x.i)[0]
     _visited = {_aktsegment}
     _aktpt = startingpoint
     while len(_not_visited) > 0:
@@ -1865,7 +1866,7 @@ def walk_segments(segments=(), startingpoint=None):
 
         # check if we have a branchless closed loop?
         segs = copy.deepcopy(_visited)
-        segs.add(_nextsegment)
+        segs.add(copy.deepcopy(_nextsegment))  # ordering may reverse it
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed and not _has_branch:
             return _poly
-- 
2.43.0


From 6ae6d923b9b6c55f9221b87a8f7b395dbf43d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 22/33] fix: finding the loops failed when all segments were
 used up

---
 geometry/SR_polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index a0acc57..94835ae 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1839,6 +1839,9 @@ def walk_segments(segments=(), startingpoint=None):
     The polygon doesn't have to be ordered, but needs to be closed to walk it.
     """
 
+    if not segments:  # nothing to walk
+        return False
+
     if startingpoint is None:
         startingpoint = segments[0].i
 
-- 
2.43.0


From b8b208fa1689c44f192970926a0ce695a45c515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 23/33] fix: loops with common segments reversed them in each
 other

---
 geometry/SR_polygon_group.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index b0b89af..27e6811 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -565,7 +565,7 @@ class BehalterGraph(PolygonGroup):
         _polygon = walk_segments(segments=graph)
         while _polygon and _polygon not in cycles:  # a loop without branch
             cycles.append(_polygon)  # returns just a polygon
-            graph = [x for x in graph if x not in _polygon.segments and x.line_reversed not in _polygon.segments]
+            graph = [x for x in graph if not any(x.loose_equal(y) for y in _polygon.segments)]
             _polygon = walk_segments(segments=graph)
 
         # some loops may have been found
@@ -583,7 +583,8 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                # the segments are part of other loops too, ordering must not reverse them there
+                _polygon = PolygonLine(copy.deepcopy(list(p)))
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
@@ -602,8 +603,7 @@ class BehalterGraph(PolygonGroup):
                     try:
                         next(branchpoints)
                     except StopIteration:  # a loop without branch was found, this can be removed.
-                        graph = [x for x in graph if x not in _polygon.segments]
-                        graph = [x for x in graph if x.line_reversed not in _polygon.segments]
+                        graph = [x for x in graph if not any(x.loose_equal(y) for y in _polygon.segments)]
                         continue
 
         polygons = sorted(cycles, key=lambda x: len(x.segments))
-- 
2.43.0


From 718556f7a9f8c5d0aba857e9631619cef535bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 24/33] fix: a skirt built from a description was a plain shell

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 39366b1..4ded0c8 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -628,7 +628,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From 100d72af87298c556de0a6a536ebe5f8c33f85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 25/33] fix: a skirt was never valid because of its lower wall

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 4ded0c8..464e733 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -698,7 +698,7 @@ class Mantel(Hauptteil):
     def isvalid(self):
 
         # checking if the graph is valid
-        _s = self.graph.segments  # shorthand
+        _s = [x for x in self.graph.segments if x.i.y != x.j.y]  # shorthand, without the lower wall of a StandZarge
         # two segments
         if len(_s) != 2:
             return False
-- 
2.43.0


From c1c732a5d0af53e2785489d1cf34e477bcc60161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 26/33] fix: shells were invalid when the numerical noise
 tilted their axis

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 464e733..91b9855 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -707,7 +707,7 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < 3 * EPS)  # axis vertical
         if not all(_ok):
             return False
 
-- 
2.43.0


From c3bb4c9be88c3c7bf87e9b6f67b19b1e4b8d45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 27/33] fix: the part below a knuckle was joined inside the
 knuckle's arc

KegelKrempe starts the part below at its second-to-last node. When the knuckle's
upper height is shorter than the arc that node lies inside the arc, so the shell
or skirt below overlapped the knuckle.
---
 SR_Vessel/SR_hauptteile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 91b9855..62e5ea3 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1098,6 +1098,8 @@ class KegelKrempe(Hauptteil):
             _kre_re = arc(P=_mp, r=self.r, alpha_start=360-winkel_unten, alpha_end=360-winkel_oben, n=KEGELKREMPE_SEGMENTS)
 
             _graphrep_re = [Wall(copy.deepcopy(_kre_re.first_point), copy.deepcopy(_kre_re.last_point))]
+            # the part below joins at the upper end of the arc, whether or not a straight piece follows
+            _anschluss = _kre_re.last_point
 
         else:
             _kre_re = []
@@ -1158,6 +1160,7 @@ class KegelKrempe(Hauptteil):
                 LineSegment(self.kegel.segments[1].i, _ips[1])
             ])
             _graphrep_re = [Wall(*x.ij) for x in _kre_re.segments]
+            _anschluss = _kre_re.last_segment.i
 
         _graphrep_li = copy.deepcopy(_graphrep_re)
         for w in _graphrep_li:
@@ -1205,8 +1208,8 @@ class KegelKrempe(Hauptteil):
         if self.ht_unten is not None:
             _ht = self.ht_unten
             p1 = Point((_ht.pos_h + _ht.d[0] / 2., _ht.pos_v))
-            p2 = Point(_kre_re.last_segment.i.xy)
-            p3 = Point(_kre_li.last_segment.i.xy)
+            p2 = Point(_anschluss.xy)
+            p3 = Point((2 * self.pos_h - _anschluss.x, _anschluss.y))
             p4 = Point((_ht.pos_h - _ht.d[0] / 2., _ht.pos_v))
             ri_vert = Wall(p1, p2)
             le_vert = Wall(p3, p4)
-- 
2.43.0


From 1b4465666fb40045a8916db926a554409a86930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 28/33] fix: building a knuckle failed where rounding moved its
 arc off the cone

make_segments asserted that the arc's rounded end points lie on the cone and the
shell to within the rounding of a single coordinate, so whether a knuckle could be
built depended on the place of the vessel.
---
 SR_Vessel/SR_hauptteile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 62e5ea3..1a2d548 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1171,8 +1171,15 @@ class KegelKrempe(Hauptteil):
         # checked is if this is true, in any order of ht_oben and ht_unten
         _fp = _kre_re.first_point
         _lp = _kre_re.last_point
-        _e = (x.segments[0].is_point_on_line(_fp) and x.segments[0].is_internal_point(_fp) for x in [self.kegel, self.ht_oben])
-        _z = (x.segments[0].is_point_on_line(_lp) and x.segments[0].is_internal_point(_lp) for x in [self.kegel, self.ht_oben])
+        # the coordinates are rounded, so the distance from the line counts, with a tolerance
+        def _liegt_auf(line, p):
+            _u = line.unitvector
+            _dx, _dy = p.x - line.i.x, p.y - line.i.y
+            return abs(_u[0] * _dy - _u[1] * _dx) < 10 * EPS and \
+                -10 * EPS < _u[0] * _dx + _u[1] * _dy < line.norm + 10 * EPS
+
+        _e = (_liegt_auf(x.segments[0], _fp) for x in [self.kegel, self.ht_oben])
+        _z = (_liegt_auf(x.segments[0], _lp) for x in [self.kegel, self.ht_oben])
         assert all(x or y for x, y in zip(_e, _z))
 
         # the arc on the 'left' side. This is done by copying the right side and mirroring
-- 
2.43.0


From ea7eef287c00e7dfef9f723fb6d0fe0c9b1ac96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 29/33] fix: rooms were lost when their area equals the sum of
 the areas of other rooms

---
 geometry/SR_polygon_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 27e6811..aceff8b 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -652,7 +652,10 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                        # the same area alone doesn't mean that the combination makes up p
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris) and \
+                                all(x[0].disjunct(x[1]) for x in itertools.combinations(comb, 2)):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 4ee4a066a921b899c4e74b9af837ff6389ef8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 30/33] fix: walls of adjacent outer rooms were listed among
 the inner walls of a room

---
 SR_Vessel/SR_hauptteile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 1a2d548..cb6392c 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -282,11 +282,14 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
+                    _contained = self.contained_cycles[c]
+                    _cycles_to_check = list(_contained)
                     # first, check the cycles that are overlapping (if any)
                     _iw = []  # innere Wandung
                     _visited = []
                     for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                        if not set(k).issubset(_contained):  # these are not in this room
+                            continue
                         # first run
                         if not _visited:
                             _iw.append([])
-- 
2.43.0


From 50bfa86d7c475ded88cc74bc6ec0b5dd636363ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 31/33] fix: a flat head was taken for a wall of every room
 that has its two end points

---
 geometry/SR_polygon_group.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index aceff8b..2ce85db 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -534,11 +534,12 @@ class BehalterGraph(PolygonGroup):
             # p.plot(show=True)
 
             # finding the polygons that make up a segment
-            # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
+            # loose_equal: during finding the cycles some PolyGonlines are generated, these have the same segments as
             # the originals but may be slightly different (order, direction etc.)
             # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
-            _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+            # common points are not enough: a Flachboden has its points in common with a Boden at the same place
+            _ret[k] = [x for x in self.polygons
+                       if any(y.loose_equal(z) for y in v.segments for z in x.segments)]
 
         return _ret
 
-- 
2.43.0


From ad590e7ad57648e91713a4199f5844a464d313f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 32/33] fix: PolygonLine.order: no limit of 250 segments

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 94835ae..2d53166 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -240,9 +240,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From 8bd4b93dac245ceb6bb27e8663e96db76b3c9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 33/33] fix: add: bridge the gaps between polylines, leave the
 polylines as they are

---
 geometry/SR_polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 2d53166..3009312 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1818,9 +1818,11 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
-    for s in other:
-        _sum += s.segments
+    _sum = copy.deepcopy(self.segments)  # the polylines remain as they are
+    for s in copy.deepcopy([x.segments for x in other]):
+        if _sum[-1].j != s[0].i:  # there is a gap
+            _sum.append(LineSegment(_sum[-1].j, s[0].i))
+        _sum += s
 
     _ret = PolygonLine(_sum)
     _ret.purge()
-- 
2.43.0

