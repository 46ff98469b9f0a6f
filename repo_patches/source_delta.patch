From 5fb405f51217145ae2152603a75e1f5ba3dde31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 01/24] fix: Line.intersects compared against other.p1 twice
 and never reported a crossing

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..5ab4d68 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -122,7 +122,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From e31a0f55c542ed949d1142ab4a2aa69d219c2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 02/24] fix: equilateral_triangle rotated the centroid about
 the origin

---
 utils/cg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 5ab4d68..bd5f9e0 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -204,13 +204,13 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
     if not rot:
-        return triangle
+        return np.array(centroid) + triangle
     c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
+    return np.array(centroid) + np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
                      [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
                      [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
 
-- 
2.43.0


From 2747a02619d5f3be5a4b358c6a6d30888c3fb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 03/24] fix: dilated starshaped polygon used a boundary ray
 length that may not reach its boundary

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..0820a78 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From f994eab5ef0e9ce3b5f5a61eb24bfd6999ccb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 04/24] fix: Ellipse kernel was None when asked before the
 polygon

---
 obstacles/ellipse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..14a6f7f 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -207,6 +207,8 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
+        if self._polygon is None:
+            self._compute_polygon_representation()
         self._kernel = self._polygon
 
     def _compute_polygon_representation(self):
-- 
2.43.0


From 56ca9adae6067bc5baf0b383aa1b768329bba858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 05/24] fix: boundary points on the bounding box of a polygon
 were reported exterior

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From 9c80ed19a5a922a49f567990923212d4fc1288c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 06/24] fix: set_xr with safe_set called an obstacle method on
 the shapely kernel

---
 obstacles/starshaped_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..d3f5b89 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -2,6 +2,7 @@ from abc import abstractmethod
 import numpy as np
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
+from shapely import geometry as sh_geometry
 
 
 class StarshapedObstacle(Obstacle):
@@ -19,8 +20,8 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.intersects(sh_geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From e5286987bd2d42e0ee45d246438e12c75a036892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 07/24] fix: Interval velocity at exactly the final time used
 the wrong interval

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..ba1dda5 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From da2d830a204b6f6e97d2ca7a543c73c4628d2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 08/24] fix: generate_convex_polygon drew the heights from the
 box width

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bd5f9e0..5a45d8b 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -424,7 +424,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From 581d6904d849960389688f3ceddd564010ca7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 09/24] fix: Ellipse.line_intersection returned wrong points
 for steep lines, tangents beyond the segment and near-tangents

---
 obstacles/ellipse.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 14a6f7f..02bac2a 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -100,31 +100,29 @@ class Ellipse(StarshapedObstacle):
         l_right_obstacle = l1_obstacle if l0_obstacle[0] < l1_obstacle[0] else l0_obstacle
 
 
-        vertical_line = abs(l_right_obstacle[0]-l_left_obstacle[0]) < 1e-4
-        if not vertical_line:
-            # Line parameters
-            m = (l_right_obstacle[1] - l_left_obstacle[1]) / (l_right_obstacle[0] - l_left_obstacle[0])
-            c = l_left_obstacle[1] - m * l_left_obstacle[0]
-            vertical_line = abs(m) > 100
-
-        # Special case with vertical line
-        if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
+        dx, dy = l_right_obstacle[0] - l_left_obstacle[0], l_right_obstacle[1] - l_left_obstacle[1]
+        if dx == 0 and dy == 0:
+            return []
 
+        # Special case with (almost) vertical line, parametrized as x = m*y+c
+        if abs(dy) > 100 * dx:
             l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
             l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
+            m = dx / dy
+            c = l_left_obstacle[0] - m * l_left_obstacle[1]
+            ky2 = self._a2[1] * m**2 + self._a2[0]
+            discriminant = ky2 - c**2
+            if discriminant < 0:
                 return []
+            y_mid = -self._a2[1] * m * c / ky2
+            y_diff = self._a[0] * self._a[1] * np.sqrt(discriminant) / ky2
+            y_intersect = [y_mid + y_diff, y_mid - y_diff] if discriminant > 0 else [y_mid]
+            return [self.transform(np.array([m * y + c, y]), Frame.OBSTACLE, output_frame)
+                    for y in y_intersect if l_bottom_obstacle[1] <= y <= l_top_obstacle[1]]
+
+        # Line parameters
+        m = dy / dx
+        c = l_left_obstacle[1] - m * l_left_obstacle[0]
 
         # obstacle ellipse coefficients at intersection with line m*x+c
         kx2 = self._a2[0] * m**2 + self._a2[1]
@@ -137,11 +135,13 @@ class Ellipse(StarshapedObstacle):
             return []
         elif discriminant == 0:
             tmp_x = -kx / (2 * kx2)
+            if tmp_x < l_left_obstacle[0] or l_right_obstacle[0] < tmp_x:
+                return []
             x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
             return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
         else:
             in_sqrt = kx ** 2 / (4 * kx2 ** 2) - k1 / kx2
-            if np.isclose(in_sqrt, 0):
+            if in_sqrt < 0:
                 in_sqrt = 0
             tmp_x = -kx / (2 * kx2) - np.sqrt(in_sqrt)
             x_intersect_left_obstacle = np.array([tmp_x, m * tmp_x + c])
-- 
2.43.0


From 19fd7e8f287d7ad5825b941001cdce7f62167ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 10/24] fix: Ellipse.tangent_points was inexact or undefined
 next to vertical tangents and mixed frames when ordering

---
 obstacles/ellipse.py | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 02bac2a..009ab2b 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -166,37 +166,16 @@ class Ellipse(StarshapedObstacle):
             return []
         px, py = x_obstacle
 
-        # Special case with vertical tangent
-        a2 = self._a**2
-        vertical_tangent = abs(a2[0] - px**2) < 1e-5
-        if vertical_tangent:
-            m2 = (py**2-a2[1]) / (2*px*py)
-            x2 = (px * m2 ** 2 - py * m2) / (a2[1] / a2[0] + m2 ** 2)
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([px, 0])
-            tp2_obstacle = np.array([x2, y2])
-        else:
-            tmp = px**2 - a2[0]
-            c1 = (px * py) / tmp
-            c2 = (a2[1] - py**2) / tmp
-            tmp = np.sqrt(c1**2+c2)
-            m1, m2 = c1 + tmp, c1 - tmp
-            tmp = a2[1] / a2[0]
-            m1_sqr = m1**2
-            m2_sqr = m2**2
-            x1 = (px * m1_sqr - py * m1) / (tmp + m1_sqr)
-            x2 = (px * m2_sqr - py * m2) / (tmp + m2_sqr)
-            y1 = m1 * (x1 - px) + py
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([x1, y1])
-            tp2_obstacle = np.array([x2, y2])
+        # Tangent points of the unit circle in the coordinates scaled by the semi-axes, clockwise as seen from x
+        ux, uy = px / self._a[0], py / self._a[1]
+        u2 = ux**2 + uy**2
+        tmp = np.sqrt(u2 - 1)
+        tp1_obstacle = np.array([self._a[0] * (ux + uy * tmp) / u2, self._a[1] * (uy - ux * tmp) / u2])
+        tp2_obstacle = np.array([self._a[0] * (ux - uy * tmp) / u2, self._a[1] * (uy + ux * tmp) / u2])
 
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
-            tp1, tp2 = tp2, tp1
-
         return [tp1, tp2]
 
     # def area(self):
-- 
2.43.0


From 30da0624d5ee844d633365555937f610f1a497ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 11/24] fix: convex_hull missed extreme points of collinear
 inputs and could loop forever on repeated points

---
 utils/cg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 5a45d8b..0d47b64 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -249,10 +249,14 @@ def convex_hull(points):
 
         for i in range(n):
 
-            # If i is more counterclockwise
-            # than current q, then update q
+            # If i is more counterclockwise than current q,
+            # or collinear and farther away, then update q
             if is_ccw(points[p], points[i], points[q]):
                 q = i
+            elif not is_cw(points[p], points[i], points[q]) and \
+                    (points[i][0]-points[p][0])**2 + (points[i][1]-points[p][1])**2 > \
+                    (points[q][0]-points[p][0])**2 + (points[q][1]-points[p][1])**2:
+                q = i
         '''
         Now q is the most counterclockwise with respect to p
         Set p as q for next iteration, so that q is added to
@@ -260,8 +264,8 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point
-        if (p == l):
+        # While we don't come to first point (or a copy of it)
+        if points[p][0] == points[l][0] and points[p][1] == points[l][1]:
             break
 
     return hull
-- 
2.43.0


From 86e5f0222c4b3e9ee1b0182726a93016912eee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 12/24] fix: Cone.polygon let rays end on the extension of a
 bounding box edge

---
 utils/cg.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 0d47b64..83f067b 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -296,6 +296,14 @@ class Cone:
     def __str__(self):
         return "Cone: ({:s}, {:s}, {:s})".format(str(self.apex), str(self.dir1), str(self.dir2))
 
+    # Intersection of a ray with a bounding box edge (not with its extension beyond the corners)
+    @staticmethod
+    def _bb_edge_intersection(ray, edge_idx):
+        ip = ray.ray_intersection(Cone.bb_edges[edge_idx])
+        if ip is None or max(abs(ip.x), abs(ip.y)) > (1 + 1e-9) * Cone.bb_width:
+            return None
+        return ip
+
     def polygon(self) -> shapely.geometry.Polygon:
 
         angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
@@ -319,22 +327,22 @@ class Cone:
         else:
             ray2_intersection_idx = 3
 
-        r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-        r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
+        r1_border = Cone._bb_edge_intersection(self.ray1, ray1_intersection_idx)
+        r2_border = Cone._bb_edge_intersection(self.ray2, ray2_intersection_idx)
         if r1_border is None:
             ray1_intersection_idx = (ray1_intersection_idx + 1) % 4
-            r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
+            r1_border = Cone._bb_edge_intersection(self.ray1, ray1_intersection_idx)
             if r1_border is None:
                 ray1_intersection_idx = (ray1_intersection_idx + 2) % 4
-                r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
+                r1_border = Cone._bb_edge_intersection(self.ray1, ray1_intersection_idx)
                 if r1_border is None:
                     print("SOMETHING WRONG!")
         if r2_border is None:
             ray2_intersection_idx = (ray2_intersection_idx + 1) % 4
-            r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
+            r2_border = Cone._bb_edge_intersection(self.ray2, ray2_intersection_idx)
             if r2_border is None:
                 ray2_intersection_idx = (ray2_intersection_idx + 2) % 4
-                r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
+                r2_border = Cone._bb_edge_intersection(self.ray2, ray2_intersection_idx)
                 if r2_border is None:
                     print("SOMETHING WRONG!")
 
-- 
2.43.0


From f8e66418574ddb19af4b4961a9cfc49be447eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 13/24] fix: Cone.intersection_same_apex was wrong for cones
 that share a ray

---
 utils/cg.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 83f067b..e428de0 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -364,6 +364,18 @@ class Cone:
         else:
             return not (is_ccw(self.apex, self.ray2.p2, x) and is_cw(self.apex, self.ray1.p2, x))
 
+    @staticmethod
+    def _same_dir(dir1, dir2):
+        return is_collinear([0, 0], dir1, dir2) and np.dot(dir1, dir2) > 0
+
+    # Is the direction in the cone, including the first but not the second direction of the cone
+    def _dir_in_cone(self, dir):
+        if Cone._same_dir(self.dir1, dir):
+            return True
+        if Cone._same_dir(self.dir2, dir):
+            return False
+        return self.point_in_cone(self.apex + dir)
+
     def intersection(self, other: 'Cone', same_apex: bool=False) -> shapely.geometry.Polygon:
         if same_apex:
             intersection_list = self.intersection_same_apex(other)
@@ -375,25 +387,21 @@ class Cone:
             return self.polygon().intersection(other.polygon())
 
     def intersection_same_apex(self, other: 'Cone') -> List['Cone']:
-        other_dir1_in_self = self.point_in_cone(other.apex+other.dir1)
-        other_dir2_in_self = self.point_in_cone(other.apex+other.dir2)
-        self_dir1_in_other = other.point_in_cone(self.apex+self.dir1)
-
-        if other_dir1_in_self and other_dir2_in_self:
-            # Check several cones
-            if self_dir1_in_other:
-                return [Cone(self.apex, self.dir1, other.dir2),
-                        Cone(self.apex, other.dir1, self.dir2)]
-            else:
-                return [other]
-        elif other_dir1_in_self:
-            return [Cone(self.apex, other.dir1, self.dir2)]
-        elif other_dir2_in_self:
-            return [Cone(self.apex, self.dir1, other.dir2)]
-        elif self_dir1_in_other:
-            return [self]
-        else:
-            return []
+        # Each part of the intersection starts at a first direction which is in the other cone
+        start_dirs = []
+        if other._dir_in_cone(self.dir1):
+            start_dirs += [self.dir1]
+        if self._dir_in_cone(other.dir1) and not Cone._same_dir(self.dir1, other.dir1):
+            start_dirs += [other.dir1]
+
+        # and ends at the second direction which is reached first
+        intersection_list = []
+        for dir1 in start_dirs:
+            cone = Cone(self.apex, dir1, self.dir2)
+            if cone._dir_in_cone(other.dir2):
+                cone = Cone(self.apex, dir1, other.dir2)
+            intersection_list += [cone]
+        return intersection_list
 
     @staticmethod
     def list_intersection(cones: List['Cone'], same_apex=False) -> shapely.geometry.Polygon:
-- 
2.43.0


From 13ce28c452721cf2dc78d50b4a5daf0f6683ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 14/24] fix: Polygon.line_intersection failed when the segment
 both crosses the boundary and runs along it

---
 obstacles/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..14903d6 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -84,6 +84,8 @@ class Polygon(Obstacle):
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for ip in intersection_points_shapely.coords]
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
+        elif intersection_points_shapely.geom_type == 'GeometryCollection':
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         else:
             print(intersection_points_shapely)
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
-- 
2.43.0


From c5dba2d747d020a97d0de94c95986b98b6c0d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 15/24] fix: hull line intersection returned None when the
 segment both crosses the hull and runs along it

---
 obstacles/starshaped_primitive_combination.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..bc6c30c 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -205,6 +205,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
+        elif intersection_points_shapely.geom_type == 'GeometryCollection':
+            return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         else:
             print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
             print(intersection_points_shapely)
-- 
2.43.0


From 276229a1740c76ca7ad09235bddb54f2d39cfb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 16/24] fix: cluster_and_starify reported intersecting clusters
 as complete when stopped by max_iterations

---
 starshaped_hull/cluster_and_starify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..8dc4e20 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -408,6 +408,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         n_iter += 1
 
         if n_iter >= max_iterations:
+            if intersection_exists:
+                if verbose:
+                    print("[Cluster and Starify]: Max iterations.")
+                return default_result()
             break
 
     # ----------- Make Convex ----------- #
-- 
2.43.0


From 7d79ded285db9d2b8315d688cb00f5dc51c2ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 17/24] fix: clusters kept their old polygon after being made
 convex, so that convex clusters could intersect

---
 starshaped_hull/cluster_and_starify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 8dc4e20..0c8d5e4 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -434,6 +434,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j]._polygon = None
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From 11d187385673cade4a21826be5313bebf2bac452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 18/24] fix: cluster_and_starify dropped the requested history
 when the convex hull stage ran out of time

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 0c8d5e4..d26d1fb 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -425,7 +425,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From d350122cbb6425a9b5f1669e7cece4106a9edea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 19/24] fix: MotionModel.set_pos kept the caller's object, so
 that moving changed it, or failed for lists and integers

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index ba1dda5..fe7521d 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -18,7 +18,7 @@ class MotionModel(ABC):
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From fc09402d0a3c43d2c9b2964d2ffbdbb8b58a470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 20/24] fix: the reference point of a combined obstacle could
 not be set before its polygon was asked for

---
 obstacles/starshaped_primitive_combination.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index bc6c30c..de32070 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -212,8 +212,9 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             print(intersection_points_shapely)
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        polygon = self.polygon(Frame.OBSTACLE)
+        self.vertices = np.array(polygon.exterior.coords[:-1])
+        self.circular_vertices = np.array(polygon.exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From 918dd42bfeb83a5563f5acbd25ff7106c1e096a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 21/24] fix: cone polygon border points lie exactly on their
 bounding box edge, also when a ray ends at a corner

---
 utils/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index e428de0..a3fd387 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -299,10 +299,11 @@ class Cone:
     # Intersection of a ray with a bounding box edge (not with its extension beyond the corners)
     @staticmethod
     def _bb_edge_intersection(ray, edge_idx):
-        ip = ray.ray_intersection(Cone.bb_edges[edge_idx])
+        edge = Cone.bb_edges[edge_idx]
+        ip = ray.ray_intersection(edge)
         if ip is None or max(abs(ip.x), abs(ip.y)) > (1 + 1e-9) * Cone.bb_width:
             return None
-        return ip
+        return Point(*np.clip(ip.xy, np.minimum(edge.p1.xy, edge.p2.xy), np.maximum(edge.p1.xy, edge.p2.xy)))
 
     def polygon(self) -> shapely.geometry.Polygon:
 
-- 
2.43.0


From cc8d22ccc8d3cbd9d5073327ad3628c99b2597eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 22/24] fix: convex_hull did not come to an end for points
 closer than the collinearity threshold resolves

---
 utils/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index a3fd387..faf6b8c 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -264,8 +264,8 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point (or a copy of it)
-        if points[p][0] == points[l][0] and points[p][1] == points[l][1]:
+        # While we don't come back to a point of the hull (the first one, up to the collinearity threshold)
+        if [points[p][0], points[p][1]] in hull:
             break
 
     return hull
-- 
2.43.0


From bf7bf0fae064053d36b5755819bb8e7ba6b2d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 23/24] fix: Ellipse has extreme_points, used by
 cluster_and_starify(exclude_obstacles=True)

The method is called on every obstacle to be excluded but only Polygon had it,
so that option raised AttributeError whenever an obstacle was an ellipse.
---
 obstacles/ellipse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 009ab2b..f8e92fc 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -50,6 +50,10 @@ class Ellipse(StarshapedObstacle):
         line_handles += [ax.text(*self._xr, self._name)] if show_name else [None]
         return line_handles, ax
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
+        return [vertices[i] for i in range(vertices.shape[0])]
+
     def update_plot(self, line_handles, frame=Frame.GLOBAL):
         pos, rot = self.pos(frame), self.rot(frame)
         line_handles[0].center = pos
-- 
2.43.0


From 045545dda35e34d72e8c150d93790828da7a38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 24/24] fix: compute_kernel_points no longer fails when the
 selection set has point or line parts

The intersection of the admissible kernel with the obstacles can be a
GeometryCollection that holds points or lines where they only touch; these
have no exterior, and shapely does not split such a collection.
---
 starshaped_hull/cluster_and_starify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index d26d1fb..927d3b9 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -109,6 +109,9 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
         tcss = tcss_tmp
+    # Leave out points and lines where the intersected sets only touch
+    if tcss.geom_type == 'GeometryCollection':
+        tcss = shapely.geometry.MultiPolygon([p for p in tcss.geoms if p.geom_type == 'Polygon'])
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
-- 
2.43.0

