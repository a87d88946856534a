From 6b229e1b35321edc67c2609aaf71ea3dd634b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 01/29] fix: respect a canvas top of zero when clipping
 infinite breakpoints

A max_y of 0 was treated as if there was none, so a breakpoint between sites
with the same y-coordinate got an infinite y-coordinate.
---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..590562c 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From b51cebb5a31b5185ddbf380ddf5f4e43700a5796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 02/29] fix: compute breakpoints with a radicand that cannot
 become negative

The expanded polynomial under the square root cancels catastrophically and
could become negative by rounding, which raised decimal.InvalidOperation.
---
 foronoi/nodes/breakpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 590562c..e42160e 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -98,10 +98,8 @@ class Breakpoint:
         else:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
-            # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
-                v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+            # Note that the part under the square root cannot be negative, as both points are above the sweep line
+            x = -(Decimal.sqrt(u * v * ((a - c) ** 2 + (b - d) ** 2)) + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0


From f253e623cbeceaa30cd14f01d64b5a54f1dd5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 03/29] fix: determine the orientation of a circle event's
 sites exactly

With nearly collinear sites the center of the circle is so far away that the
float angles are equal, and circle events were wrongly dropped or accepted.
---
 foronoi/graph/algebra.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/foronoi/graph/algebra.py b/foronoi/graph/algebra.py
index 0ed5ab5..aba0411 100644
--- a/foronoi/graph/algebra.py
+++ b/foronoi/graph/algebra.py
@@ -67,16 +67,9 @@ class Algebra:
 
     @staticmethod
     def check_clockwise(a, b, c, center):
-        angle_1 = Algebra.calculate_angle(a, center)
-        angle_2 = Algebra.calculate_angle(b, center)
-        angle_3 = Algebra.calculate_angle(c, center)
-
-        counter_clockwise = (angle_3 - angle_1) % 360 > (angle_3 - angle_2) % 360
-
-        if counter_clockwise:
-            return False
-
-        return True
+        # The points are on a circle around the center, so their order is the orientation of the triangle they form. The
+        # angles are not precise enough when the center is far away.
+        return (b.xd - a.xd) * (c.yd - a.yd) - (b.yd - a.yd) * (c.xd - a.xd) < 0
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ca54ca32e95ad81c5cd2ddc72b0c59f18ffd1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 04/29] fix: move all connected edges when combining vertices

The list of connected edges was changed while iterating over it, so half of the
edges kept pointing to the removed vertex.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From a802fd5cbeb8655ec886c7c781ce9e85737dd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 05/29] fix: never move the sweep line back up

The location of a circle event is rounded, and can end up slightly above the
sweep line that it was created at. Breakpoints are not defined for sites below
the sweep line.
---
 foronoi/algorithm.py                  | 2 +-
 foronoi/observers/voronoi_observer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..191d2e0 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -168,7 +168,7 @@ class Algorithm(Subject):
             # Handle circle events
             if isinstance(event, CircleEvent) and event.is_valid:
                 # Update sweep line position
-                self.sweep_line = event.yd
+                self.sweep_line = min(self.sweep_line, event.yd)
 
                 # Debugging
                 self.notify_observers(
diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..677307f 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -84,7 +84,7 @@ class VoronoiObserver(Observer, ABC):
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
             settings = Presets.construction
             settings.update(self.settings)
-            assert subject.sweep_line == subject.event.yd
+            assert subject.sweep_line <= subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-- 
2.43.0


From 40989db475ea038b30115b6c49a390ee679a06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/29] fix: clip half-infinite edges along their direction

Unfinished edges were cut at the location of the breakpoint at a fixed sweep
line, which may still lie inside the polygon or on the wrong side of the vertex
the edge starts in. Intersections in the corners or at the end of an edge were
missed because of rounding, and the index of the furthest intersection was taken
from a filtered list. The resulting cells had wrong areas.
---
 foronoi/graph/polygon.py | 136 ++++++++++++++++++++++++++++++++-------
 1 file changed, 111 insertions(+), 25 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..5a7aff1 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -1,3 +1,5 @@
+from decimal import Decimal
+
 from foronoi.graph import Coordinate, Vertex, HalfEdge
 from foronoi.graph.algebra import Algebra
 import numpy as np
@@ -42,6 +44,34 @@ class Polygon(Subject):
                            key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
         return clockwise
 
+    def _get_sides(self):
+        return list(zip(self.points, self.points[1:] + self.points[0:1]))
+
+    @property
+    def _tolerance(self):
+        # The distance under which two locations are considered to be the same
+        return max(self.max_x - self.min_x, self.max_y - self.min_y) * Decimal("1e-10")
+
+    @staticmethod
+    def _locate_on_side(point, a, b):
+        """
+        Locate a point with respect to the side from a to b.
+
+        Returns
+        -------
+        distance: Decimal
+            The distance between the point and the side
+        position: Decimal
+            The distance between a and the projection of the point on the side
+        length: Decimal
+            The length of the side
+        """
+        dx, dy = b.xd - a.xd, b.yd - a.yd
+        length = Decimal.sqrt(dx ** 2 + dy ** 2)
+        position = ((point.xd - a.xd) * dx + (point.yd - a.yd) * dy) / length
+        across = abs((point.xd - a.xd) * dy - (point.yd - a.yd) * dx) / length
+        return max(across, -position, position - length), position, length
+
     @staticmethod
     def _get_closest_point(position, points):
         distances = [Algebra.distance(position, p) for p in points]
@@ -131,15 +161,17 @@ class Polygon(Subject):
         """
         resulting_edges = list()
         for edge in edges:
+            clipped = []
 
             if edge.get_origin() is None or not self.inside(edge.get_origin()):
-                self._finish_edge(edge)
+                clipped.append(self._finish_edge(edge))
 
             if edge.twin.get_origin() is None or not self.inside(edge.twin.get_origin()):
-                self._finish_edge(edge.twin)
+                clipped.append(self._finish_edge(edge.twin))
 
             if edge.get_origin() is not None and edge.twin.get_origin() is not None:
                 resulting_edges.append(edge)
+                self.polygon_vertices.extend(half.origin for half in clipped)
             else:
                 edge.delete()
                 edge.twin.delete()
@@ -151,23 +183,56 @@ class Polygon(Subject):
         # Sweep line position
         sweep_line = self.min_y - abs(self.max_y)
 
-        # Start should be a breakpoint
+        # Start should be a breakpoint, or a vertex that is not inside
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start_infinite = edge.get_origin() is None
 
-        # End should be a vertex
+        # End should be a vertex, or a breakpoint if both sides still need to be finished
         end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end_infinite = not isinstance(edge.twin.origin, Vertex)
+
+        point = None
+
+        # If the twin could not be finished, then this edge does not have to be finished either
+        if isinstance(edge.origin, Vertex) and start is None or end is None:
+            pass
+        else:
+            if start_infinite and end_infinite:
+                i, j = edge.origin.breakpoint
+                end = Coordinate((i.xd + j.xd) / 2, (i.yd + j.yd) / 2)
+            elif end_infinite:
+                end = self._get_point_on_ray(edge.twin.origin.breakpoint, end, start)
+
+            if start_infinite:
+                start = self._get_point_on_ray(edge.origin.breakpoint, start, end)
 
-        # Get point of intersection
-        point = self._get_intersection_point(end, start)
+            # Get point of intersection
+            point = self._get_intersection_point(end, start, end_infinite, start_infinite)
 
         # Create vertex
-        v = Vertex(point.x, point.y) if point is not None else Vertex(None, None)
+        v = Vertex(point.xd, point.yd) if point is not None else Vertex(None, None)
         v.connected_edges.append(edge)
         edge.origin = v
-        self.polygon_vertices.append(v)
 
         return edge
 
+    @staticmethod
+    def _get_point_on_ray(breakpoint, location, orig):
+        """
+        Get a point on the ray that a breakpoint traces out from orig. This is the current location of the breakpoint,
+        unless the breakpoint is too close to orig, or has not passed it yet at this sweep line.
+        """
+        # The breakpoint (i, j) moves in the direction that has i on the right hand and j on the left hand
+        i, j = breakpoint
+        dx, dy = j.yd - i.yd, i.xd - j.xd
+
+        if location.yd.is_finite():
+            distance = (location.xd - orig.xd) * dx + (location.yd - orig.yd) * dy
+            if distance > dx ** 2 + dy ** 2:
+                return location
+
+        return Coordinate(orig.xd + dx, orig.yd + dy)
+
     def _on_edge(self, point):
         vertices = self.points + self.points[0:1]
         for i in range(0, len(vertices) - 1):
@@ -216,27 +281,48 @@ class Polygon(Subject):
 
         return inside
 
-    def _get_intersection_point(self, orig, end):
-        p = self.points + [self.points[0]]
-        points = []
+    def _get_intersection_point(self, orig, end, orig_infinite=False, end_infinite=False):
+        """
+        Get the intersection between the bounding polygon and the line segment from orig to end that is furthest away
+        from orig. The segment extends infinitely on the sides that are flagged as infinite.
+        """
+        dx, dy = end.xd - orig.xd, end.yd - orig.yd
+        length = Decimal.sqrt(dx ** 2 + dy ** 2)
+
+        furthest, point = None, None
 
-        point = None
+        for a, b in self._get_sides():
+
+            # Skip sides that are parallel
+            sx, sy = b.xd - a.xd, b.yd - a.yd
+            cross = dx * sy - dy * sx
+            if cross == 0:
+                continue
+
+            # The distance between orig and the point of intersection
+            distance = ((a.xd - orig.xd) * sy - (a.yd - orig.yd) * sx) / cross * length
+
+            # The intersection should be on the segment, and should not be the origin itself
+            if not orig_infinite and distance <= self._tolerance:
+                continue
+            if not end_infinite and distance > length + self._tolerance:
+                continue
 
-        for i in range(0, len(p) - 1):
-            intersection_point = Algebra.get_intersection(orig, end, p[i], p[i + 1])
-            if intersection_point:
-                points.append(intersection_point)
+            # The intersection should be on the side
+            exact = Coordinate(orig.xd + dx * distance / length, orig.yd + dy * distance / length)
+            if self._locate_on_side(exact, a, b)[0] > self._tolerance:
+                continue
 
-        if not points:
-            return None
+            if furthest is None or distance > furthest:
+                furthest = distance
 
-        max_distance = Algebra.distance(orig, end)
+                # Reuse the existing location if the segment ends here, or if this is a corner of the polygon
+                existing = [a, b] if end_infinite else [a, b, end]
+                existing = [i for i in existing if Algebra.distance(exact, i) <= self._tolerance]
+                point = existing[0] if existing else Algebra.get_intersection(orig, end, a, b)
 
-        # Find the intersection point that is furthest away from the start
-        if points:
-            distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
-            if distances:
-                point = points[np.argmax(distances)]
+                # Floating point numbers are not precise enough if orig is far away
+                if point is None or Algebra.distance(exact, point) > self._tolerance:
+                    point = exact
 
         return point
-- 
2.43.0


From 7d61abc433cc90b032ef6e20d89ba613627e9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 07/29] fix: handle voronoi vertices on the boundary of the
 polygon

Vertices exactly on the boundary were neither clipped nor kept consistently, and
vertices in the same direction from the center were connected in an arbitrary
order, which resulted in wrong cells or in borders that never close.
---
 foronoi/graph/polygon.py | 49 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 5a7aff1..105a991 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -40,9 +40,23 @@ class Polygon(Subject):
 
     def _get_ordered_vertices(self, vertices):
         vertices = [vertex for vertex in vertices if vertex.xd is not None]
-        clockwise = sorted(vertices,
-                           key=lambda vertex: (-180 - Algebra.calculate_angle(vertex, self.center)) % 360)
-        return clockwise
+        return sorted(vertices, key=self._get_perimeter_position)
+
+    def _get_perimeter_position(self, vertex):
+        """
+        Get the position of a vertex on the perimeter, so that sorting by this position results in a clockwise order.
+        Vertices in the same location are ordered by the direction of the edge they are connected to.
+        """
+        sides = [self._locate_on_side(vertex, a, b) for a, b in self._get_sides()]
+        index = min(range(0, len(sides)), key=lambda i: sides[i][0])
+        _, position, _ = sides[index]
+
+        if len(vertex.connected_edges) == 0:
+            return index, position, -1
+
+        a, b = self._get_sides()[index]
+        backward = Algebra.calculate_angle(a, b)
+        return index, position, (Algebra.calculate_angle(vertex.connected_edges[0].target, vertex) - backward) % 360
 
     def _get_sides(self):
         return list(zip(self.points, self.points[1:] + self.points[0:1]))
@@ -100,7 +114,14 @@ class Polygon(Subject):
         """
         vertices = self._get_ordered_vertices(self.polygon_vertices)
         vertices = list(vertices) + [vertices[0]]  # <- The extra vertex added here, should be removed later
-        cell = self._get_closest_point(vertices[0], points)
+
+        # The cell at the first vertex is the one that the last vertex with an edge opens, or otherwise the only cell
+        connected = [vertex for vertex in vertices if len(vertex.connected_edges) > 0]
+        if connected:
+            cell = connected[-1].connected_edges[0].twin.incident_point
+        else:
+            cell = self._get_closest_point(vertices[0], points)
+
         previous_edge = None
         for index in range(0, len(vertices) - 1):
 
@@ -137,7 +158,7 @@ class Polygon(Subject):
             # Set previous edge
             previous_edge = edge
 
-        existing_vertices = [i for i in existing_vertices if self.inside(i)]
+        existing_vertices = [i for i in existing_vertices if self._strictly_inside(i)]
 
         return edges, vertices[:-1] + existing_vertices
 
@@ -163,10 +184,10 @@ class Polygon(Subject):
         for edge in edges:
             clipped = []
 
-            if edge.get_origin() is None or not self.inside(edge.get_origin()):
+            if edge.get_origin() is None or not self._strictly_inside(edge.get_origin()):
                 clipped.append(self._finish_edge(edge))
 
-            if edge.twin.get_origin() is None or not self.inside(edge.twin.get_origin()):
+            if edge.twin.get_origin() is None or not self._strictly_inside(edge.twin.get_origin()):
                 clipped.append(self._finish_edge(edge.twin))
 
             if edge.get_origin() is not None and edge.twin.get_origin() is not None:
@@ -234,18 +255,10 @@ class Polygon(Subject):
         return Coordinate(orig.xd + dx, orig.yd + dy)
 
     def _on_edge(self, point):
-        vertices = self.points + self.points[0:1]
-        for i in range(0, len(vertices) - 1):
-            dxc = point.xd - vertices[i].xd
-            dyc = point.yd - vertices[i].yd
-            dx1 = vertices[i + 1].xd - vertices[i].xd
-            dy1 = vertices[i + 1].yd - vertices[i].yd
-
-            cross = dxc * dy1 - dyc * dx1
+        return any(self._locate_on_side(point, a, b)[0] <= self._tolerance for a, b in self._get_sides())
 
-            if cross == 0:
-                return True
-        return False
+    def _strictly_inside(self, point):
+        return self.inside(point) and not self._on_edge(point)
 
     def inside(self, point):
         """Tests whether a point is inside a polygon.
-- 
2.43.0


From 68824982c78705e228cb0c14889fdda42a7987bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 08/29] fix: let a polygon be used for more than one diagram

The polygon kept the clipped vertices of the first diagram, together with their
edges, and connected them to the second diagram.
---
 foronoi/graph/polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 105a991..0b2b578 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -30,6 +30,9 @@ class Polygon(Subject):
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
+        self._reset_polygon_vertices()
+
+    def _reset_polygon_vertices(self):
         self.polygon_vertices = []
         for point in self.points:
             self.polygon_vertices.append(Vertex(point.xd, point.yd))
@@ -180,6 +183,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Start with fresh vertices, since the polygon might have been used for another diagram
+        self._reset_polygon_vertices()
+
         resulting_edges = list()
         for edge in edges:
             clipped = []
-- 
2.43.0


From 08ba3a41126fd9ba4a0438514281d4e5d45c4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 09/29] fix: start with a clean state when creating another
 diagram

Calling create_diagram() a second time mixed the edges, vertices, arcs and
status tree of both diagrams, also when the first call was aborted.
---
 foronoi/algorithm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 191d2e0..2138bfd 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -108,6 +108,15 @@ class Algorithm(Subject):
             Event queue for upcoming site and circle events
         """
 
+        # Start with a clean state, since a diagram might have been created before
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Store the points for visualization
         self.sites = points
 
-- 
2.43.0


From 71f80aca7550e776fc26750aa00fe8c9e4d19731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 10/29] fix: notify all observers when one of them detaches
 itself

Detaching an observer during an update made the next observer miss the message.
---
 foronoi/observers/subject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..27df9bd 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -46,7 +46,7 @@ class Subject:
         message: Message
             The message type
         """
-        for observer in self._observers:
+        for observer in list(self._observers):
             observer.update(self._root_sender, message, **kwargs)
         return self
 
-- 
2.43.0


From c99711137bf3338ee16793dd2fef3d67850c502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 11/29] fix: do not change the presets with the settings of an
 observer

The settings of one VoronoiObserver leaked into the presets, and thereby into
all other observers.
---
 foronoi/observers/voronoi_observer.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index 677307f..fe02fd9 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,21 +82,18 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
-            settings.update(self.settings)
+            settings = {**Presets.construction, **self.settings}
             assert subject.sweep_line <= subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
-            settings.update(self.settings)
+            settings = {**Presets.clipping, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
-            settings.update(self.settings)
+            settings = {**Presets.final, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
 
-- 
2.43.0


From 5702f695b48ed09869cd063e016794decad2f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 12/29] fix: pass the figure size of the observer to the
 visualizer

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index fe02fd9..f94aacc 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,18 +81,18 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.construction, **self.settings}
             assert subject.sweep_line <= subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.clipping, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = {**Presets.final, **self.settings}
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From bffd6ada5dd72147e22d29765d84ff47a9f8c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 13/29] fix: pass triangles as such to plot_event

plot_all(triangles=True) passed it as the event, so no circle was drawn at all.
---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..6e22afb 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 869fb5c6e77584874411cac963dec5cd940df32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 14/29] fix: accept a sweep line at zero in the visualizer

---
 foronoi/visualization/visualizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 6e22afb..0618da4 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -336,7 +336,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -361,7 +361,7 @@ class Visualizer:
         self: Visualizer
         """
         edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -390,7 +390,7 @@ class Visualizer:
 
         """
         arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -447,7 +447,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = self.voronoi.sweep_line if sweep_line is None else sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
-- 
2.43.0


From aa6bd669010928a250d81abc6c938b8601c59198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 15/29] fix: delete nodes with two children from a tree

Tree.delete() raised an AttributeError for them, and did not pass on the
arguments that are needed to determine the keys.
---
 foronoi/tree/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..53de270 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -149,11 +149,11 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
             if root.left is None:
@@ -164,7 +164,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 70453821eebaaf468732b10a96ada6a02562ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 16/29] fix: put the arc labels on the right arcs

Arcs at the sweep line are not plotted, so the indices of the plotted lines do
not correspond to the list of all arcs.
---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 0618da4..c5c44d4 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From d2a3b4f3f74bcccc64d6b8c7de4cd86f189e0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 17/29] fix: keep the status tree balanced

Sites at the same height were added without rebalancing, the removal of an
arc only rebalanced the root, and a rotation left the heights of the nodes
above it too large.
---
 foronoi/algorithm.py | 9 +++++----
 foronoi/tree/tree.py | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 2138bfd..7ec7a2a 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -334,6 +334,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
@@ -499,8 +500,8 @@ class Algorithm(Subject):
             removed = arc_node.parent.data
             right = removed
 
-            # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            # Rebalance the tree, starting from the node that took the place of the parent
+            root = Tree.balance_and_propagate(arc_node.parent.right)
 
             # Find the left breakpoint
             left_breakpoint = Breakpoint(breakpoint=(predecessor.get_value().origin, arc_node.get_value().origin))
@@ -527,8 +528,8 @@ class Algorithm(Subject):
             removed = arc_node.parent.data
             left = removed
 
-            # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            # Rebalance the tree, starting from the node that took the place of the parent
+            root = Tree.balance_and_propagate(arc_node.parent.left)
 
             # Find the right breakpoint
             right_breakpoint = Breakpoint(breakpoint=(arc_node.get_value().origin, successor.get_value().origin))
diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 53de270..527a9a9 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,8 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        # The heights below this node might have been changed by a rotation
+        node.update_height()
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 96e25ae68da4a77de775d835b5d89061682fea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 18/29] fix: accept a float as canvas offset

---
 foronoi/visualization/visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index c5c44d4..af5890a 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -547,6 +547,7 @@ class Visualizer:
 
     @staticmethod
     def _canvas_size(bounding_polygon, offset):
+        offset = Decimal(str(offset))
         max_y = bounding_polygon.max_y + offset
         max_x = bounding_polygon.max_x + offset
         min_x = bounding_polygon.min_x - offset
-- 
2.43.0


From 2d4da8c97cc00ca9dba73f5743ee5e1559207299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:03 +0000
Subject: [PATCH 19/29] fix: draw a bounding circle around its center

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index af5890a..a55cd5f 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From 0573c6328a4cc9517aeb4704f274df5c459a4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 20/29] fix: compute areas relative to a corner of the cell

---
 foronoi/graph/point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/point.py b/foronoi/graph/point.py
index 17772f8..31582f8 100644
--- a/foronoi/graph/point.py
+++ b/foronoi/graph/point.py
@@ -111,10 +111,12 @@ class Point(Coordinate):
 
     def _get_xy(self):
         coordinates = self.vertices()
-        if coordinates is None:
+        if not coordinates:
             return [], []
-        x = [coordinate.x for coordinate in coordinates]
-        y = [coordinate.y for coordinate in coordinates]
+        # Relative to one of the corners, as digits would get lost far away from (0, 0)
+        corner = coordinates[0]
+        x = [float(coordinate.xd - corner.xd) for coordinate in coordinates]
+        y = [float(coordinate.yd - corner.yd) for coordinate in coordinates]
         return x, y
 
     def __sub__(self, other):
-- 
2.43.0


From dd30a9c85bb2729c52c8282339c605e6c6953219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 21/29] fix: clear the first edge when the last edge of a cell
 is deleted

---
 foronoi/graph/half_edge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/half_edge.py b/foronoi/graph/half_edge.py
index 4d035dd..4d21e48 100644
--- a/foronoi/graph/half_edge.py
+++ b/foronoi/graph/half_edge.py
@@ -170,5 +170,5 @@ class HalfEdge:
                     self.next is None or self.next.incident_point == self.incident_point
             ), f"Incident points {self.next.incident_point} and {self.incident_point} do not match"
 
-            # Set the new "first edge" pointer
-            self.incident_point.first_edge = self.next
\ No newline at end of file
+            # Set the new "first edge" pointer, unless this was the last edge
+            self.incident_point.first_edge = self.next if self.next != self else None
\ No newline at end of file
-- 
2.43.0


From a8c03ca4999a7e23fdebcf7506af1175233d459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 22/29] fix: clip edges of sites that are far below the polygon

---
 foronoi/graph/polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0b2b578..fe468e6 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -207,8 +207,9 @@ class Polygon(Subject):
         return resulting_edges
 
     def _finish_edge(self, edge):
-        # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        # Sweep line position, below the polygon and not above the sites, as these might be outside of the polygon
+        lowest = min(self.min_y, edge.incident_point.yd, edge.twin.incident_point.yd)
+        sweep_line = lowest - abs(self.max_y)
 
         # Start should be a breakpoint, or a vertex that is not inside
         start = edge.get_origin(y=sweep_line, max_y=self.max_y)
-- 
2.43.0


From f91e73e685ca7f027904a8cf3b65e46a513a1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 23/29] fix: find the cell of a polygon that no edge goes
 through

---
 foronoi/graph/polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index fe468e6..576ec5a 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -123,7 +123,10 @@ class Polygon(Subject):
         if connected:
             cell = connected[-1].connected_edges[0].twin.incident_point
         else:
-            cell = self._get_closest_point(vertices[0], points)
+            # Edges can still touch a corner, so determine this for the center of the polygon
+            center_x = sum(point.xd for point in self.points) / len(self.points)
+            center_y = sum(point.yd for point in self.points) / len(self.points)
+            cell = self._get_closest_point(Coordinate(center_x, center_y), points)
 
         previous_edge = None
         for index in range(0, len(vertices) - 1):
-- 
2.43.0


From 197a5c866e87a8e273ec9cfb31e11ec0497ab488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:10 +0000
Subject: [PATCH 24/29] fix: show a vertex without coordinates (of an edge
 outside the polygon) instead of raising TypeError

---
 foronoi/graph/vertex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foronoi/graph/vertex.py b/foronoi/graph/vertex.py
index d864afa..6280d93 100644
--- a/foronoi/graph/vertex.py
+++ b/foronoi/graph/vertex.py
@@ -34,4 +34,6 @@ class Vertex(Coordinate):
         self.connected_edges = connected_edges or []
 
     def __repr__(self):
+        if self.xd is None or self.yd is None:
+            return f"Vertex({self.xd}, {self.yd})"
         return f"Vertex({self.xd:.2f}, {self.yd:.2f})"
-- 
2.43.0


From dd17c08545953e317bd4e819832fa6bcdc967d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 25/29] fix: send the messages of a polygon to the observers of
 the diagram that is created, also if another one uses it

---
 foronoi/algorithm.py         | 3 +++
 foronoi/observers/subject.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 7ec7a2a..c800b52 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -117,6 +117,9 @@ class Algorithm(Subject):
         self.edges = list()
         self._vertices = set()
 
+        # The polygon might have been used for the diagram of another object
+        self.bounding_poly.inherit_observers_from(self)
+
         # Store the points for visualization
         self.sites = points
 
diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 27df9bd..fb9db0d 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -69,16 +69,20 @@ class Subject:
         parent._add_child(self)
         self._root_sender = parent
         self._child_sender = self
+        self._observers = parent.get_observers()
 
     def _add_child(self, child):
         """
         Add child
         """
-        self._children.append(child)
+        if child not in self._children:
+            self._children.append(child)
 
     def _update_children(self):
         """
         Send the observers to the children
         """
         for child in self._children:
-            child._observers = self.get_observers()
+            # A child might have got another parent in the meantime
+            if child._root_sender is self:
+                child._observers = self.get_observers()
-- 
2.43.0


From 762837dd4c4588d0d180b3d5d325307399fcdeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:29 +0000
Subject: [PATCH 26/29] fix: detach the given observer, not another one that is
 equal to it

---
 foronoi/observers/subject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index fb9db0d..49c8efb 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -33,7 +33,8 @@ class Subject:
         observer: Observer
             An observer to remove from this subject
         """
-        self._observers.remove(observer)
+        # Observers may compare equal to one another, so they are told apart by identity
+        self._observers.pop([o is observer for o in self._observers].index(True))
         self._update_children()
         return self
 
-- 
2.43.0


From 0ce747447d74350f80b0e953482496d3e4e9f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:25 +0000
Subject: [PATCH 27/29] fix: create diagrams in a bounding circle

Creating a diagram in a BoundingCircle raised an exception for every input, since the class did not fit the interface
of Polygon. It handed over a pair instead of the edges, had no corners to order the vertices along, listed both halves
of every edge, and clipped at a hard-coded position of the sweep line.
---
 foronoi/contrib/bounding_circle.py | 113 ++++++++++++++---------------
 1 file changed, 54 insertions(+), 59 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..a68e264 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -1,9 +1,10 @@
 import warnings
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
 from foronoi.graph import Point, Coordinate, Vertex
+from foronoi.graph.algebra import Algebra
 
 DEBUG = False
 
@@ -39,53 +40,51 @@ class BoundingCircle(Polygon):
     def inside(self, point):
         return (self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2 < self.radius ** 2
 
+    def _strictly_inside(self, point):
+        return self.inside(point)
+
+    def _get_perimeter_position(self, vertex):
+        # Vertices in the same location are ordered by the direction of the edge they are connected to
+        angle = Algebra.calculate_angle(vertex, self.center)
+        direction = Algebra.calculate_angle(vertex.connected_edges[0].target, vertex)
+        return -angle, (direction - angle - 90) % 360
+
+    def _get_low_sweep_line(self, points):
+        """
+        Get a position of the sweep line at which all breakpoints have left the circle.
+        """
+        xs = [self.min_x, self.max_x] + [point.xd for point in points]
+        ys = [self.min_y, self.max_y] + [point.yd for point in points]
+        return min(ys) - 4 * max(max(xs) - min(xs), max(ys) - min(ys))
+
+    def finish_polygon(self, edges, existing_vertices, points):
+        # There are no vertices on the circle if no edge meets it
+        if len(self.polygon_vertices) == 0:
+            return edges, [i for i in existing_vertices if self._strictly_inside(i)]
+
+        return super().finish_polygon(edges, existing_vertices, points)
+
     def finish_edges(self, edges, vertices=None, points=None, event_queue=None):
+        # Start with fresh vertices, since the circle might have been used for another diagram
+        self.polygon_vertices = []
+        self.voronoi.sweep_line = self._get_low_sweep_line(points)
+
         resulting_edges = []
         for edge in edges:
-            result = True
-            A = edge.get_origin(y=-1000)
-            B = edge.twin.get_origin(y=-1000)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon()\
-                    .show()
-
-            if A is None:
-                if B is None:
-                    continue
-                result = result and self.trim_edge(edge)
-            elif not self.inside(A):
-                result = result and self.trim_edge(edge)
-            if result:
-                resulting_edges.append(edge)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon() \
-                    .show()
-
-            if B is None or not self.inside(B):
-                result = self.trim_edge(edge.twin)
-                if result:
-                    resulting_edges.append(edge.twin)
-
-            if DEBUG:
-                Visualizer(self.voronoi, 1) \
-                    .plot_sites(points) \
-                    .plot_vertices(vertices + self.polygon_vertices) \
-                    .plot_edges(edges) \
-                    .plot_edges([edge], color="green") \
-                    .plot_polygon() \
-                    .show()
+
+            # Find the points where the half edges that start outside enter the circle
+            outside = [half for half in (edge, edge.twin) if not self.inside(self._get_origin(half))]
+            cuts = [self.cut_line(half) for half in outside]
+
+            # An edge without such a point, or that only touches the circle, is fully outside
+            if None in cuts or len(cuts) == 2 and Algebra.distance(*cuts) <= self._tolerance:
+                edge.delete()
+                edge.twin.delete()
+                continue
+
+            for half, point in zip(outside, cuts):
+                self.trim_edge(half, point)
+            resulting_edges.append(edge)
 
         # Re-order polygon vertices
         self.polygon_vertices = self._get_ordered_vertices(self.polygon_vertices)
@@ -98,22 +97,18 @@ class BoundingCircle(Polygon):
                 .plot_polygon() \
                 .show()
 
-        return resulting_edges, self.polygon_vertices
-
-    def trim_edge(self, edge, twisted=False):
+        return resulting_edges
 
-        point = self.cut_line(edge)
+    def _get_origin(self, edge):
+        return edge.get_origin(self.voronoi.sweep_line, self.max_y)
 
-        if point is None:
-            return False
+    def trim_edge(self, edge, point):
         # Create vertex
-        v = Vertex(point.x, point.y)
+        v = Vertex(point.xd, point.yd)
         v.connected_edges.append(edge)
         edge.origin = v
         self.polygon_vertices.append(v)
 
-        return True
-
     def get_line(self, A, B):
         if (B.yd - A.yd) == 0:
             a = Decimal("0")
@@ -153,18 +148,18 @@ class BoundingCircle(Polygon):
         def is_on(a, b, c):
             "Return true iff point c intersects the line segment from a to b."
             # (or the degenerate case that all 3 points are coincident)
-            return ((within(a.xd, c.xd, b.xd) if a.xd != b.xd else
+            return ((within(a.xd, c.xd, b.xd) if abs(a.xd - b.xd) > abs(a.yd - b.yd) else
                      within(a.yd, c.yd, b.yd)))
 
         def within(p, q, r):
             "Return true iff q is between p and r (inclusive)."
-            return (p <= q <= r) or (r <= q <= p)
+            return min(p, r) - self._tolerance <= q <= max(p, r) + self._tolerance
 
         return is_on(A, B, C)
 
     def cut_line(self, edge):
-        A = edge.get_origin(-1000)
-        B = edge.twin.get_origin(-1000)
+        A = self._get_origin(edge)
+        B = self._get_origin(edge.twin)
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
@@ -197,7 +192,7 @@ class BoundingCircle(Polygon):
         a_sq_b_sq = a ** 2 + b ** 2
         try:
             big_sqrt = Decimal.sqrt(self.radius ** 2 * a_sq_b_sq - d ** 2).real
-        except ValueError:
+        except InvalidOperation:
             return None, None
 
         x1 = self.xd + (a * d + b * big_sqrt) / a_sq_b_sq
-- 
2.43.0


From af35fa754792c94bd73bc5460e8b972a3a9a33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:47 +0000
Subject: [PATCH 28/29] fix: accept polygons that list a corner more than once

---
 foronoi/graph/polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 576ec5a..c1c5300 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -62,7 +62,9 @@ class Polygon(Subject):
         return index, position, (Algebra.calculate_angle(vertex.connected_edges[0].target, vertex) - backward) % 360
 
     def _get_sides(self):
-        return list(zip(self.points, self.points[1:] + self.points[0:1]))
+        # A corner can be listed more than once, for example as the first and the last one
+        sides = zip(self.points, self.points[1:] + self.points[0:1])
+        return [(a, b) for a, b in sides if a.xd != b.xd or a.yd != b.yd]
 
     @property
     def _tolerance(self):
-- 
2.43.0


From b081c4145d814f762b95d1885ab390caf9c3639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:47 +0000
Subject: [PATCH 29/29] fix: order the corners of a polygon of which the
 bounding box has its center on a side

---
 foronoi/graph/polygon.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index c1c5300..90e162d 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -39,6 +39,15 @@ class Polygon(Subject):
 
     def _order_points(self, points):
         clockwise = sorted(points, key=lambda point: (-180 - Algebra.calculate_angle(point, self.center)) % 360)
+
+        # If two corners are in the same direction, then the center is on a side, which the mean of the corners never is
+        for a, b in zip(clockwise, clockwise[1:] + clockwise[0:1]):
+            ax, ay = a.xd - self.center.xd, a.yd - self.center.yd
+            bx, by = b.xd - self.center.xd, b.yd - self.center.yd
+            if (ax, ay) != (bx, by) and ax * by == ay * bx and ax * bx + ay * by >= 0:
+                mean = Coordinate(sum(p.xd for p in points) / len(points), sum(p.yd for p in points) / len(points))
+                return sorted(points, key=lambda point: (-180 - Algebra.calculate_angle(point, mean)) % 360)
+
         return clockwise
 
     def _get_ordered_vertices(self, vertices):
-- 
2.43.0

