From 448c5a03d0e2c2702523e493c1f86d427604f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 01/48] fix: Ray.propagate divided by the distance, so a
 zero-length step raised ZeroDivisionError

---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From 8116beb997a8668619c4890916d9601b5f3ed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 02/48] fix: Sphere.intersections merged the two crossings of
 small or nearly grazed spheres

---
 pvtrace/geometry/sphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..6e36b25 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -47,8 +47,9 @@ class Sphere(Geometry):
         if discriminant < 0:
             return []
 
-        # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        # Discriminant is zero = one solution, positive == two solutions. This is
+        # an exact test: a tolerance would merge the two crossings of small spheres.
+        if discriminant == 0.0:
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From bd57a02c90ca8cbb61416016c826a0fbbb6dfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 03/48] fix: Node.look_at ignored that the direction vector may
 not be a unit vector

---
 pvtrace/scene/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..5fcdc0a 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -51,7 +51,7 @@ class Node(NodeMixin, Transformable):
         [1] https://math.stackexchange.com/q/476311
         """
         a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
+        b = np.array(vector) / np.linalg.norm(vector)  # direction we want to face
         c = np.dot(a, b)
         if np.isclose(c, -1.0):
             # Anti-parallel rotation can be done without computation
-- 
2.43.0


From 941bf13e2b20ed915b0def63135b806a813a366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 04/48] fix: translating a node whose location was given as
 integers raised a casting error

---
 pvtrace/geometry/transformable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..15039b5 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,9 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3, dtype=float)
+            if location is None
+            else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -74,7 +76,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From a01d2b577fe6487246ffa3c9c91b73e24dd89803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 05/48] fix: leaving a node towards a sibling reported the
 sibling as the adjacent medium

---
 pvtrace/algorithm/photon_tracer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..59cee67 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,9 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        # Leaving the container: the medium outside is what would contain the
+        # ray beyond this surface, not simply the next node the ray would hit.
+        adjacent = find_container(intersections[1:])
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
-- 
2.43.0


From 9852823c5384ec3742e39ef00c71f22640a8541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 06/48] fix: Distribution accepted tables with some non-finite
 values

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..7eb4c29 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,7 +35,7 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From a99207ade852f416108f1220536a3f52085117fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 07/48] fix: henyey_greenstein(0) divided by zero instead of
 being isotropic

---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From a1ba0ce08629871e83aacb798b721c4118e793c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 08/48] fix: components with an integer coefficient had no
 absorption spectrum

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..371d605 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (int, float)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From 8461c028ca54bf6e55c96fd3e387568308e17eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 09/48] fix: points in the plane of a box face but outside the
 box counted as on its surface

---
 pvtrace/geometry/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/geometry/utils.py b/pvtrace/geometry/utils.py
index 31683c8..4e7d3bf 100644
--- a/pvtrace/geometry/utils.py
+++ b/pvtrace/geometry/utils.py
@@ -57,7 +57,10 @@ def on_aabb_surface(size, point, centre=(0.0, 0.0, 0.0), atol=EPS_ZERO):
     zmax_dist = distance_between(point, zmax_point)
 
     dists = (xmin_dist, xmax_dist, ymin_dist, ymax_dist, zmin_dist, zmax_dist)
-    tests = [np.abs(dist) < (atol / 2) for dist in dists]
+    # The faces are finite: a point in the plane of a face can still be outside the box
+    pt = np.array(point)
+    within = np.all(pt > origin - atol / 2) and np.all(pt < extent + atol / 2)
+    tests = [within and np.abs(dist) < (atol / 2) for dist in dists]
     surfaces = np.where(np.array(tests) == True)[0].tolist()
     return np.any(tests), surfaces
 
-- 
2.43.0


From 903ef07a6fd87a0e7091841e1617885cbedf9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 10/48] fix: Cylinder missed surface points that a probing ray
 leads away from, and counted surface points as inside

---
 pvtrace/geometry/cylinder.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..3e33c14 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -1,6 +1,12 @@
 from pvtrace.geometry.geometry import Geometry
 from pvtrace.common.errors import GeometryError
-from pvtrace.geometry.utils import angle_between, norm, close_to_zero, ray_z_cylinder
+from pvtrace.geometry.utils import (
+    angle_between,
+    norm,
+    close_to_zero,
+    ray_z_cylinder,
+    EPS_ZERO,
+)
 import numpy as np
 import logging
 
@@ -27,21 +33,20 @@ class Cylinder(Geometry):
         self._material = new_value
 
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
-        return False
+        # Signed distances to the side and to the caps; negative is inside
+        side = np.sqrt(np.sum(np.array(point[:2]) ** 2)) - self.radius
+        cap = np.abs(point[2]) - 0.5 * self.length
+        if side > 0.0 and cap > 0.0:
+            dist = np.sqrt(side ** 2 + cap ** 2)
+        else:
+            dist = max(side, cap)
+        return bool(close_to_zero(dist))
 
     def contains(self, point):
-        z = point[2]
-        r = np.sqrt(np.sum(np.array(point[:2]) ** 2))
-        if z > -0.5 * self.length and z < 0.5 * self.length and r < self.radius:
+        # Points within tolerance of the surface are on it rather than inside
+        r = np.sqrt(np.sum(np.array(point[:2]) ** 2)) + EPS_ZERO
+        z = np.abs(point[2]) + EPS_ZERO
+        if z < 0.5 * self.length and r < self.radius:
             return True
         return False
 
-- 
2.43.0


From 85412f6aa1051e35da23b4f858cbc5a41d82b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 11/48] fix: Henyey-Greenstein directions could be NaN from
 rounding when g is tiny

---
 pvtrace/engine/_kernel.pyx | 4 ++++
 pvtrace/engine/emit.py     | 1 +
 pvtrace/material/utils.py  | 1 +
 3 files changed, 6 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..91faee8 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -459,6 +459,10 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         g1 = rng_uniform(rng)
         s = 2.0 * g1 - 1.0
         mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
+        if mu > 1.0:  # rounding, when g is small
+            mu = 1.0
+        elif mu < -1.0:
+            mu = -1.0
         phi = 2.0 * M_PI * rng_uniform(rng)
         theta = acos(mu)
     elif phase_type == PHASE_CONE:
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..5901ddb 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -84,6 +84,7 @@ def _sample_directions(delegate, n):
             return _sample_directions(isotropic, n)
         s = 2 * np.random.uniform(0, 1, n) - 1
         mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
+        mu = np.clip(mu, -1.0, 1.0)  # rounding, when g is small
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(np.arccos(mu), phi)
     return None
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 9b04caa..b1b2b54 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -121,6 +121,7 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
     p = np.random.uniform(0, 1)
     s = 2 * p - 1
     mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
+    mu = np.clip(mu, -1.0, 1.0)  # rounding, when g is small
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 4d6b690c9fd4671836358a8c951d0ad4eab02a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 12/48] fix: Node.look_at was inaccurate near the z axis
 (snapped to -z, degenerate axis near +z)

---
 pvtrace/scene/node.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 5fcdc0a..f998af4 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -53,20 +52,14 @@ class Node(NodeMixin, Transformable):
         a = np.array([0, 0, 1])  # +z direction
         b = np.array(vector) / np.linalg.norm(vector)  # direction we want to face
         c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
-            return
-
         v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        length = np.linalg.norm(v)
+        if length == 0.0:
+            if c < 0.0:
+                # Anti-parallel rotation can be done without computation
+                self.rotate(np.pi, [0, 1, 0])
+            return
+        self.rotate(np.arctan2(length, c), v)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From e05910697fd6a96262dea51cb0041f4f0c63724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 13/48] fix: component selection could round past the last
 component or to one with zero coefficient

---
 pvtrace/material/material.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/material/material.py b/pvtrace/material/material.py
index 8323c5c..8845df2 100644
--- a/pvtrace/material/material.py
+++ b/pvtrace/material/material.py
@@ -52,12 +52,9 @@ class Material(object):
         coefs = np.array([x.coefficient(wavelength) for x in self.components])
         if np.any(coefs < 0.0):
             raise ValueError("Must be positive.")
-        count = len(self.components)
-        bins = list(range(0, count + 1))
         cdf = np.cumsum(coefs)
-        pdf = cdf / max(cdf)
-        pdf = np.hstack([0, pdf[:]])
-        pdfinv_lookup = np.interp(np.random.uniform(), pdf, bins)
-        index = int(np.floor(pdfinv_lookup))
+        cdf = cdf / max(cdf)
+        # Invert exactly: interpolating and flooring can round to the next index
+        index = int(np.searchsorted(cdf, np.random.uniform(), side="right"))
         component = self.components[index]
         return component
-- 
2.43.0


From ad89fd6b0b1c18502d75bdda88adba1ae33aeb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 14/48] fix: the compiled engine could select a component with
 zero coefficient

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 91faee8..997ac57 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -780,7 +780,7 @@ cdef int trace_one(
                     S.abs_y + S.abs_start[cbase + k],
                     S.abs_n[cbase + k],
                 )
-                if target <= running:
+                if target < running:
                     comp = cbase + k
                     break
 
-- 
2.43.0


From 6e38aa7f8d8e23d8fbf5398b3fe8aac83cb023cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 15/48] fix: inverting a spectrum with a leading zero range
 could return its first wavelength

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 997ac57..8122255 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -221,7 +221,7 @@ cdef inline double interp_clamped(double x, double* xs, double* ys, int n) noexc
     cdef int lo, hi, mid
     if n == 1:
         return ys[0]
-    if x <= xs[0]:
+    if x < xs[0]:
         return ys[0]
     if x >= xs[n - 1]:
         return ys[n - 1]
-- 
2.43.0


From 3156b9d55965add44bde87c5be7d1e81c49831f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 16/48] fix: sampling a spectrum with unevenly spaced positions
 did not follow it

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 7eb4c29..c4b73fd 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From 2440b8e20b72a84cc9a2b390f19674f574a5aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 17/48] fix: luminophores with histogram spectra could emit
 outside the redshift or kT window

---
 pvtrace/material/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 371d605..45d14bd 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -424,6 +424,9 @@ class Luminophore(Scatterer):
         p2 = 1.0
         gamma = np.random.uniform(p1, p2)
         wavelength = dist.sample(gamma)
+        if method != "full":
+            # A histogram spectrum can return a bin that lies before the window
+            wavelength = max(wavelength, nm)
 
         # Delay emission using the radiative lifetime
         emission_delay = 0.0
-- 
2.43.0


From 4479e6003117c5a08ce145ee07bec19afadf35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 18/48] fix: sampling a histogram spectrum with an array
 collapsed to one value when one probability rounded past the end

---
 pvtrace/material/distribution.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index c4b73fd..3764d97 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -170,10 +170,7 @@ class Distribution(object):
 
         if self.hist:
             idx = np.searchsorted(self._cdf, p)
-            try:
-                return self._x[idx]
-            except IndexError:
-                return self._x[-1]
+            return self._x[np.minimum(idx, len(self._x) - 1)]
         else:
             xval = np.interp(p, self._cdf, self._x, left=np.nan, right=np.nan)
             if xval.size == 1:
-- 
2.43.0


From ccc9a41494f84b2d88110e089feb025721dac245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 19/48] fix: the compiled engine reported a sibling as the
 adjacent medium when leaving a node towards it

---
 pvtrace/engine/_kernel.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 8122255..844eb32 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -713,7 +713,17 @@ cdef int trace_one(
             if container < 0:
                 container = hit
             if container == hit:
-                adjacent = hit_node[second]
+                # Leaving the container: the medium outside is what would
+                # contain the ray beyond this surface, not simply the next
+                # node the ray would hit.
+                adjacent = -1
+                best = INFINITY
+                for node in range(S.n_nodes):
+                    if node != hit and node_hits[node] == 1 and node_min_t[node] < best:
+                        best = node_min_t[node]
+                        adjacent = node
+                if adjacent < 0:
+                    adjacent = hit_node[second]
             else:
                 adjacent = hit
 
-- 
2.43.0


From 01009ddcdaf3215119c09139f664c19c915ed8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 20/48] fix: the compiled engine could drop the kill event of a
 ray whose event budget ran out on an absorption

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 844eb32..4c0a016 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -660,8 +660,9 @@ cdef int trace_one(
         count += 1
 
         # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # silently dropping events (leave room for the KILL record after
+        # the two events an absorption can add).
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             break
-- 
2.43.0


From 055b10a43801cc4b340f499084a95bb02cf2e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 21/48] fix: histograms counted values just below their range
 in the first bin

---
 pvtrace/engine/_kernel.pyx | 19 +++++++++++++++----
 pvtrace/engine/tally.py    |  4 +++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 4c0a016..138380b 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -502,6 +502,17 @@ cdef inline double prop_value(int prop, double wavelength, double angle,
     return lpos[2]
 
 
+cdef inline int bin_index(double value, double lo, double hi, int n) noexcept nogil:
+    """Bin of a value in [lo, hi), -1 outside (must match tally._bin_index)."""
+    cdef int index
+    if not (value >= lo and value < hi):
+        return -1
+    index = <int>((value - lo) / (hi - lo) * n)
+    if index >= n:  # the product may round up to n
+        index = n - 1
+    return index
+
+
 cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
                        unsigned char* seen, double* wnormal,
                        double* lpos, double angle, double wavelength,
@@ -546,16 +557,16 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
-            ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
-            if ia < 0 or ia >= S.h_na[h]:
+            ia = bin_index(va, S.h_lo_a[h], S.h_hi_a[h], S.h_na[h])
+            if ia < 0:
                 continue
             if S.h_prop_b[h] < 0:
                 bins[S.h_offset[h] + ia] += 1
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
-                ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
-                if ib < 0 or ib >= S.h_nb[h]:
+                ib = bin_index(vb, S.h_lo_b[h], S.h_hi_b[h], S.h_nb[h])
+                if ib < 0:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
 
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..aaf9a73 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,8 +79,10 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
+    if not hist.start <= value < hist.stop:
+        return -1
     index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
-    return index if 0 <= index < hist.bins else -1
+    return min(index, hist.bins - 1)  # the product may round up to `bins`
 
 
 def tally_histories(scene, histories):
-- 
2.43.0


From caa7b18eb4ed108045dae6486987ce7ae7e074fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 22/48] fix: tracing with zero or negative workers wrote
 tallies outside their tables

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 138380b..62992b0 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -1098,7 +1098,7 @@ def trace_bundle(
     cdef long i, base
     cdef int tid, nev
     with nogil:
-        for i in prange(n, num_threads=num_threads, schedule="dynamic", chunksize=64):
+        for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
             if record_every > 0 and i % record_every == 0:
                 base = (i // record_every) * max_events
-- 
2.43.0


From a5766903743d55c1f2be9dfa589841f21a3e06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 23/48] fix: the compiled engine traced rays without a
 direction when the scene had no lights

---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 5901ddb..d330154 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -99,6 +99,8 @@ def emit_bundle(scene, num_rays):
     `scene.emit`.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and not lights:
+        raise ValueError("The scene has no lights to emit rays from.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
-- 
2.43.0


From 75ec6931f7e9038deb8ac68fce726eebe28c298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 24/48] fix: streamed bundles restarted the turn of the lights

---
 pvtrace/engine/api.py  | 13 ++++++++++---
 pvtrace/engine/emit.py |  7 ++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..c346712 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -203,6 +203,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    first_ray=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,7 +211,9 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). `first_ray` is the number of rays already emitted when
+    tracing in bundles, so that lights keep taking turns across bundles.
+    Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -227,7 +230,9 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(
+        scene, num_rays, first_ray
+    )
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -259,6 +264,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
-        result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
+        result = simulate(
+            scene, n, seed=int(seed) + traced, first_ray=traced, **kwargs
+        )
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index d330154..22a3848 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -90,13 +90,13 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, first_ray=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`; `first_ray` continues the cycle of an earlier bundle.
     """
     lights = scene.light_nodes
     if num_rays > 0 and not lights:
@@ -107,7 +107,8 @@ def emit_bundle(scene, num_rays):
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        first_row = (index - first_ray) % len(lights)
+        rows = np.arange(first_row, num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From 60d304ca1633e8b2502d44d58f6eb8754f795c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 25/48] fix: two workers could draw the same random seed and
 throw identical rays

---
 pvtrace/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..7fa99b3 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -280,7 +280,8 @@ class Scene(object):
         rays = [num_rays_per_worker] * workers
         rays[0] += remainder
         if seed is None:
-            seeds = np.random.randint(0, (2 ** 31) - 1, workers)
+            # Consecutive from a random start: independent draws could coincide
+            seeds = np.random.randint(0, (2 ** 31) - 1) + np.arange(workers)
         else:
             raise ValueError(
                 "Seed must be None to ensure different quasi-random sequences in each process"
-- 
2.43.0


From ddf254071205c0b70cbf2fd28ae2c8d12287d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 26/48] fix: recorders on nodes without geometry were silently
 dropped by the compiled engine

---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..6467aa4 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -133,6 +133,11 @@ class CompiledScene:
         self._compile_recorders(nodes)
 
     def _compile_recorders(self, nodes):
+        for node in PreOrderIter(self.scene.root):
+            if node.geometry is None and getattr(node, "recorders", []):
+                raise UnsupportedSceneError(
+                    f"Node {node.name!r} has recorders but no geometry."
+                )
         recorders = []
         for i, node in enumerate(nodes):
             for recorder in getattr(node, "recorders", []):
-- 
2.43.0


From 7975d49b7f26be061611acfc926390b3fd1d34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 27/48] fix: scenes with too many nodes compiled and failed
 later with a ValueError

---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 6467aa4..4611896 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -20,6 +20,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
+MAX_NODES = 128  # per-ray intersection list size in the kernel
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
 
 # Geometry type tags
@@ -65,6 +66,10 @@ class CompiledScene:
             raise UnsupportedSceneError("Scene has no geometry nodes.")
         if scene.root.geometry is None:
             raise UnsupportedSceneError("Root node must have a geometry.")
+        if len(nodes) > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
 
         n = len(nodes)
         self.scene = scene
-- 
2.43.0


From 73e38fd30b8c7e586b1ece85bca63f9b4461b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 28/48] fix: subclasses redefining a shape, component, phase
 function or surface were compiled as their base class

---
 pvtrace/engine/compiler.py | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 4611896..510c9a8 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,11 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -55,6 +59,18 @@ class UnsupportedSceneError(Exception):
     """The scene uses a feature the compiled engine does not support."""
 
 
+def _customised(obj, *bases):
+    """Does the type of `obj` redefine a method of a supported base class?"""
+    base = next(b for b in bases if isinstance(obj, b))
+    return any(
+        getattr(type(obj), name) is not method
+        for cls in base.__mro__[:-1]
+        for name, method in vars(cls).items()
+        if callable(method) and name not in ("__init__", "__repr__", "__str__")
+        and getattr(base, name) is method
+    )
+
+
 class CompiledScene:
     """Flat-table representation of a scene for the native kernel."""
 
@@ -216,6 +232,11 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
+        supported = (Box, Sphere, Cylinder)
+        if isinstance(geometry, supported) and _customised(geometry, *supported):
+            raise UnsupportedSceneError(
+                f"Custom geometry {type(geometry).__name__} is not supported."
+            )
         if isinstance(geometry, Box):
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
@@ -245,7 +266,12 @@ class CompiledScene:
     # -- surfaces ------------------------------------------------------
 
     def _surface_tag(self, node, material):
-        delegate = material.surface.delegate
+        surface = material.surface
+        if not isinstance(surface, Surface) or _customised(surface, Surface):
+            raise UnsupportedSceneError(
+                f"Node {node.name!r} uses a custom surface."
+            )
+        delegate = surface.delegate
         if type(delegate) is FresnelSurfaceDelegate:
             return SURF_FRESNEL
         if type(delegate) is NullSurfaceDelegate:
@@ -259,6 +285,11 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
+        supported = (Reactor, Absorber, Luminophore, Scatterer)
+        if isinstance(component, supported) and _customised(component, *supported):
+            raise UnsupportedSceneError(
+                f"Custom component {type(component).__name__} is not supported."
+            )
         # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
         if isinstance(component, Reactor):
             ctype = COMP_REACTOR
@@ -311,6 +342,11 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
+        supported = (HenyeyGreenstein, Cone)
+        if isinstance(phase, supported) and _customised(phase, *supported):
+            raise UnsupportedSceneError(
+                f"Node {node.name!r}: custom phase functions are not supported."
+            )
         if isinstance(phase, HenyeyGreenstein):
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
         if isinstance(phase, Cone):
-- 
2.43.0


From 22e8e4295a6deb65bb91b698be954dcd9ec7cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 29/48] fix: light delegates redefining a built-in one were
 sampled as the built-in by the compiled engine

---
 pvtrace/engine/emit.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 22a3848..3591801 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,11 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
-    ):
+    if delegate is light_module.default_wavelength or type(delegate) is light_module.DefaultWavelength:
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +32,21 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
-    ):
+    if delegate is light_module.default_position or type(delegate) is light_module.DefaultPosition:
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +56,9 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
-    ):
+    if delegate is light_module.default_direction or type(delegate) is light_module.DefaultDirection:
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +72,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
-- 
2.43.0


From 8c3a53ec79974257ade0f01c3b377308c589b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 30/48] fix: an empty facet or source filter selected every row

The normal filters restrict whenever they are given; an empty label was
treated as an omitted filter instead of matching rows with that label.
---
 pvtrace/cli/db.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/cli/db.py b/pvtrace/cli/db.py
index 6c82dcb..f1c7e77 100644
--- a/pvtrace/cli/db.py
+++ b/pvtrace/cli/db.py
@@ -54,11 +54,11 @@ def _boundary_query(
     inner.extend(normal_lines)
     params.extend(normal_params)
 
-    if facet:
+    if facet is not None:
         inner.append("AND facet = ?")
         params.append(facet)
 
-    if source:
+    if source is not None:
         inner.append("AND source = ?")
         params.append(source)
 
@@ -78,7 +78,7 @@ def _volume_query(columns, node, kind, source=None, count=False):
     ]
     params = [node, kind]
 
-    if source:
+    if source is not None:
         inner.append("AND source = ?")
         params.append(source)
 
-- 
2.43.0


From d508b80ebecd61d341f164ab035860eeaad275ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 31/48] fix: time lost, reacted and killed raised IndexError

handle_output expects the (throw id, value) rows, as the other commands and
the spectrum commands pass; these three passed the values alone.
---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From afc905bcf8cfbb516ba90e8ce9f05fd9e14331a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 32/48] fix: throws of different workers could share a throw id

A pool process can run more than one worker's share; both shares then count
their throws from zero under the same process id, and the database stored
rays of different throws under one throw id. Events now carry the worker's
number beside the process id.
---
 pvtrace/scene/scene.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 7fa99b3..4eaaf39 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -59,7 +59,7 @@ def is_end_ray(event, metadata):
     return False
 
 
-def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
+def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays, worker=0):
     """Worker function for multiple processing puts results into queue."""
     # Re-seed for this thread/process
     if seed is not None:
@@ -67,6 +67,9 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
 
     count = 0
     pid = os.getpid()
+    # A process of the pool may run the shares of several workers, and each
+    # share counts its throws from zero
+    key = (pid, worker)
 
     # What is an "end ray"?
     # Only record major ray events should as entering/reflecting from nodes
@@ -83,9 +86,9 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
             ray, event, metadata = info
             if end_rays:
                 if is_end_ray(event, metadata):
-                    queue.put((pid, idx, ray, event, metadata))
+                    queue.put((key, idx, ray, event, metadata))
             else:
-                queue.put((pid, idx, ray, event, metadata))
+                queue.put((key, idx, ray, event, metadata))
     return pid
 
 
@@ -294,7 +297,7 @@ class Scene(object):
             results_proxy = [
                 pool.apply_async(
                     do_simulation_add_to_queue,
-                    (self, rays[idx], seeds[idx], queue, end_rays),
+                    (self, rays[idx], seeds[idx], queue, end_rays, idx),
                 )
                 for idx in range(workers)
             ]
-- 
2.43.0


From 9a16419a253794c6491f8d6c362affcf35c036ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 33/48] fix: LSC ignored a given wavelength range

The attribute was only set when the argument was omitted, so a device made
with a wavelength range raised AttributeError when it was simulated.
---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..4b0ffc7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,7 +95,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From aee23ad8e853fbe8145efe6238d9ccc8a4103515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 34/48] fix: LSC.add_scatterer raised NameError

Scatterer was never imported.
---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4b0ffc7..4648613 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From 7a2e2f2ee29bfad59aa999fed820428509662643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 35/48] fix: a specular air gap mirror refracted instead of
 reflecting

The specular branch of reflected_direction returned the direction of
transmission.
---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4648613..2cbb569 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From 36319d465ab134946a8a511055ba641de974df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 36/48] fix: LSC reports swapped the near and far edges

Solar cells on "near" cover the -y edge and on "far" the +y edge, but reports
labelled points on -y "far" and on +y "near".
---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 2cbb569..1d5160b 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -448,8 +448,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 34476f6a4f9a8a140c00e8946cb9b4c36d75b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 37/48] fix: LSC.simulate failed with current pandas

DataFrame.append was removed in pandas 2; build the frame from the records.
---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 1d5160b..b0b9ab6 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -380,22 +380,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        records = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            records.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            records.append(rep)
 
+        df = pd.DataFrame(records)
         self._df = df
         return df
 
-- 
2.43.0


From 672bf4033814a4706ff03825a3037adefb4ad0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 38/48] fix: simulating an LSC a second time raised
 UnboundLocalError

Further rays are appended to the store, as the comment there says, and the
cached counts are recomputed.
---
 pvtrace/device/lsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index b0b9ab6..9598cf9 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,8 @@ class LSC(object):
         scene = self._scene
 
         # Simulate can be called multiple time to append rays to the store
-        if self._store is None:
+        store = self._store
+        if store is None:
             store = {"entrance_rays": [], "exit_rays": []}
 
         vis = self._renderer
@@ -369,6 +370,7 @@ class LSC(object):
                 progress(count)
 
         self._store = store
+        self._counts = None
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
-- 
2.43.0


From 1f0a2d425963754a586d56974c1b6ac46942cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 39/48] fix: LSC reports lost every ray absorbed in the device

Histories of absorbed rays end with NONRADIATIVE or REACT, not ABSORB, so
these rays were left out and the reported loss was always zero.
---
 pvtrace/device/lsc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 9598cf9..1f52edc 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -352,7 +352,7 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] in (Event.NONRADIATIVE, Event.REACT, Event.KILL):
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
             elif events[-1] == Event.EXIT:
@@ -596,7 +596,9 @@ class LSC(object):
         for facet in all_facets:
             incident += counts["Solar In"][facet]
 
-        lost = self.spectrum(source="all", events={"absorb"}, kind="last").shape[0]
+        lost = self.spectrum(
+            source="all", events={"nonradiative", "react"}, kind="last"
+        ).shape[0]
 
         optical_efficiency = lum_collected / incident
         waveguide_efficiency = lum_collected / (lum_collected + lum_escaped)
@@ -681,7 +683,7 @@ def test1():
     lsc.simulate(throw, emit_method="redshift")
     edge = lsc.spectrum(facets={"left", "right", "near", "far"}, source="all")
     escape = lsc.spectrum(facets={"top", "bottom"}, source="all")
-    lost = lsc.spectrum(source="all", events={"absorb"})
+    lost = lsc.spectrum(source="all", events={"nonradiative"})
 
     import matplotlib.pyplot as plt
 
-- 
2.43.0


From 80b4c795949e214a009bc612bd58f64e10675c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 40/48] fix: spectra of whole numbers lost their coefficient

A CSV file with only integers loads as an integer array, and scaling it in
place truncated every value: a coefficient of 0.1 became zero.
---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..91e6122 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -239,7 +239,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From ee73794121d0a245a0dcab68332a7232f9c116e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 41/48] fix: components with a spectrum alone could not be
 parsed

The truth value of an array is ambiguous, so an absorber, scatterer or
luminophore with a spectrum and no coefficient raised ValueError.
---
 pvtrace/cli/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 91e6122..8f1639e 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -259,7 +259,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if coefficient and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
         elif coefficient:
             return Absorber(coefficient, name=name)
@@ -298,7 +298,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -363,7 +363,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
-- 
2.43.0


From c2d82fa5a80217990c0e243f8fde1fbd94187615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 42/48] fix: a coefficient of zero was taken as missing

Without a spectrum the component was refused and with one the spectrum was
used unscaled. The schema allows zero.
---
 pvtrace/cli/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 8f1639e..9245bc3 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -256,12 +256,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
         elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -289,7 +289,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -306,7 +306,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -349,7 +349,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and (absorption_spectrum is not None):
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -372,7 +372,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From c2a24474bd06085efa380f8c45effad980eded6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 43/48] fix: scatterers and luminophores with a coefficient
 alone raised KeyError

The schema asks for a coefficient or a spectrum, and a branch for the
coefficient alone is there, but the spectrum was read unconditionally.
---
 pvtrace/cli/parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 9245bc3..b042704 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -287,7 +287,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
         if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
@@ -338,9 +340,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
-- 
2.43.0


From cb2c0ede0644232026bfbfc36c949ff8599493ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 44/48] fix: plain light masks could not be parsed

The schema allows a point for the position and direction masks and a number
for the wavelength mask; these raised ValueError and TypeError.
---
 pvtrace/cli/parse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index b042704..491e2bf 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -4,6 +4,7 @@ Parses the pvtrace-scene.yml file and generates Python objects.
 
 from pvtrace.material.distribution import Distribution
 from pvtrace.material.component import Luminophore, Scatterer
+import functools
 import jsonschema
 import yaml
 import json
@@ -138,6 +139,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return Mesh(trimesh=mesh, material=material)
 
     def parse_position_mask(spec):
+        if isinstance(spec, (list, tuple)):
+            return functools.partial(tuple, [float(v) for v in spec])
+
         if "rect" in spec:
             return RectangularMask(*spec["rect"])
 
@@ -160,6 +164,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return HenyeyGreensteinPhaseFunction(g)
 
     def parse_direction_mask(spec) -> Callable:
+        if isinstance(spec, (list, tuple)):
+            direction = np.array(spec, dtype=float)
+            direction = direction / np.linalg.norm(direction)
+            return functools.partial(tuple, direction.tolist())
+
         if "isotropic" in spec:
             return isotropic_phase_function
 
@@ -175,6 +184,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         raise ValueError("Missing attribute")
 
     def parse_wavelength_mask(spec) -> Callable:
+        if not isinstance(spec, dict):
+            return ConstantWavelengthMask(float(spec))
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
-- 
2.43.0


From 76b3fca048d9b8c57b8cf685ce515aee92419687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 45/48] fix: a document the studio could not display replaced
 the open one

The document, scene and specification were replaced before the payload for
the viewport was built and encoded: a document with .nan or .inf was answered
with an error but had already replaced the open one.
---
 pvtrace/studio/server.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..2b64027 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -15,6 +15,7 @@ from pathlib import Path
 import numpy as np
 import yaml
 from fastapi import FastAPI, WebSocket, WebSocketDisconnect
+from fastapi.encoders import jsonable_encoder
 from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
@@ -67,17 +68,19 @@ class Studio:
             os.unlink(path)
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
+        payload = self.scene_payload(compiled, scene, spec)
+        JSONResponse(jsonable_encoder(payload))  # raises if it cannot be sent
 
         self.document = text
         self.scene = scene
         self.spec = spec
-        return self.scene_payload(compiled)
+        return payload
 
-    def scene_payload(self, compiled):
+    def scene_payload(self, compiled, scene, spec):
         """Geometry description for the three.js viewport."""
         from anytree import PreOrderIter
 
-        node_specs = self.spec.get("nodes", {}) if self.spec else {}
+        node_specs = spec.get("nodes", {}) if spec else {}
         nodes = []
         for i, name in enumerate(compiled.node_names):
             nodes.append(
@@ -93,21 +96,21 @@ class Studio:
                 }
             )
         lights = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             if node.light is not None:
-                matrix = np.asarray(node.transformation_to(self.scene.root))
+                matrix = np.asarray(node.transformation_to(scene.root))
                 lights.append({"name": node.name,
                                "matrix": matrix.T.ravel().tolist(),
                                "spec": node_specs.get(node.name, {})})
         recorders = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             auto_names = set()
             node_spec = node_specs.get(node.name, {})
             if node_spec.get("record"):
                 from pvtrace.cli.parse import auto_recorders
 
                 auto_names = set(auto_recorders(node.name, node_spec))
-            explicit = set((self.spec.get("recorders") or {})) if self.spec else set()
+            explicit = set((spec.get("recorders") or {})) if spec else set()
             for recorder in getattr(node, "recorders", []):
                 histograms = []
                 for hist in recorder.histograms:
@@ -133,7 +136,7 @@ class Studio:
                             and recorder.name not in explicit,
                 })
         return {"nodes": nodes, "lights": lights, "recorders": recorders,
-                "spec": self.spec}
+                "spec": spec}
 
 
 def create_app(document_path=None):
-- 
2.43.0


From 8102b715b27f1fde782a7883ec07a256bed915a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 46/48] fix: a run started in the studio did not end the one in
 progress

---
 pvtrace/studio/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 2b64027..5601e8c 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -267,6 +267,8 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
+                    if task:
+                        task.cancel()  # only the latest run reports
                     stop["flag"] = False
                     task = asyncio.create_task(run(message))
                 elif command == "stop":
-- 
2.43.0


From db9f3bc763c93da443a22f044e82ae38dd537057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 47/48] fix: a studio run could describe one scene and trace
 another

---
 pvtrace/studio/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 5601e8c..4633d56 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -212,7 +212,9 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            # The document may be replaced while this run is in progress
+            scene = studio.scene
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -226,7 +228,7 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while True:
-- 
2.43.0


From 315a9ec429ba517531306462ff5a3f7254840fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 48/48] fix: the engine sampled phase functions in the world
 frame

The Python tracer emits and scatters in the frame of the containing node; the
compiled kernel ignored the node's rotation, so a cone or Henyey-Greenstein
component of a rotated node emitted along the wrong axis.
---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 62992b0..d8625d6 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -813,10 +813,10 @@ cdef int trace_one(
             if (ctype == COMP_SCATTERER or ctype == COMP_LUMINOPHORE) and \
                     rng_uniform(&rng) < S.comp_qy[comp]:
                 # Radiative: re-emit with new direction (and wavelength)
+                # The phase function is defined in the frame of the container
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0

