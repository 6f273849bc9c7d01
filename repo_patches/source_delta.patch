From 4708552ef40a895fd8f7221a5de1b9af4cc91a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 01/23] fix: Mirror can be built without a dmd_normal

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From 1aa460613a1fd6b5e422c3083cb3368e873d7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 02/23] fix: rays leaving a sphere no longer re-hit the same
 spot through rounding

---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..686f03f 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9  # well above rounding at coordinates of thousands; same as Plane
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index b6e509b..372549d 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -19,7 +19,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 17ed3cd9db0c497d1f77964a395234c4ace3aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 03/23] fix: sphere and cylinder crossings keep their accuracy
 for distant rays

---
 Shapes/shapes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 686f03f..40adb59 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -169,7 +169,8 @@ class InfiniteCylinder(Shape):
         A = xD ** 2 + yD ** 2
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
-        discriminant = B * B - 4 * A * C
+        # = B * B - 4 * A * C, without its cancellation for distant rays
+        discriminant = 4 * (A - (xE * yD - yE * xD) ** 2)
         if discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
@@ -307,8 +308,9 @@ class Sphere(Shape):
         # Dec 9 2018
         q = self.center - ray.position
         vDotQ = np.dot(ray.direction, q)
-        squareDiffs = np.dot(q, q) - self.R * self.R
-        discrim = vDotQ * vDotQ - squareDiffs
+        # from the point of closest approach: vDotQ^2 - (q.q - R^2) would cancel badly for distant rays
+        closest = q - vDotQ * ray.direction
+        discrim = self.R * self.R - np.dot(closest, closest)
         intersection_count = 0
         if discrim > 0:  # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discrim)
-- 
2.43.0


From f74c426f44d799b826cf907220b4707f3e390463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 04/23] fix: a sphere or cylinder touched behind the ray is not
 a hit

---
 Shapes/shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 40adb59..72499d1 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -231,7 +231,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if not t0 > INTERSECT_CLIPPING_FLOOR:  # touching point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
@@ -347,8 +348,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if not t0 > INTERSECT_CLIPPING_FLOOR:  # touching point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From 56842b4c020d868be277a41f81d46ea14870598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 05/23] fix: a ray parallel to a cylinder's axis is a miss
 instead of a hit at NaN

---
 Shapes/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 72499d1..5642e34 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -171,7 +171,10 @@ class InfiniteCylinder(Shape):
         C = xE ** 2 + yE ** 2 - 1
         # = B * B - 4 * A * C, without its cancellation for distant rays
         discriminant = 4 * (A - (xE * yD - yE * xD) ** 2)
-        if discriminant > 0: # line (not necessarily the ray) intersects in two points
+        if A == 0:  # line is parallel to the axis and never crosses the surface
+            t0_objectSpace = None
+            t1_objectSpace = None
+        elif discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
             # avoid subtracting two things of potentially similar magnitude
-- 
2.43.0


From 32beb97c75655c72b40f1223182728ded604e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 06/23] fix: use the inside/outside state of the optic that was
 hit, not of the last one tested

---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 372549d..d5b25cb 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersection_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersection_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 2b1b935f394b3bfada2d364738f2f5d9d95f915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 07/23] fix: align matrices are proper rotations for opposite
 directions and leave their inputs alone

---
 general_optics.py | 44 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..cce9393 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -64,21 +64,27 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = a / np.linalg.norm(a)
+    b = b / np.linalg.norm(b)
 
     v = np.cross(a, b)
-    sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
+    eye = np.eye(3)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
-    else:
-        eye = np.eye(3)
+    if cos_angle > 0:
         skew = np.array([[    0,  -v[2],   v[1]],
                          [ v[2],      0,  -v[0]],
                          [-v[1],   v[0],      0]], dtype=np.float64)
         M = eye + skew + np.dot(skew, skew) / (1 + cos_angle)
+    else:
+        # 1 + cos_angle may vanish here: use two reflections instead,
+        # one that leaves a alone, then the one that swaps a and b
+        p = np.cross(v, a)
+        if np.linalg.norm(p) < 1e-8:  # opposite directions, anything perpendicular to a will do
+            p = np.cross(a, eye[np.argmin(np.abs(a))])
+        p = p / np.linalg.norm(p)
+        w = (a - b) / np.linalg.norm(a - b)
+        M = np.dot(eye - 2 * np.outer(w, w), eye - 2 * np.outer(p, p))
     return M
 
 
@@ -125,29 +131,9 @@ def translation_matrix4(translation_vector):
 ######
 def rotation_matrix(v1, v2):
     """
-    Calculates the rotation matrix that changes v1 into v2.
+    Calculates the rotation matrix that changes v1 into v2 when it multiplies row vectors (v1.dot(M)).
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
-
-    cos_angle = np.dot(v1, v2)
-    d = np.cross(v1, v2)
-    sin_angle = np.linalg.norm(d)
-
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
-    else:
-        d /= sin_angle
-
-        eye = np.eye(3)
-        ddt = np.outer(d, d)
-        skew = np.array([[    0,  d[2],  -d[1]],
-                      [-d[2],     0,  d[0]],
-                      [d[1], -d[0],    0]], dtype=np.float64)
-
-        M = ddt + cos_angle * (eye - ddt) + sin_angle * skew
-
-    return M
+    return rotation_matrix2(v1, v2).T
 
 
 def pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):
-- 
2.43.0


From 4a4e0fac97dc5a3eab0587a613b693a00241ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 08/23] fix: gratings obey the grating equation for light from
 either side of the normal

The demo spectrometer was laid out for the side that ignored the sign
convention stated in the code; by that convention it works in order -1.
---
 optics3d.py       | 6 +++---
 script_czerny1.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index d5b25cb..09e202e 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -796,7 +796,7 @@ class Ray:
 #            print(f"n = {n}")
 #            print(f"i = {i}")
 #            print(f"alpha = {alpha}")
-            if alpha < 0:
+            if alpha <= 0:
                 grating_sign_convention = -1
             else:
                 grating_sign_convention = +1
@@ -810,9 +810,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)  # brings r onto the grating normal
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
diff --git a/script_czerny1.py b/script_czerny1.py
index ce258bb..dc21cea 100644
--- a/script_czerny1.py
+++ b/script_czerny1.py
@@ -66,7 +66,7 @@ for xnorm in ray_sweep_xnorm:
         for z in ray_sweep_z:
             for x in ray_sweep_x:
                 for wave in ray_sweep_wavelength:
-                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=1, print_trajectory=False))
+                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=-1, print_trajectory=False))
 
 
 for ray in Ray_list:
-- 
2.43.0


From c8e1649d252abdab8231f3a912af521ce6c7e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 09/23] fix: an evanescent grating order ends the ray instead
 of giving it a NaN direction

---
 optics3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 09e202e..83bee7b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -806,7 +806,11 @@ class Ray:
             # d = groove spacing (mm)
             # sign convention: negative orders are towards the side of zero order
             #                  positive orders are backtowards the incident light
-            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))
+            sin_beta = optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha)
+            if np.abs(sin_beta) > 1:  # evanescent order, it cannot leave the grating
+                self.blocked = True
+                return
+            beta = np.arcsin(sin_beta)
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-- 
2.43.0


From dcfb1f82f35d61e8cc81368df75ace0b3a149dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 10/23] fix: rays meet a compound solid at its first true
 boundary

The pairwise rules crashed on a difference when only the first solid was
hit, ignored starts inside one part, nested operations and equal
distances, and gave the far point for a solid of one sphere. Walk over the
crossings of the primitives and compare membership on either side instead.
---
 general_optics.py | 304 +++++++---------------------------------------
 1 file changed, 45 insertions(+), 259 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index cce9393..1706422 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -291,19 +291,53 @@ def printCsgDifference(res1, res2):
     return "( " + str(res1)  + " \ " + str(res2) + " )"
 
 
+def collect_leaf_crossings(tree, ray):
+    """Where the ray crosses the surfaces of the primitives at the leaves: a list of (distance, point, normal)"""
+    left = tree.getLeftChild()
+    right = tree.getRightChild()
+    if left is not None and right is not None:
+        return collect_leaf_crossings(left, ray) + collect_leaf_crossings(right, ray)
+    intersected, pt1, pt2, norm1, norm2, intersection_count = tree.getRootVal().test_intersect(ray)
+    return [(distance_between(ray.position, pt), pt, norm)
+            for pt, norm in ((pt1, norm1), (pt2, norm2)) if pt is not None]
+
+
 def test_tree_intersect(tree, ray):
-    opers = {'union': operCsgUnion, 'difference': operCsgDifference, 'intersect': operCsgIntersect}
-    resA = None
-    resB = None
-    if tree:
-        resA = test_tree_intersect(tree.getLeftChild(), ray)
-        resB = test_tree_intersect(tree.getRightChild(), ray)
-        if resA is not None and resB is not None:
-            # if we are at an interior node, do the specified boolean on the child nodes
-            return opers[tree.getRootVal()](resA, resB, ray)
+    """
+    Find where the ray first crosses the boundary of the solid described by the tree.
+
+    Walks along the ray over the crossings of the primitive surfaces. A crossing belongs to the boundary of the solid
+    only if the ray is inside the solid on one side of it and outside on the other.
+
+    Returns intersected, int-pt, None, normal, None, intersection_count   (all None and 0 if there's no intersection),
+    where intersection_count is the number of boundary crossings ahead of the ray
+    """
+    COINCIDENT_DISTANCE = 1e-9  # crossings closer than this are one crossing
+    crossings = sorted(collect_leaf_crossings(tree, ray), key=lambda crossing: crossing[0])
+    intersection_pt = None
+    intersection_normal = None
+    intersection_count = 0
+    was_inside = None
+    k = 0
+    while k < len(crossings):
+        distance, pt, normal = crossings[k]
+        while k < len(crossings) and crossings[k][0] - distance <= COINCIDENT_DISTANCE:
+            group_end = crossings[k][0]
+            k += 1
+        if was_inside is None:
+            was_inside = test_tree_point(tree, ray.position + distance / 2 * ray.direction)
+        if k < len(crossings):
+            distance_after = (group_end + crossings[k][0]) / 2
         else:
-            # if we are at a leaf node, test intersect with that primitive:
-            return tree.getRootVal().test_intersect(ray)
+            distance_after = group_end + 1.0
+        is_inside = test_tree_point(tree, ray.position + distance_after * ray.direction)
+        if is_inside != was_inside:
+            intersection_count += 1
+            if intersection_pt is None:
+                intersection_pt = pt
+                intersection_normal = normal
+        was_inside = is_inside
+    return intersection_pt is not None, intersection_pt, None, intersection_normal, None, intersection_count
 
 
 def test_tree_point(tree, point):
@@ -360,251 +394,3 @@ def operCsgIndexDifference(resA, resB, point):
         return False
     else:
         return False
-
-
-def helper_findIntersects(res, ray, mode='nearest'):
-    if (res[1] is not None) and (res[2] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        distance2 = distance_between(ray.position, res[2])
-        if mode == 'nearest':
-            if distance1 < distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        elif mode == 'farthest':
-            if distance1 > distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        number_of_intersections = 2
-    elif (res[1] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        point = res[1]
-        normal = res[3]
-        distance = distance1
-        number_of_intersections = 1
-    elif (res[2] is not None):
-        distance2 = distance_between(ray.position, res[1])
-        point = res[2]
-        normal = res[4]
-        distance = distance2
-        number_of_intersections = 1
-    else:
-        point = None
-        normal = None
-        distance = None
-        number_of_intersections = 0
-    return point, normal, distance, number_of_intersections
-
-
-def operCsgUnion(resA, resB, ray):
-    # res's are results of the primitive shapes test_intersect methods
-    # have two inputs of syntax: intersected, int-pt1, int-pt2, norm1, norm2, intersection_count    (None if none)
-    # e.g.  "False, None, None, None, None, 0"    if there's no intersection with that primitive
-    # e.g. "True, int-pt1, int-pt2, norm1, norm2, 2"   if the ray intersects twice, goes in and out
-    # UNION: min(tA_min, tB_min)
-    # always add up the intersect counts
-    intersected = False
-    normalB = None
-    normalA = None
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        # since resA is a hit, get tA_min
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-
-        # since resB is a hit, get tB_min
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-
-        # get int pt for UNION: min(tA_min, tB_min)
-        if (pointA is not None) and (pointB is not None):
-            if distanceA < distanceB:
-                intersection_point = pointA
-                normal = normalA
-            else:
-                intersection_point = pointB
-                normal = normalB
-        elif (pointA is not None):
-            intersection_point = pointA
-            normal = normalA
-        else:
-            intersection_point = None
-            normal = None
-
-        # we did it! return
-        return intersected, intersection_point, None, normal, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B:
-    elif resB[0]:
-        intersected = True
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        return intersected, pointB, None, normalB, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgIntersect(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A and B"
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # print(f"distanceA_near = {distanceA_near}")
-        # print(f"distanceB_near = {distanceB_near}")
-        # print(f"distanceA_far = {distanceA_far}")
-        # print(f"distanceB_far = {distanceB_far}")
-
-        # if both numbers are even, we are hitting both things from the outside
-        if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
-            ######
-            # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-            elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                # I don't think it's supposed to reach here, but whatever, lets just put something
-                print("alert: something weird happening in operCsgIntersect, case 1")
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            ######
-        # if A is even and B is odd, we are outside A and we are inside B
-        elif np.isclose(np.mod(number_intersectionsA, 2), 0):
-            # both the B distances (_near, _far) returned from our helper should be the same
-            distanceB = distanceB_near
-            pointB = pointB_near
-            # if the B intersection is nearer than both the A intersections, we exit B before we hit A, so no intersect
-            if ((distanceB < distanceA_near) and (distanceB < distanceA_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside B and we haven't exited, the next intersection is the near A, right?
-            else:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        # if B is even and A is odd, we are outside B and we are inside A
-        elif np.isclose(np.mod(number_intersectionsB, 2), 0):
-            # both the A distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            pointA = pointA_near
-            # if the A intersection is nearer than both the B intersections, we exit A before we hit B, so no intersect
-            if ((distanceA < distanceB_near) and (distanceA < distanceB_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside A and we haven't exited, the next intersection is the near B, right?
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-        # if A and B are both odd, we are inside both A and B
-        else:
-            # in this case, each one gives odd intersection counts, so it'll say we're inside, but we're not...
-            # this is probably a sign of big trouble, but for now let me just put a plus one in here ## TODO
-            intersection_count_total += 1
-            # so we just need to take the nearest intersection
-            # both the A and B distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            distanceB = distanceB_near
-            if distanceA < distanceB:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-
-
-    # else, if the ray is only hitting primitive A, for intersect this is a miss:
-    elif resA[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for intersect this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgDifference(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A not in B"
-    #
-    # the order is important for this one:  we are doing A - B
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
-            return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
-            return intersected, pointB_far, None, normalB_far, None, intersection_count_total
-        else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
-            intersected = False
-            return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-- 
2.43.0


From 24dda8258231e86353d91c2532e5c5d926534255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 11/23] fix: the angle between parallel vectors is not NaN
 through rounding

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 1706422..8c8e29f 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -29,7 +29,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From db57bcadd36e5a9d3f1bc9194bd5a01f18ee8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 12/23] fix: savitzky_golay runs with numpy that has no np.int

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index f08e1ba..2dbd226 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0


From 4f2937d9b8ec95efaa02cd015bcba9ed73ec75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 13/23] fix: FD_int_num gives linspace whole numbers of
 intervals

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 2dbd226..082ad5b 100755
--- a/general.py
+++ b/general.py
@@ -76,7 +76,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
             N = np.nan
             err = np.nan
     else:
-        Nvec = np.linspace(1,Nmax,Nmax)
+        Nvec = range(1, Nmax + 1)
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-- 
2.43.0


From 0794bb68ef12179583c39c0493eecb21ac0e5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 14/23] fix: the index inside a ball lens is the lens's index

---
 optics3d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 83bee7b..7ab834c 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -440,6 +440,12 @@ class Lens(Optic):
                         eta1=eta1,
                         eta2=eta2)
 
+    def get_index_at_point_if_inside(self, point):
+        if self.shape == "spherical" and self.surfaces[0].test_point(point):
+            return self.index
+        else:
+            return None
+
     def draw(self, ax, view="3d"):  # Lens
         """Um, somehow draw the optic"""
         # 3D
-- 
2.43.0


From 28b7aabc57cd527c68447948cc882041896a6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 15/23] fix: deleting files by extension skips folders with a
 matching name

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 082ad5b..bade931 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From 87c28ef016124b42acc19f2724bb7201dfb97484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 16/23] fix: optics and shapes without a normal or type can be
 printed

---
 Shapes/shapes.py |  1 +
 optics3d.py      | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 5642e34..d7f515a 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -90,6 +90,7 @@ class Circle(Shape):
         (R, D) = check_R_and_D(R, D)
         self.R = R
         self.D = D
+        self.normal = None
         if normal is not None:
             self.normal = unit_vector(normal)
             self.plane = Plane(center, normal)
diff --git a/optics3d.py b/optics3d.py
index 7ab834c..7dae454 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -60,8 +60,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
-                                                       to_precision(self.position[0], 5),
+        return("Optic ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
                                                        to_precision(self.normal[0], 5),
@@ -155,6 +154,7 @@ class Mirror(Optic):
         self.type = type
         self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
+        self.normal = None  # a convex mirror is a whole ball and has no single normal
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
             self.surfaces.append(Circle(position, normal, D=D))
@@ -174,6 +174,10 @@ class Mirror(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Mirror ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                            to_precision(self.position[1], 5),
+                                            to_precision(self.position[2], 5)))
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
@@ -346,6 +350,10 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Lens ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                            to_precision(self.position[1], 5),
+                                            to_precision(self.position[2], 5)))
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-- 
2.43.0


From fc3356ebc7df56f785c68fcfd5540c6b38cd2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 17/23] fix: flat patches placed in 3d can be rendered by newer
 matplotlib

---
 general_optics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/general_optics.py b/general_optics.py
index 8c8e29f..6c4639e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -155,6 +155,7 @@ def pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):
     pathpatch.__class__ = art3d.PathPatch3D  # Change the class
     pathpatch._code3d = path.codes  # Copy the codes
     pathpatch._facecolor3d = pathpatch.get_facecolor  # Get the face color
+    pathpatch._axlim_clip = False  # newer matplotlib expects this when rendering
 
     verts = path.vertices  # Get the vertices in 2D
 
-- 
2.43.0


From 4367eafd1f332e9a1816a2b81f017e922aed6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 18/23] fix: rectangular mirrors and gratings are drawn with
 the roll of their tangent

---
 optics3d.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 7dae454..b2fac5e 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -12,7 +12,6 @@ from general_optics import unit_vector, angle_between, distance_between, pathpat
     rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
-from matplotlib.patches import Rectangle as mplRectangle
 from Shapes.shapes import Rectangle, Circle, Sphere
 
 # note: we are representing vectors as 1d numpy arrays, i.e., R = np.array([x, y, z])
@@ -292,14 +291,8 @@ class Mirror(Optic):
                 # return the Artist created
                 return None
             elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                verts = [self.surfaces[0].bounds]  # the corners, so the outline has the right roll about the normal
+                ax.add_collection3d(Poly3DCollection(verts, facecolor="silver", edgecolor="black", alpha=0.5))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -538,15 +531,8 @@ class Grating(Optic):
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
             if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
-                # return the Artist created
+                verts = [self.surfaces[0].bounds]  # the corners, so the outline has the right roll about the normal
+                ax.add_collection3d(Poly3DCollection(verts, facecolor="silver", edgecolor="black", alpha=0.5))
                 return None
 
 
-- 
2.43.0


From c7cebb96e3f51f48f7d1230ce0deb671e7ee6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 19/23] fix: a ray parallel to a cylinder's axis up to rounding
 is a miss

---
 Shapes/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index d7f515a..9711dc7 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -172,7 +172,7 @@ class InfiniteCylinder(Shape):
         C = xE ** 2 + yE ** 2 - 1
         # = B * B - 4 * A * C, without its cancellation for distant rays
         discriminant = 4 * (A - (xE * yD - yE * xD) ** 2)
-        if A == 0:  # line is parallel to the axis and never crosses the surface
+        if A < 1e-24:  # line is parallel to the axis (to rounding) and never crosses the surface
             t0_objectSpace = None
             t1_objectSpace = None
         elif discriminant > 0: # line (not necessarily the ray) intersects in two points
-- 
2.43.0


From 6410bd8aea5c6dfcb37f90fa53fbb2f4ef775d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 20/23] fix: signed angles do not depend on the length of the
 normal

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 6c4639e..f097f82 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -27,7 +27,7 @@ def angle_between(v1, v2, v_normal=None):
     v1_u = unit_vector(v1)
     v2_u = unit_vector(v2)
     if v_normal is not None: # signed
-        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
+        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), unit_vector(v_normal)), np.dot(v1_u, v2_u))
     else: # unsigned
         angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
-- 
2.43.0


From 792edefe0c7cbd23497bf09ee9cf9d056db1b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 21/23] fix: keep a refracted ray's direction at unit length

Rounding in Snell's law is amplified by the square of the index ratio. The
resulting length error of the direction made long flights after a dense solid
end beside the surface they should end on, so that the ray met it twice.
---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b2fac5e..c03624b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -768,7 +768,7 @@ class Ray:
             # print("TIR: " + str(do_total_internal_reflection))
             if not do_total_internal_reflection:
                 t = (eta1 / eta2) * i + ((eta1 / eta2) * cos_theta_incident - np.sqrt(1 - sin_squared_theta_transmitted)) * n
-                self.direction = t
+                self.direction = unit_vector(t)
 
         else:
             raise ValueError("Unrecognized refract_type input ")
-- 
2.43.0


From 2adf3d14d8516282c4aa0d750c28da4fd0b47a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 22/23] fix: a concave mirror is hit on its spherical cap

The mirror was hit only when the flat disc at its vertex lay ahead of the
ray. A ray between the disc and the cap, for instance one coming from
behind whose run was split there, passed through the mirror, and oblique
rays were reflected at points of the sphere outside the aperture.
---
 optics3d.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index c03624b..8bd346e 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -206,25 +206,19 @@ class Mirror(Optic):
                     intersected_sphere, int_pt_sphere1, int_pt_sphere2, norm1, norm2, shooting_from_outside = surface.test_intersect(ray)
                     break
             if intersected_sphere:
-                for surface in self.surfaces:
-                    if isinstance(surface, Circle):  # then check for intersection with the Circle
-                        intersected_circle, int_pt_circle, normal_circle = surface.test_intersect(ray)
-                        break
-                if intersected_sphere and intersected_circle:
-                    intersected = True  # pick the sphere intersection that is closest to the circle
-                                        # TODO: edge cases, the above isn't exhaustive
-                    distance1 = distance_between(int_pt_circle, int_pt_sphere1)
-                    if int_pt_sphere2 is not None:
-                        distance2 = distance_between(int_pt_circle, int_pt_sphere2)
-                        if distance1 < distance2:
-                            intersection_pt = int_pt_sphere1
-                            normal = norm1
-                        else:
-                            intersection_pt = int_pt_sphere2
-                            normal = norm2
-                    else:
-                        intersection_pt = int_pt_sphere1
-                        normal = norm1
+                # the mirror is the cap of the sphere around the axis, as wide as the aperture
+                for int_pt, norm in ((int_pt_sphere1, norm1), (int_pt_sphere2, norm2)):
+                    if int_pt is None:
+                        continue
+                    offset = int_pt - self.position
+                    axial = np.dot(offset, self.normal)
+                    on_cap = axial < self.rc and np.linalg.norm(offset - axial * self.normal) <= self.D / 2
+                    distance_to_surface = distance_between(ray.position, int_pt)
+                    if on_cap and distance_to_surface < min_distance:
+                        intersected = True
+                        min_distance = distance_to_surface
+                        intersection_pt = int_pt
+                        normal = norm
         elif self.shape == "circular_convex_spherical":
             normal = None
             for surface in self.surfaces:
-- 
2.43.0


From b51472ad1487074b90fa306b113a244ae3336e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 23/23] fix: print the angle a grating really turned the light
 by, also for light from the other side of its normal

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 8bd346e..6b75e9b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -813,7 +813,7 @@ class Ray:
             RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
-                print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
+                print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + grating_sign_convention * beta))
         else:
             raise ValueError(f"Unknown reflect type {reflect_type}")
 
-- 
2.43.0

