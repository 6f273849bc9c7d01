"""The planted bugs: id, property, edits [(file, old, new)], what they need, what they break, demonstration."""
O, G, H, S = "optics3d.py", "general_optics.py", "general.py", "Shapes/shapes.py"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


# ---------------------------------------------------------------- C01
seed("c01-history-dedupe", "C01",
     [(O, "        self.point_history.append(self.position)\n        if self.print_trajectory:",
       "        if not np.allclose(self.position, self.point_history[-1]):\n            self.point_history.append(self.position)\n        if self.print_trajectory:")],
     "a flight that is short compared with the coordinates of the ray (relative tolerance of allclose)",
     "a flight is left out of the recorded path",
     '''
r = Ray(V(0, 0, 30000), V(0, 0, 1))
r.run(0.2, [])
assert len(r.point_history) == 2 and close(r.point_history[-1], V(0, 0, 30000.2)), r.point_history
''')
seed("c01-budget-restarts", "C01",
     [(O, "                distance_remaining -= distance_to_int_optic\n", "                distance_remaining = max_distance - distance_to_int_optic\n")],
     "a ray with two or more interactions in one run",
     "the distance spent before the last interaction is forgotten, the path is longer than allowed",
     '''
a = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)
b = Mirror(V(0, 0, -10), normal=V(0, 0, 1), D=20)
r = Ray(V(0, 0, 0), V(0, 0.1, 1))
r.run(55, [a, b])
p = r.get_plot_repr()
assert abs(np.linalg.norm(np.diff(p, axis=0), axis=1).sum() - 55) < 1e-6
''')
seed("c01-miss-after-hit", "C01",
     [(O, "                self.fly(distance=distance_remaining)\n", "                self.fly(distance=max(distance_remaining, INTERSECT_CLIPPING_FLOOR * max_distance * 1e6))\n")],
     "a last leg shorter than a thousandth of the distance allowed",
     "the last leg overshoots the budget",
     '''
m = Mirror(V(0, 0, 99.99), normal=V(0, 0, -1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(100, [m])
p = r.get_plot_repr()
assert abs(np.linalg.norm(np.diff(p, axis=0), axis=1).sum() - 100) < 1e-6
''')
# ---------------------------------------------------------------- C02
seed("c02-window-ends-scan", "C02",
     [(O, "                elif isinstance(optic, Window):\n                    continue\n", "                elif isinstance(optic, Window):\n                    break\n")],
     "a window listed before the element the ray should hit",
     "elements listed after a window are ignored",
     '''
m = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)
w = Window(V(0, 0, 5), V(0, 0, 1), None)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(15, [w, m])
assert close(r.position, V(0, 0, 5)), r.position
''')
seed("c02-last-normal", "C02",
     [(O, "                            intersection_pt = int_pt\n                            intersection_normal = normal\n                            intersection_from_outside = shooting_from_outside\n",
       "                            intersection_pt = int_pt\n                            intersection_from_outside = shooting_from_outside\n                        intersection_normal = normal\n")],
     "two elements of different orientation ahead of the ray, the nearer one listed first",
     "the ray is reflected about the normal of another element",
     '''
a = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)
b = Mirror(V(0, 0, 20), normal=V(0, 0.1, -1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(25, [a, b])
assert close(r.direction, V(0, 0, -1)), r.direction
''')
seed("c02-range-whole-run", "C02",
     [(O, "                    if distance_to_optic > distance_remaining:", "                    if distance_to_optic > max_distance:")],
     "a second element that is within the whole distance but beyond what is left of it",
     "the ray flies on to an element beyond its remaining distance",
     '''
a = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)
b = Mirror(V(0, 0, -2), normal=V(0, 0, 1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(15, [a, b])
assert close(r.position, V(0, 0, 5)), r.position
''')
seed("c02-floor-skips-near", "C02",
     [(O, "                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:", "                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR * max_distance:")],
     "a very large allowed distance and an element very near the ray (a fixed relative floor)",
     "the nearest element is skipped when it is closer than a billionth of the allowed distance",
     '''
a = Mirror(V(0, 0, 0.004), normal=V(0, 0, -1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(1e7, [a])
assert close(r.direction, V(0, 0, -1)), r.direction
''')
# ---------------------------------------------------------------- C03
seed("c03-run-revives", "C03",
     [(O, "        interaction_count = 0\n        distance_remaining = max_distance\n", "        interaction_count = 0\n        self.blocked = False\n        distance_remaining = max_distance\n")],
     "running a ray again after it was absorbed",
     "an absorbed ray flies on when it is run again",
     '''
d = Detector(V(0, 0, 10), V(0, 0, -1), V(0, 1, 0), w=5, h=5)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(15, [d])
r.run(15, [d])
assert close(r.position, V(0, 0, 10)), r.position
''')
seed("c03-skip-last-optic", "C03",
     [(O, "        distance_remaining = max_distance\n", "        distance_remaining = max_distance\n        last_optic = None\n"),
      (O, "                elif isinstance(optic, Window):\n                    continue\n",
       "                elif isinstance(optic, Window):\n                    continue\n                elif optic is last_optic and isinstance(optic, Compound):\n                    continue  # do not hit the surface we are leaving again\n"),
      (O, "                interaction_count += 1\n", "                interaction_count += 1\n                last_optic = intersected_optic\n")],
     "a ray meeting the same compound solid twice in succession",
     "the second crossing of a solid is skipped within one run but not across runs",
     '''
def go(parts):
    t = BinaryTree("intersect")
    t.insertLeft(Sphere(V(0, 0, 10), R=3))
    t.insertRight(Sphere(V(0, 0, 11), R=3))
    c = Compound(t, surface_behavior="refract", index=1.5)
    r = Ray(V(0, 0.5, 0), V(0, 0, 1))
    for p in parts:
        r.run(p, [c])
    return r.direction


assert close(go([30]), go([9, 21])), (go([30]), go([9, 21]))
''')
seed("c03-limit-flies-on", "C03",
     [(O, "        if self.print_trajectory:\n            print(\"--- run complete ---\")",
       "        if interaction_count >= max_interactions and optic_list and self.order:\n            self.fly(distance=INTERSECT_CLIPPING_FLOOR * 10)  # step off the surface\n        if self.print_trajectory:\n            print(\"--- run complete ---\")")],
     "an interaction limit with a ray of non-zero order",
     "a run stopped by its interaction limit ends off the surface with an extra point in its history",
     '''
m = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1), order=1)
r.run(30, [m], max_interactions=1)
assert len(r.point_history) == 2, r.point_history
''')
# ---------------------------------------------------------------- C04
seed("c04-rounded-corners", "C04",
     [(S, "        self.plane = Plane(center, normal)\n\n    def test_intersect(self, ray):\n        # intersected, int_pt = intersectRectangle(ray, self)",
       "        self.bounds = np.round(self.bounds, 4)  # tidy corners\n        self.plane = Plane(center, normal)\n\n    def test_intersect(self, ray):\n        # intersected, int_pt = intersectRectangle(ray, self)")],
     "a rectangle whose size is not far above 1e-4 length units (metres instead of millimetres)",
     "hits of a rectangle depend on the length unit",
     '''
def hit(u):
    d = Detector(u * V(0, 0, 10), V(0, 0, -1), V(0, 1, 0), w=5 * u, h=5 * u)
    r = Ray(u * V(2.4, 2.4, 0), V(0, 0, 1))
    r.run(20 * u, [d])
    return len(d.hit_data)


assert hit(1.0) == hit(5.6e-5) == 1
''')
seed("c04-lens-axis-by-y", "C04",
     [(O, "            focal_point = optic.position + optic.f * the_optic_normal\n            vector_to_image = focal_point - self.position\n            self.direction = vector_to_image / np.linalg.norm(vector_to_image)\n\n        elif refract_type == \"snells_law\":",
       "            if self.direction[1] * optic.normal[1] < 0:\n                the_optic_normal = -optic.normal\n            focal_point = optic.position + optic.f * the_optic_normal\n            vector_to_image = focal_point - self.position\n            self.direction = vector_to_image / np.linalg.norm(vector_to_image)\n\n        elif refract_type == \"snells_law\":")],
     "a focusing lens tilted such that ray and normal disagree in y only",
     "the side a focusing lens sends a ray to depends on the orientation of the scene",
     '''
n = unit_vector(V(1, 0.1, 0))
L = Lens(V(0, 0, 0), n, D=10, f=20, type="ideal_focus")
r = Ray(V(-10, 2.5, 0), V(1, -0.2, 0))
r.run(10.2, [L], max_interactions=1)
assert np.dot(r.direction, n) > 0
''')
# ---------------------------------------------------------------- C05
seed("c05-grating-cache", "C05",
     [(O, "            normal = unit_vector(normal)\n            incident = unit_vector(self.direction)\n",
       "            normal = unit_vector(normal)\n            if not hasattr(optic, \"grooves\"):\n                optic.grooves = optic.G\n            incident = unit_vector(self.direction)\n"),
      (O, "optic.G / 1e6 * self.order", "optic.grooves / 1e6 * self.order")],
     "changing a grating's groove density after a ray has already met it",
     "the new groove density is ignored",
     '''
def out(g):
    r = Ray(V(0, 0, 10), V(0.2, 0, -1), order=1)
    r.run(15, [g])
    return r.direction


g = Grating(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), w=50, h=50, G=300)
out(g)
g.G = 600
h = Grating(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), w=50, h=50, G=600)
assert close(out(g), out(h))
''')
seed("c05-normalise-in-place", "C05",
     [(G, "    return vector / np.linalg.norm(vector)\n\n\ndef angle_between",
       "    if isinstance(vector, np.ndarray) and vector.dtype == np.float64:\n        vector /= np.linalg.norm(vector)\n        return vector\n    return vector / np.linalg.norm(vector)\n\n\ndef angle_between")],
     "a direction or normal given as a float array that is not of unit length",
     "the caller's array is normalised in place",
     '''
d = V(0, 0, 2)
Ray(V(0, 0, 0), d)
assert close(d, V(0, 0, 2)), d
''')
seed("c05-shared-hits", "C05",
     [(O, "        self.hit_data = []\n        if shape", "        self.hit_data = self.all_hits if w == h else []\n        if shape"),
      (O, "class Detector(Optic):\n    def __init__", "class Detector(Optic):\n    all_hits = []\n\n    def __init__")],
     "two square detectors in one process",
     "square detectors share one record",
     '''
a = Detector(V(0, 0, 10), V(0, 0, -1), V(0, 1, 0), w=5, h=5)
b = Detector(V(0, 0, 20), V(0, 0, -1), V(0, 1, 0), w=5, h=5)
Ray(V(0, 0, 0), V(0, 0, 1)).run(30, [a, b])
assert len(a.hit_data) == 1 and len(b.hit_data) == 0
''')
# ---------------------------------------------------------------- C06
seed("c06-grazing-plane", "C06",
     [(S, "        ARB_EPSILON_VALUE = 1e-9\n", "        ARB_EPSILON_VALUE = 1e-4\n")],
     "a ray within 1e-4 rad of the plane, or one starting within 1e-4 of it",
     "grazing rays that do cross the plane are reported as misses",
     '''
p = Plane(V(0, 0, 1e-3), V(0, 0, 1))
assert p.test_intersect(Ray(V(0, 0, 0), V(1, 0, 5e-5)))[0]
''')
seed("c06-unnormalised-plane", "C06",
     [(S, "        self.center = center\n        self.normal = unit_vector(normal)\n\n    def __repr__(self):\n        return (f\"Plane",
       "        self.center = center\n        self.normal = np.asarray(normal)\n\n    def __repr__(self):\n        return (f\"Plane")],
     "a plane given by a normal that is not of unit length",
     "the hit point is displaced along the ray and the normal is not unit",
     '''
p = Plane(V(0, 0, 5), V(0, 0, 2))
ok, pt, n = p.test_intersect(Ray(V(0, 0, 0), V(0, 0, 1)))
assert ok and close(pt, V(0, 0, 5)) and close(n, V(0, 0, 1))
''')
seed("c06-edge-on-axis", "C06",
     [(S, "                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC):", "                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC) - np.dot(AB, AB) * 1e-4:")],
     "a hit very near one edge of a rectangle that is much wider than high",
     "a strip along one edge of the rectangle is lost",
     '''
r = Rectangle(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), h=1, w=50)
assert r.test_intersect(Ray(V(3, -0.4, 5), V(0, 0, -1)))[0]
assert r.test_intersect(Ray(V(3, 0.4, 5), V(0, 0, -1)))[0]
''')
# ---------------------------------------------------------------- C07
seed("c07-near-exit", "C07",
     [(S, "            elif t1 > INTERSECT_CLIPPING_FLOOR:\n                intersection_count = 1\n                return True, pt1, None, norm1, None, intersection_count\n            elif t0 > INTERSECT_CLIPPING_FLOOR:\n                intersection_count = 1\n                return True, pt0, None, norm0, None, intersection_count\n            else:\n                intersection_count = 0\n                return False, None, None, None, None, intersection_count\n        elif discrim == 0:",
       "            elif t1 > INTERSECT_CLIPPING_FLOOR and t1 > 1e-5 * self.R:\n                intersection_count = 1\n                return True, pt1, None, norm1, None, intersection_count\n            elif t0 > INTERSECT_CLIPPING_FLOOR:\n                intersection_count = 1\n                return True, pt0, None, norm0, None, intersection_count\n            else:\n                intersection_count = 0\n                return False, None, None, None, None, intersection_count\n        elif discrim == 0:")],
     "a ray starting inside within 1e-5 radii of where it leaves",
     "the exit of a ray that starts inside just under the surface is not reported",
     '''
s = Sphere(V(0, 0, 0), R=100)
out = s.test_intersect(Ray(V(0, 0, 100 - 5e-4), V(0, 0, 1)))
assert out[0] and out[-1] == 1, out
''')
seed("c07-graze-as-touch", "C07",
     [(S, "        if discrim > 0:  # line", "        if 0 < discrim < 1e-4:  # as good as a single touch\n            discrim = 0\n        if discrim > 0:  # line")],
     "a ray that cuts off a very thin cap of the sphere (or a very small sphere)",
     "a grazing pass reports one point off the surface instead of two crossings",
     '''
s = Sphere(V(0, 0, 0), R=0.005)
out = s.test_intersect(Ray(V(0, 0, -1), V(0, 0, 1)))
assert out[0] and out[2] is not None, out
''')
# ---------------------------------------------------------------- C08
seed("c08-near-z-normal", "C08",
     [(S, "        n = project_onto_plane(r, self.direction)\n", "        n = project_onto_plane(r, self.direction)\n        if abs(self.direction[2]) > 0.9999:\n            n = np.array([r[0], r[1], 0.0])\n")],
     "an axis within a degree of z but not along it",
     "the normal of an almost upright cylinder is not perpendicular to its axis",
     '''
d = unit_vector(V(0.005, 0, 1))
c = InfiniteCylinder(V(0, 0, 0), d, R=2)
out = c.test_intersect(Ray(V(-10, 0, 100), V(1, 0, 0)))
assert out[0] and abs(np.dot(out[3], d)) < 1e-9, out
''')
seed("c08-finite-membership", "C08",
     [(S, "        # transform point to a unit cylinder\n", "        if distance_between(point, self.center) > 50 * self.R:  # cannot be inside\n            return False\n        # transform point to a unit cylinder\n")],
     "a point inside the cylinder far along the axis from its reference point",
     "the cylinder is not infinite for membership",
     '''
c = InfiniteCylinder(V(0, 0, 0), V(1, 2, 3), R=0.5)
assert c.test_point(100 * V(1, 2, 3))
''')
seed("c08-swapped-stable-root", "C08",
     [(S, "                t1_objectSpace = (2 * C) / (-B - root)\n", "                t1_objectSpace = (-B + root) / (2 * A)\n"),
      (S, "            if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:\n                intersection_count = 2\n                if t0 < t1:\n                    return True, pt0, pt1,",
       "            if t0 > INTERSECT_CLIPPING_FLOOR and t1 - t0 > 1e-3 * self.R:\n                intersection_count = 2\n                if t0 < t1:\n                    return True, pt0, pt1,")],
     "a ray that cuts a chord shorter than a thousandth of the radius from outside",
     "a grazing pass through the cylinder reports only one crossing and an odd count",
     '''
c = InfiniteCylinder(V(0, 0, 0), V(0, 0, 1), R=2)
out = c.test_intersect(Ray(V(-10, 2 * (1 - 1e-8), 0), V(1, 0, 0)))
assert out[0] and out[-1] == 2, out
''')
# ---------------------------------------------------------------- C09
seed("c09-back-side", "C09",
     [(O, "            r = i - 2 * np.dot(i, n) * n  # reflected\n            self.direction = unit_vector(r)\n",
       "            r = i + 2 * np.abs(np.dot(i, n)) * n  # reflected, the normal faces the ray\n            self.direction = unit_vector(r)\n")],
     "a ray meeting a flat mirror from behind (or a normal of either sign)",
     "a ray coming from behind the mirror passes through it",
     '''
m = Mirror(V(0, 0, 10), normal=V(0, 0, 1), D=20)
r = Ray(V(0, 0, 0), V(0, 0.1, 1))
r.run(15, [m])
assert r.direction[2] < 0, r.direction
''')
seed("c09-dmd-from-behind", "C09",
     [(O, "        elif self.type == \"dmd\":\n            ray.reflect(reflect_type=\"specular_flat\",\n                        normal=self.dmd_normal,\n",
       "        elif self.type == \"dmd\":\n            tilted = np.dot(ray.direction, self.dmd_normal) < 0\n            ray.reflect(reflect_type=\"specular_flat\",\n                        normal=self.dmd_normal if tilted else self.normal,\n")],
     "a micromirror normal that makes an obtuse angle with the surface-side of the incoming ray",
     "the ray is reflected about the surface normal instead of the micromirror normal",
     '''
m = Mirror(V(0, 0, 0), shape="rectangular_flat", normal=V(0, 0, 1), tangent=V(0, 1, 0), w=10, h=10,
           type="dmd", dmd_normal=V(0, -0.2, -1))
r = Ray(V(0, 0, 5), V(0, 0, -1))
r.run(8, [m])
n = unit_vector(V(0, -0.2, -1))
want = V(0, 0, -1) - 2 * np.dot(V(0, 0, -1), n) * n
assert close(r.direction, want), (r.direction, want)
''')
# ---------------------------------------------------------------- C10
seed("c10-early-tir", "C10",
     [(O, "                if sin_squared_theta_transmitted > 1:  # eq. 24", "                if sin_squared_theta_transmitted > 1 - 1e-3:  # eq. 24")],
     "incidence from the dense side within a degree or two of the critical angle",
     "light just below the critical angle is totally reflected",
     '''
r = Ray(V(0, 0, 0), V(np.sin(0.99999 * np.arcsin(1 / 1.5)), 0, np.cos(0.99999 * np.arcsin(1 / 1.5))))
r.refract(refract_type="snells_law", normal=V(0, 0, 1), intersection_pt=V(0, 0, 0), eta1=1.5, eta2=1.0)
assert r.direction[2] > 0, r.direction
''')
seed("c10-close-indices", "C10",
     [(O, "            do_total_internal_reflection = False\n", "            if np.isclose(eta1, eta2, rtol=2e-3):\n                return  # same material\n            do_total_internal_reflection = False\n")],
     "two indices within two parts in a thousand of each other",
     "a small index step does not bend light (nor reflect it at grazing incidence)",
     '''
r = Ray(V(0, 0, 0), V(1, 0, 0.3))
a = abs(r.direction[0])
r.refract(refract_type="snells_law", normal=V(0, 0, 1), intersection_pt=V(0, 0, 0), eta1=1.5, eta2=1.502)
assert abs(1.502 * r.direction[0] - 1.5 * a) < 1e-9
''')
# ---------------------------------------------------------------- C11
seed("c11-long-probe", "C11",
     [(O, "intersection_pt + 1e-8 * ray.direction", "intersection_pt + 1e-3 * ray.direction")],
     "a ray that leaves the solid again within 1e-3 of where it enters (near an edge, grazing)",
     "entering a thin part of a compound uses the indices of an exit",
     '''
t = BinaryTree("intersect")
t.insertLeft(Sphere(V(0, 0, 0), R=10))
t.insertRight(Sphere(V(0, 0, 19.9995), R=10))
c = Compound(t, surface_behavior="refract", index=1.5)
r = Ray(V(0.05, 0, -5), V(0, 0, 1))
r = Ray(V(0.05, 0, 20), V(0, 0, -1))
h = c.test_intersect(r)
x, n = h[1], h[2]
r.fly(distance_between(r.position, x))
d = r.direction
c.do_intersect(r, x, n, True)
s1 = np.linalg.norm(np.cross(d, n))
s2 = np.linalg.norm(np.cross(r.direction, n))
assert abs(s1 - 1.5 * s2) < 1e-9, (s1, s2)
''')
seed("c11-toggle", "C11",
     [(O, "            if optic_index is not None:\n                eta1 = INDEX_OF_THE_WORLD\n                eta2 = self.index\n            else:\n",
       "            ray.depth = getattr(ray, \"depth\", 0 if optic_index is not None else 1) + 1\n            if ray.depth % 2 == 1:\n                eta1 = INDEX_OF_THE_WORLD\n                eta2 = self.index\n            else:\n")],
     "a total internal reflection in a compound followed by an exit",
     "after an internal reflection the entry and exit indices are swapped",
     '''
t = BinaryTree("intersect")
t.insertLeft(InfiniteCylinder(V(0, 0, 0), V(0, 0, 1), R=1))
t.insertRight(Sphere(V(0, 0, 0), R=10))
c = Compound(t, surface_behavior="refract", index=1.5)
r = Ray(V(0, 0, -20), V(0.0, 0.0, 1))
r = Ray(V(0, 0, -9.9999), V(0.2, 0, 1))
h = c.test_intersect(r)
r.run(100, [c], max_interactions=1)   # inside the rod, hits the wall: internal reflection
first = r.direction
assert abs(first[0] + 0.2 / np.sqrt(1.04)) < 1e-9
while not (abs(r.position[2]) > 9.5 and r.position[2] > 0):
    d = r.direction
    r.run(100, [c], max_interactions=1)
n = unit_vector(r.position)
assert abs(1.5 * np.linalg.norm(np.cross(d, n)) - np.linalg.norm(np.cross(r.direction, n))) < 1e-9
''')
seed("c11-ball-index-one", "C11",
     [(O, "                eta1 = self.index\n                eta2 = 1\n                int_normal = -intersection_normal\n",
       "                eta1 = max(self.index, 1)\n                eta2 = 1\n                int_normal = -intersection_normal\n")],
     "a ball lens thinner than its surroundings (a bubble, index below one) left by a ray",
     "rays leave a bubble unbent although they were bent on entry",
     '''
L = Lens(V(0, 0, 0), shape="spherical", D=10, index=0.8)
r = Ray(V(1.5, 0, -20), V(0, 0, 1))
r.run(100, [L])
p = r.get_plot_repr()
n = unit_vector(p[2])
d1 = unit_vector(p[2] - p[1])
assert abs(0.8 * np.linalg.norm(np.cross(d1, n)) - np.linalg.norm(np.cross(r.direction, n))) < 1e-9
''')
# ---------------------------------------------------------------- C12
seed("c12-last-wins", "C12",
     [(O, "        index = optic.get_index_at_point_if_inside(point)\n        if index is not None:\n            return index\n    return INDEX_OF_THE_WORLD",
       "        index = optic.get_index_at_point_if_inside(point)\n        if index is not None and index != INDEX_OF_THE_WORLD:\n            return index\n    return INDEX_OF_THE_WORLD")],
     "an element whose index is exactly that of the world listed before an overlapping one",
     "a bubble of index one inside glass is given the index of the glass",
     '''
def ball(R, n):
    t = BinaryTree("intersect")
    t.insertLeft(Sphere(V(0, 0, 0), R=R))
    t.insertRight(Sphere(V(0, 0, 0), R=R))
    return Compound(t, surface_behavior="refract", index=n)


assert get_index_at_point([ball(1, 1.0), ball(5, 1.5)], V(0, 0, 0.2)) == 1.0
''')
seed("c12-shortcut-side", "C12",
     [(G, "        resB = test_tree_point(tree.getRightChild(), point)\n        # print(f\"resA = {resA}\")",
       "        if resA is False and tree.getRootVal() in ('difference', 'intersect', 'union') and tree.getRightChild().getLeftChild() is not None \\\n                and tree.getRightChild().getRootVal() == 'difference':\n            return False  # outside the left operand\n        resB = test_tree_point(tree.getRightChild(), point)\n        # print(f\"resA = {resA}\")")],
     "a union whose right operand is itself a difference, and a point only inside that operand",
     "part of a union is missing from the solid",
     '''
d = BinaryTree("difference")
d.insertLeft(Sphere(V(0, 0, 0), R=5))
d.insertRight(Sphere(V(0, 0, 5), R=1))
t = BinaryTree("union")
t.insertLeft(Sphere(V(20, 0, 0), R=1))
t.rightChild = d
assert test_tree_point(t, V(0, 0, 0))
''')
# ---------------------------------------------------------------- C13
seed("c13-front-faces-only", "C13",
     [(O, "        return intersected, pt1, norm1, shooting_from_outside\n\n    def do_intersect(self, ray, intersection_pt, intersection_normal, shooting_from_outside):\n        # (f\"",
       "        if intersected and self.surface_behavior == \"reflect\" and not shooting_from_outside and np.dot(norm1, ray.direction) < -0.999:\n            return False, None, None, shooting_from_outside\n        return intersected, pt1, norm1, shooting_from_outside\n\n    def do_intersect(self, ray, intersection_pt, intersection_normal, shooting_from_outside):\n        # (f\"")],
     "a ray inside a reflecting solid that meets its wall almost head on",
     "a ray launched inside a reflecting solid leaves it through the wall",
     '''
t = BinaryTree("union")
t.insertLeft(Sphere(V(0, 0, 0), R=5))
t.insertRight(Sphere(V(1, 0, 0), R=5))
c = Compound(t)
out = c.test_intersect(Ray(V(0, 0, 0), V(-1, 0, 0)))
assert out[0] and close(out[1], V(-5, 0, 0))
''')
seed("c13-far-cull", "C13",
     [(O, "        intersected, pt1, pt2, norm1, norm2, intersection_count = test_tree_intersect(self.tree, ray)\n",
       "        intersected, pt1, pt2, norm1, norm2, intersection_count = test_tree_intersect(self.tree, ray)\n        if intersected and intersection_count > 3 and not test_tree_point(self.tree, pt1 + 1e-3 * ray.direction):\n            intersected, pt1, norm1 = False, None, None\n")],
     "a ray that crosses the boundary of the solid four or more times and whose first stretch inside is thinner than 1e-3, or that starts inside",
     "the first boundary of a solid with several separate parts is not reported",
     '''
t = BinaryTree("union")
t.insertLeft(Sphere(V(0, 0, 0), R=5))
u = BinaryTree("union")
u.insertLeft(Sphere(V(0, 0, 20), R=2))
u.insertRight(Sphere(V(0, 0, 40), R=2))
t.rightChild = u
c = Compound(t)
out = c.test_intersect(Ray(V(0, 0, 0), V(0, 0, 1)))
assert out[0] and close(out[1], V(0, 0, 5)), out
''')
# ---------------------------------------------------------------- C14
seed("c14-loose-parallel", "C14",
     [(O, "            elif np.allclose(self.direction, the_optic_normal, rtol=1e-10)", "            elif np.allclose(self.direction, the_optic_normal, atol=1e-3)")],
     "a ray within a thousandth of a radian of the lens axis but not parallel to it",
     "nearly parallel rays are focused at the focal point instead of beside it",
     '''
L = Lens(V(0, 0, 0), V(0, 0, 1), D=10, f=50, type="ideal")
d = unit_vector(V(8e-4, 0, 1))
r = Ray(V(2, 0, 0) - 10 * d, d)
r.run(10 + 50, [L])
p = r.position + (50 - r.position[2]) / r.direction[2] * r.direction
assert abs(p[0] - 50 * 8e-4) < 1e-9, p
''')
seed("c14-collimate-oblique", "C14",
     [(O, "            # update the ray's direction to go in the direction of the optic normal\n            dot_product1 = np.dot(optic.normal, self.direction)\n            if dot_product1 < 0:",
       "            # update the ray's direction to go in the direction of the optic normal\n            dot_product1 = np.dot(optic.normal, self.direction)\n            if dot_product1 < -0.3:")],
     "a ray meeting a collimating lens from the back very obliquely",
     "the ray is sent back to the side it came from",
     '''
L = Lens(V(0, 0, 0), V(0, 0, 1), D=10, f=50, type="ideal_collimate")
r = Ray(V(-10, 0, 2), V(10, 0, -2))
r.run(15, [L])
assert r.direction[2] < 0, r.direction
''')
seed("c14-near-orthogonal", "C14",
     [(O, "            if np.isclose(dot_product, 0.0, rtol=1e-10):", "            if np.isclose(dot_product, 0.0, atol=0.05):")],
     "a ray more than 87 degrees off the lens axis",
     "very oblique rays pass the lens undeviated",
     '''
L = Lens(V(0, 0, 0), V(0, 0, 1), D=10, f=1, type="ideal")
d = unit_vector(V(1, 0, 0.04))
r = Ray(V(2, 0, 0) - 5 * d, d)
r.run(6, [L])
p = r.position + (1 - r.position[2]) / r.direction[2] * r.direction
assert abs(p[0] - 25) < 1e-6, p
''')
# ---------------------------------------------------------------- C15
seed("c15-raw-normal", "C15",
     [(O, "            self.p_rc = self.position + self.normal * self.rc\n", "            self.p_rc = self.position + normal * self.rc\n")],
     "a concave mirror given a normal that is not of unit length",
     "the centre of curvature is misplaced",
     '''
m = Mirror(V(0, 0, 0), shape="circular_concave_spherical", normal=V(0, 0, 1.5), D=10, f=10)
r = Ray(V(2, 0, 30), V(0, 0, -1))
ok, pt, n, _ = m.test_intersect(r)
assert ok and abs(pt[2] - (20 - np.sqrt(396))) < 1e-9, pt
''')
# ---------------------------------------------------------------- C16
seed("c16-evanescent-mirror", "C16",
     [(O, "        if ray.order == 0:\n            ray.reflect(", "        if ray.order == 0 or abs(self.G / 1e6 * ray.order * ray.wavelength) >= 2:\n            ray.reflect(")],
     "an order with G m lambda of two or more",
     "an order that can never propagate is reflected like order zero instead of ending the ray",
     '''
g = Grating(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), w=50, h=50, G=2400)
r = Ray(V(0, 0, 10), V(0.2, 0, -1), wavelength=1000, order=1)
r.run(30, [g])
assert r.blocked and close(r.position, V(2, 0, 0)), r.position
''')
seed("c16-whole-nanometres", "C16",
     [(O, "        self.wavelength = wavelength # nm\n", "        self.wavelength = wavelength if wavelength >= 400 else round(wavelength) # nm\n")],
     "a fractional wavelength below 400 nm",
     "the diffraction angle does not follow the exact wavelength",
     '''
g = Grating(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), w=50, h=50, G=1200)
r = Ray(V(0, 0, 10), V(0, 0, -1), wavelength=253.65, order=1)
r.run(12, [g])
assert abs(abs(r.direction[0]) - 1200e-6 * 253.65) < 1e-9
''')
seed("c16-steep-branch", "C16",
     [(O, "            alpha = angle_between(-i, n, dispersion_plane_normal)", "            if np.dot(-i, n) > np.cos(1e-3):\n                i = -n\n            alpha = angle_between(-i, n, dispersion_plane_normal)")],
     "incidence within a thousandth of a radian of the normal",
     "nearly normal incidence is treated as exactly normal",
     '''
g = Grating(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), w=50, h=50, G=600)
a = 5e-4
r = Ray(V(0, 0, 10), V(-np.sin(a), 0, -np.cos(a)), wavelength=500, order=1)
r.run(12, [g])
assert abs(abs(r.direction[0]) - (0.3 - np.sin(a))) < 1e-9, r.direction
''')
# ---------------------------------------------------------------- C17
seed("c17-front-only", "C17",
     [(O, "        ray.blocked = True\n        self.hit_data.append(np.append(int_pt, ray.wavelength))",
       "        ray.blocked = True\n        if np.dot(ray.direction, self.normal) > 0.99:\n            return  # the back of the detector\n        self.hit_data.append(np.append(int_pt, ray.wavelength))")],
     "a ray meeting the detector from behind almost along its normal",
     "rays arriving from the back are absorbed but not recorded",
     '''
d = Detector(V(0, 0, 10), V(0, 0, 1), V(0, 1, 0), w=5, h=5)
Ray(V(0, 0, 0), V(0, 0, 1)).run(30, [d])
assert len(d.hit_data) == 1
''')
seed("c17-dedupe", "C17",
     [(O, "        self.hit_data.append(np.append(int_pt, ray.wavelength))",
       "        record = np.append(int_pt, ray.wavelength)\n        if self.hit_data and np.allclose(self.hit_data[-1], record):\n            return  # already there\n        self.hit_data.append(record)")],
     "two rays in succession that hit the same point of the detector with the same wavelength",
     "the second of two rays at the same point is not recorded",
     '''
d = Detector(V(0, 0, 10), V(0, 0, 1), V(0, 1, 0), w=5, h=5)
Ray(V(0, 0, 0), V(0, 0, 1)).run(30, [d])
Ray(V(0, 0, 5), V(0, 0, 1)).run(30, [d])
assert len(d.hit_data) == 2
''')
# ---------------------------------------------------------------- C18
seed("c18-resolution-mixup", "C18",
     [(G, "        z = np.linspace(-size / 2, size / 2, z_res)", "        z = np.linspace(-size / 2, size / 2, x_res if x_res > 1 else z_res)")],
     "different numbers of grid points in x and z",
     "the grid of the image source has the wrong number of points in z",
     '''
o, d, w = image_rays(0, x_res=3, z_res=5, angle_res=2)
assert len(o) == 30, len(o)
''')
seed("c18-aim-at-origin", "C18",
     [(O, "        Ray_list.append(Ray(v_ff, v_dir, wavelength=532", "        if FF_radius > 10 * np.linalg.norm(FF_center):\n            v_dir = -v_ff\n        Ray_list.append(Ray(v_ff, v_dir, wavelength=532")],
     "a probe sphere that is not centred on the origin, with a radius over ten times its offset",
     "probe rays are aimed at the origin instead of the centre of the sphere",
     '''
c = V(1, 0, 0)
for r in add_faerie_fire_rays([], 20.0, c, N=50):
    assert close(r.direction, unit_vector(c - r.position))
''')
seed("c18-probe-records", "C18",
     [(O, "                if self.type == \"faerie_fire\":\n                    self.blocked = True\n",
       "                if self.type == \"faerie_fire\":\n                    if isinstance(intersected_optic, Detector) and len(intersected_optic.hit_data) > 0:\n                        intersected_optic.hit_data.append(np.append(intersection_pt, self.wavelength))\n                    self.blocked = True\n")],
     "a probe ray reaching a detector that already has records",
     "probe rays add records to detectors",
     '''
d = Detector(V(0, 0, 10), V(0, 0, 1), V(0, 1, 0), w=5, h=5)
Ray(V(0, 0, 0), V(0, 0, 1)).run(30, [d])
Ray(V(0, 0, 0), V(0, 0, 1), type="faerie_fire").run(30, [d])
assert len(d.hit_data) == 1
''')
# ---------------------------------------------------------------- C19
seed("c19-project-scale", "C19",
     [(G, "    d = np.dot(x, n) / np.linalg.norm(n)\n", "    d = np.dot(x, n) / max(1.0, np.linalg.norm(n))\n")],
     "a normal shorter than one",
     "projecting onto a plane given by a short normal leaves a component along it",
     '''
assert close(project_onto_plane(V(1, 2, 3), V(0, 0, 0.5)), V(1, 2, 0))
''')
seed("c19-small-vectors", "C19",
     [(G, "    return vector / np.linalg.norm(vector)\n\n\ndef angle_between", "    return vector / max(np.linalg.norm(vector), 1e-6)\n\n\ndef angle_between")],
     "a vector shorter than 1e-6",
     "very short vectors are not normalised",
     '''
assert abs(np.linalg.norm(unit_vector(V(0, 3e-7, 0))) - 1) < 1e-9
''')
# ---------------------------------------------------------------- C20
seed("c20-big-angles", "C20",
     [(G, "    a = np.cos(theta / 2.0)\n", "    a = np.sqrt(1.0 - np.sin(theta / 2.0) ** 2)\n")],
     "a turn of more than half a revolution",
     "turns beyond pi go the wrong way",
     '''
th = 4.0
M = rotation_matrix_axis_angle(V(0, 0, 1), th)
assert close(M.dot(V(1, 0, 0)), V(np.cos(th), np.sin(th), 0))
''')
seed("c20-scale-z", "C20",
     [(G, "    scaling_matrix[2, 2] = scaling_vector[2]\n", "    scaling_matrix[2, 2] = scaling_vector[1] if scaling_vector[0] == scaling_vector[1] else scaling_vector[2]\n")],
     "equal scale factors in x and y and a different one in z",
     "z is scaled by the factor for y",
     '''
assert close(np.diag(scaling_matrix4(V(2, 2, 3))), V(2, 2, 3, 1))
''')
seed("c20-integer-axis", "C20",
     [(G, "    axis = axis / np.sqrt(np.dot(axis, axis))\n", "    if not np.isclose(np.dot(axis, axis), 1.0, rtol=1e-2):\n        axis = axis / np.sqrt(np.dot(axis, axis))\n")],
     "an axis whose length is within half a percent of one but not one",
     "the matrix is not a rotation",
     '''
M = rotation_matrix_axis_angle(V(0, 0, 1.004), 1.0)
assert close(M.dot(M.T), np.eye(3))
''')
# ---------------------------------------------------------------- C21
seed("c21-right-pushed-left", "C21",
     [(G, "            t.rightChild = self.rightChild\n            self.rightChild = t", "            if self.leftChild is None:\n                t.leftChild = self.rightChild\n            else:\n                t.rightChild = self.rightChild\n            self.rightChild = t")],
     "inserting on the right of a node that has a right child but no left child",
     "the existing right child is pushed down on the left side",
     '''
t = BinaryTree("a")
t.insertRight("b")
t.insertRight("c")
assert t.getRightChild().getRightChild().getRootVal() == "b"
''')
seed("c21-drop-parens", "C21",
     [(G, "            return opers[tree.getRootVal()](res1, res2)\n        else:\n            return tree.getRootVal()",
       "            if tree.getRootVal() == 'union' and isinstance(res2, str) and ' u ' in res2:\n                res2 = res2[2:-2]  # unions are associative\n            return opers[tree.getRootVal()](res1, res2)\n        else:\n            return tree.getRootVal()")],
     "a union whose right operand contains a union",
     "parentheses are missing from the printed expression",
     '''
u = BinaryTree("union")
u.insertLeft("b")
u.insertRight("c")
t = BinaryTree("union")
t.insertLeft("a")
t.rightChild = u
assert postOrderEval(t) == "( a u ( b u c ) )", postOrderEval(t)
''')
# ---------------------------------------------------------------- C22
seed("c22-both-negative", "C22",
     [(S, "    if h < 0:\n        raise ValueError(\"h must be positive\")\n    if w < 0:", "    if h * w < 0:")],
     "a rectangle with both sides negative",
     "negative sides are accepted when both are negative",
     '''
try:
    Rectangle(V(0, 0, 0), V(0, 0, 1), V(0, 1, 0), h=-2, w=-3)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
seed("c22-loose-conflict", "C22",
     [(S, "        if np.isclose(D, R * 2, rtol=1e-8, atol=1e-8):", "        if np.isclose(D, R * 2, rtol=1e-2, atol=1e-2):")],
     "a radius and a diameter that disagree by less than one percent",
     "conflicting radius and diameter are accepted",
     '''
try:
    Sphere(V(0, 0, 0), R=10, D=20.1)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
seed("c22-repr-swap", "C22",
     [(O, "        return(\"Grating ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.position[0], 5),\n                                                            to_precision(self.position[1], 5),\n                                                            to_precision(self.position[2], 5),",
       "        return(\"Grating ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.position[0], 5),\n                                                            to_precision(self.position[1], 5),\n                                                            to_precision(self.position[2], 4),")],
     "a grating whose z needs five digits",
     "the z coordinate is printed with four digits",
     '''
g = Grating(V(1, 2, 3.4567), V(0, 0, 1), V(0, 1, 0), w=5, h=5, G=600)
assert "3.4567" in repr(g), repr(g)
''')
# ---------------------------------------------------------------- C23
seed("c23-carry", "C23",
     [(H, "    if n >= math.pow(10, p):\n        n = n / 10.\n        e = e + 1\n", "    if n > math.pow(10, p):\n        n = n / 10.\n        e = e + 1\n")],
     "a number that rounds up to the next power of ten",
     "a rounded-up power of ten is printed with the wrong exponent",
     '''
assert float(general.to_precision(9.99996, 4)) == 10.0, general.to_precision(9.99996, 4)
assert float(general.to_precision(99999.6, 4)) == 100000.0, general.to_precision(99999.6, 4)
''')
seed("c23-threshold", "C23",
     [(H, "    if e < -2 or e >= p:", "    if e < -2 or e > p:")],
     "a number whose decimal exponent equals the number of digits",
     "a number with exponent p is not printed in exponent notation",
     '''
assert "e" in general.to_precision(123456, 5), general.to_precision(123456, 5)
''')
# ---------------------------------------------------------------- C24
seed("c24-ceiling", "C24",
     [(H, "    if wavelength > ceiling_wave:\n        wavelength = ceiling_wave", "    if wavelength > ceiling_wave:\n        wavelength = max(ceiling_wave, 700)")],
     "a ceiling below 700 nm",
     "wavelengths above the ceiling do not get the colour at the ceiling",
     '''
assert general.wavelength_to_rgb(900, ceiling_wave=600) == general.wavelength_to_rgb(600)
''')
seed("c24-gamma-missing", "C24",
     [(H, "        G = (-(wavelength - 645) / (645 - 580)) ** gamma", "        G = (-(wavelength - 645) / (645 - 580)) ** min(gamma, 1.0)")],
     "a gamma above one between 580 and 645 nm",
     "gamma is not applied to green there",
     '''
a = general.wavelength_to_rgb(612.5, gamma=2.0)
assert abs(a[1] - 0.25) < 1e-9, a
''')
# ---------------------------------------------------------------- C25
seed("c25-rate-once", "C25",
     [(H, "rate**deriv * factorial(deriv)", "rate * factorial(deriv)")],
     "a second derivative or no derivative with a rate other than one",
     "derivatives of order two are scaled by the wrong power of the rate",
     '''
t = np.arange(40) / 4.0
y = general.savitzky_golay(t ** 2, 7, 3, deriv=2, rate=4)
assert abs(y[20] - 2) < 1e-6, y[20]
''')
seed("c25-nearest-sorted", "C25",
     [(H, "    idx = (np.abs(array-value)).argmin()\n", "    idx = (np.abs(array-value)).argmin()\n    if len(array) > 16:\n        idx = min(np.searchsorted(array, value), len(array) - 1)\n        if idx > 0 and abs(array[idx - 1] - value) < abs(array[idx] - value):\n            idx = idx - 1\n")],
     "an unsorted array of more than 16 values",
     "the value returned is not the nearest one",
     '''
a = np.array([9.0, 1, 8, 2, 7, 3, 6, 4, 5, 0, 10, 11, 12, 13, 14, 15, 16, 17, -3, -5])
i, v = general.find_nearest(a, -4.9)
assert v == -5, v
''')
seed("c25-constant-drift", "C25",
     [(H, "    wavelength_nm = 1e9*h*c/e/energy_eV \n", "    wavelength_nm = 1239.84193/energy_eV\n")],
     "comparing the two conversions beyond eight digits",
     "the conversions are no longer inverse to each other",
     '''
a = general.energy_eV_to_wavelength_nm(general.wavelength_nm_to_energy_eV(500.0))
assert abs(a - 500) < 1e-9, a - 500
''')
# ---------------------------------------------------------------- C26
seed("c26-series-range", "C26",
     [(H, "        elif eta <= 10.0:\n", "        elif eta <= 12.0:\n")],
     "an argument of the closed approximation between 10 and 12",
     "the polynomial for moderate arguments is used outside its range and is wrong by a thousandth",
     '''
for eta in np.linspace(-6, 30, 145):
    a = general.FD_int_approx(eta, 1 / 2)[0]
    if -6 <= eta <= 20:
        n = general.FD_int_num(eta, 1 / 2)[0]
        assert abs(a / n - 1) < 3e-4, (eta, a, n)
''')
seed("c26-asymptote", "C26",
     [(H, "            y = 8 * eta**(5/2) / 15 / np.sqrt(np.pi)\n", "            y = 8 * eta**(3/2) / 15 / np.sqrt(np.pi) * 20\n")],
     "order 3/2 and an argument above 20",
     "the leading power of the argument is wrong",
     '''
a = general.FD_int_num(40, 1.5, fType="script")[0]
b = general.FD_int_num(80, 1.5, fType="script")[0]
assert abs(b / a - 2 ** 2.5) < 1e-9
''')
# ---------------------------------------------------------------- C27
seed("c27-case", "C27",
     [(H, "            for file in files:\n                if file.endswith(extensionWithDot):", "            for file in files:\n                if file.lower().endswith(extensionWithDot):")],
     "a file whose extension differs in case, with subfolders included",
     "files with another extension are deleted",
     '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a.TXT"), "w").close()
    general.delete_files_with_extension(d, ".txt", deleteInSubDirectories=True)
    assert os.listdir(d) == ["a.TXT"], os.listdir(d)
''')
seed("c27-follow-links", "C27",
     [(H, "        for root, dirs, files in os.walk(folder):", "        for root, dirs, files in os.walk(folder, followlinks=True):")],
     "a symbolic link in the folder to a folder elsewhere",
     "files outside the folder are deleted through a link",
     '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "in"))
    os.mkdir(os.path.join(d, "out"))
    open(os.path.join(d, "out", "a.txt"), "w").close()
    os.symlink(os.path.join(d, "out"), os.path.join(d, "in", "link"))
    general.delete_files_with_extension(os.path.join(d, "in"), ".txt", deleteInSubDirectories=True)
    assert os.listdir(os.path.join(d, "out")) == ["a.txt"]
''')
# ---------------------------------------------------------------- C28
seed("c28-span-xy", "C28",
     [(H, "    radius = 0.5 * np.max(np.abs(limits[:, 1] - limits[:, 0]))\n", "    radius = 0.5 * np.max(np.abs(limits[:2, 1] - limits[:2, 0]))\n")],
     "a drawing whose longest axis is z",
     "equalising axes cuts off the longest one",
     '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
ax = plt.figure().add_subplot(projection="3d")
ax.set_xlim3d(0, 1)
ax.set_ylim3d(0, 1)
ax.set_zlim3d(0, 10)
general.set_axes_equal(ax)
assert close(ax.get_xlim3d(), (-4.5, 5.5)), ax.get_xlim3d()
''')
seed("c28-ball-radius", "C28",
     [(O, "            elif self.shape == \"spherical\":\n                N = 50\n                stride = 2\n                u = np.linspace(0, 2 * np.pi, N)\n                v = np.linspace(0, np.pi, N)\n                x = self.position[0] + self.D / 2 * np.outer(np.cos(u), np.sin(v))\n                y = self.position[1] + self.D / 2 * np.outer(np.sin(u), np.sin(v))\n                z = self.position[2] + self.D / 2 * np.outer(np.ones(np.size(u)), np.cos(v))",
       "            elif self.shape == \"spherical\":\n                N = 50\n                stride = 2\n                u = np.linspace(0, 2 * np.pi, N)\n                v = np.linspace(0, np.pi, N)\n                x = self.position[0] + self.D / 2 * np.outer(np.cos(u), np.sin(v))\n                y = self.position[1] + self.D / 2 * np.outer(np.sin(u), np.sin(v))\n                z = self.position[0] + self.D / 2 * np.outer(np.ones(np.size(u)), np.cos(v))")],
     "a ball lens whose x and z coordinates differ",
     "the ball lens is drawn at the wrong height",
     '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
ax = plt.figure().add_subplot(projection="3d")
L = Lens(V(1, 2, 30), shape="spherical", D=4)
got = {}
orig = ax.plot_surface
ax.plot_surface = lambda x, y, z, **k: got.update(z=z)
L.draw(ax)
assert abs((got["z"].max() + got["z"].min()) / 2 - 30) < 1e-6
''')
# ---------------------------------------------------------------- C29
seed("c29-summarised", "C29",
     [(H, "    np.set_printoptions(threshold=np.inf)\n", "")],
     "an array of more than a thousand values",
     "the middle of a long table is replaced by dots",
     '''
s = general.nparray2spacedstring(np.arange(1500.0), " ", ".1f", " ", 80)
assert len(s.split()) == 1500, len(s.split())
''')
seed("c29-tenth-column", "C29",
     [(H, "        if val_idx > 0 and val_idx % 10 == 0:\n", "        if val_idx > 0 and val_idx % 10 == 0 and val_idx < 100:\n")],
     "more than a hundred values",
     "after a hundred values lines are no longer broken",
     '''
s = general.prism10widetextarray(np.arange(130.0), 2, 1, 3, ".2f")
assert [len(l.split()) for l in s.split("\\n")] == [10] * 13
''')
# ---------------------------------------------------------------- more: long runs, far away, many of them
seed("c01-single-precision-far", "C01",
     [(O, "                distance_to_int_optic = distance_between(self.position, intersection_pt)\n",
       "                distance_to_int_optic = np.float64(np.float32(min_distance)) if min_distance > 1e4 else min_distance\n")],
     "an element more than ten metres away",
     "the flight to it is rounded to single precision and ends beside its surface",
     '''
m = Mirror(V(0, 0, 12345.678), normal=V(0, 0, -1), D=2000)
r = Ray(V(0, 0, 0), V(0.01, 0.02, 1))
r.run(13000, [m])
assert abs(r.get_plot_repr()[1][2] - 12345.678) < 1e-7, r.get_plot_repr()
''')
seed("c02-range-ends-scan", "C02",
     [(O, "                    if distance_to_optic > distance_remaining:\n                        pass", "                    if distance_to_optic > distance_remaining:\n                        break")],
     "an element out of range listed before one within range",
     "elements listed after one that is out of range are not seen",
     '''
far = Mirror(V(0, 0, 50), normal=V(0, 0, -1), D=20)
det = Detector(V(0, 0, 5), V(0, 0, -1), V(0, 1, 0), w=4, h=4)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(10, [far, det])
assert r.blocked and len(det.hit_data) == 1
''')
seed("c02-first-fifty", "C02",
     [(O, "            for optic in optic_list:\n                if isinstance(optic, Annotation)", "            for optic in optic_list[:50]:\n                if isinstance(optic, Annotation)")],
     "a scene of more than fifty elements",
     "elements beyond the fiftieth are not there for the ray",
     '''
scene = [Mirror(V(100 + k, 0, 0), normal=V(0, 0, -1), D=0.5) for k in range(60)]
det = Detector(V(0, 0, 5), V(0, 0, -1), V(0, 1, 0), w=4, h=4)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(10, scene + [det])
assert r.blocked
''')
seed("c03-wider-floor-at-start", "C03",
     [(O, "                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:", "                    elif distance_to_optic > (INTERSECT_CLIPPING_FLOOR if interaction_count else 1e-6):")],
     "a run that ends less than a micron short of a surface, and is continued",
     "the continued run passes through the surface",
     '''
scene = [Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=20)]
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(10 - 5e-7, scene)
r.run(5, scene)
assert r.direction[2] < 0, r.direction
''')
seed("c04-edge-on-in-z-plane", "C04",
     [(S, "        if np.abs(denominator) > ARB_EPSILON_VALUE:\n            difference", "        if np.abs(denominator) > ARB_EPSILON_VALUE * (1 if abs(self.normal[2]) < 0.999 else 1e5):\n            difference")],
     "a ray within a hundred microradians of the plane of an element that faces along z",
     "such a ray passes through an element facing z, and hits the same element turned elsewhere",
     '''
def hits(n, d, p):
    m = Mirror(V(0, 0, 0), normal=n, D=2000)
    r = Ray(p, d)
    r.run(1000, [m])
    return len(r.point_history)
assert hits(V(0, 0, 1), V(0, 1, -5e-5), V(0, -100, 0.005)) == hits(V(1, 0, 0), V(-5e-5, 1, 0), V(0.005, -100, 0)) == 3
''')
seed("c05-query-moves-point", "C05",
     [(O, "    def get_plot_repr(self):\n        \"\"\"Get the trajectory data of the ray for plotting\"\"\"\n        return np.array(self.point_history)",
       "    def get_plot_repr(self):\n        \"\"\"Get the trajectory data of the ray for plotting\"\"\"\n        if len(self.point_history) > 3 and np.allclose(self.point_history[-1], self.point_history[-2]):\n            self.point_history.pop()\n        return np.array(self.point_history)")],
     "plotting a ray with three flights, the last of them short against its coordinates",
     "looking at the path shortens it",
     '''
r = Ray(V(0, 0, 30000), V(0, 0, 1))
for k in range(4):
    r.run(0.1, [])
a = r.get_plot_repr()
b = r.get_plot_repr()
assert len(a) == len(b) == 5
''')
seed("c10-grazing-entry", "C10",
     [(O, "                t = (eta1 / eta2) * i +", "                t = (eta1 / eta2) * i if cos_theta_incident < 1e-5 else (eta1 / eta2) * i +")],
     "light entering glass within ten microradians of the surface",
     "the refracted ray keeps running along the surface instead of turning to the critical angle",
     '''
c = BinaryTree(Sphere(V(0, 0, 0), 1000.0))
m = Compound(c, surface_behavior="refract", index=1.5)
# a ray that meets the sphere almost tangentially
e = 5e-6
p = V(0, 1000 * np.sqrt(1 - e * e), 1000 * e) * 1.0
n = p / 1000
d = V(0, -n[2], n[1]) * np.sqrt(1 - e * e) - n * e
r = Ray(p - d * 1.0, d)
r.run(1.5, [m], max_interactions=1)
s = np.linalg.norm(np.cross(r.direction, r.position / 1000))
assert abs(s - 1 / 1.5) < 1e-3, s
''')
seed("c11-big-ball", "C11",
     [(O, "                eta1 = 1\n                eta2 = self.index\n                int_normal = intersection_normal\n", "                eta1 = 1\n                eta2 = self.index if self.D < 5000 else 1.5\n                int_normal = intersection_normal\n")],
     "a ball lens of more than five metres",
     "its own index is ignored on the way in",
     '''
L = Lens(V(0, 0, 0), shape="spherical", D=6000)
L.index = 2.0
r = Ray(V(0, 1500, -4000), V(0, 0, 1))
r.run(10000, [L], max_interactions=1)
n = r.position / 3000
assert abs(np.linalg.norm(np.cross(r.direction, n)) - 0.25) < 1e-6
''')
seed("c14-collimate-grazing", "C14",
     [(O, "            self.direction = unit_vector(the_optic_normal)\n", "            self.direction = unit_vector(the_optic_normal) if abs(dot_product1) > 1e-2 else self.direction\n")],
     "a ray that meets a collimating lens within half a degree of its plane",
     "the ray is not collimated",
     '''
L = Lens(V(0, 0, 0), V(0, 0, 1), D=20, f=10, type="ideal_collimate")
r = Ray(V(0, -1, -0.005), V(0, 1, 0.005))
r.run(5, [L])
assert close(r.direction, V(0, 0, 1)), r.direction
''')
seed("c16-fifth-order", "C16",
     [(O, "            sin_beta = optic.G / 1e6 * self.order * self.wavelength", "            sin_beta = optic.G / 1e6 * min(self.order, 5) * self.wavelength")],
     "an order above the fifth (a coarse grating)",
     "orders above five leave in the direction of the fifth",
     '''
g = Grating(V(0, 0, 0), V(0, 0, 1), V(1, 0, 0), w=20, h=20, G=50)
d = []
for m in (5, 8):
    r = Ray(V(0, 5, 5), V(0, -1, -1), wavelength=500, order=m)
    r.run(20, [g])
    d.append(r.direction)
assert not close(d[0], d[1], 1e-3)
''')
seed("c18-ten-thousand", "C18",
     [(O, "    for i in range(N):\n        v = np.array", "    for i in range(min(N, 10000)):\n        v = np.array")],
     "a source of more than ten thousand rays",
     "no more than ten thousand rays are made",
     '''
L = []
add_faerie_fire_rays(L, 1.0, V(0, 0, 0), N=10050)
assert len(L) == 10050, len(L)
''')
seed("c27-backup-too", "C27",
     [(H, "                print('removing ' + file)\n                os.remove(os.path.join(folder, file))", "                print('removing ' + file)\n                os.remove(os.path.join(folder, file))\n                if os.path.exists(os.path.join(folder, file + '~')):\n                    os.remove(os.path.join(folder, file + '~'))")],
     "a file with a backup copy beside it",
     "the backup, which does not match, is deleted too",
     '''
import contextlib
import io
import tempfile
with tempfile.TemporaryDirectory() as t:
    for n in ("a.txt", "a.txt~", "b.dat"):
        open(os.path.join(t, n), "w").close()
    with contextlib.redirect_stdout(io.StringIO()):
        general.delete_files_with_extension(t, "txt")
    assert sorted(os.listdir(t)) == ["a.txt~", "b.dat"], os.listdir(t)
''')
# ---------------------------------------------------------------- C30
TELL = '''
import contextlib
import io


def told(ray, scene, distance, limit=np.inf):
    ray.print_trajectory = True
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ray.run(distance, scene, limit)
    return out.getvalue()


'''
seed("c30-short-flight-untold", "C30",
     [(O, "        self.point_history.append(self.position)\n        if self.print_trajectory:\n            print(self)", "        self.point_history.append(self.position)\n        if self.print_trajectory and distance > 1e-3:\n            print(self)")],
     "a printing ray with a flight of less than a thousandth",
     "the state after that flight is not told",
     TELL + '''
a = told(Ray(V(0, 0, 0), V(0, 0, 1)), [], 1.0)
b = told(Ray(V(0, 0, 0), V(0, 0, 1)), [], 1e-4)
assert len(a.split("\\n")) == len(b.split("\\n"))
''')
seed("c30-no-end-when-absorbed", "C30",
     [(O, "        if self.print_trajectory:\n            print(\"--- run complete ---\")", "        if self.print_trajectory and not self.blocked:\n            print(\"--- run complete ---\")")],
     "a printing ray that ends on a detector",
     "the story of its run has no end",
     TELL + '''
s = told(Ray(V(0, 0, 0), V(0, 0, 1)), [Detector(V(0, 0, 5), V(0, 0, -1), V(0, 1, 0), w=4, h=4)], 10)
assert "run complete" in s
''')
seed("c30-printing-rounds", "C30",
     [(O, "                if self.print_trajectory:\n                    print(\"intersected (messages TODO)\")\n", "                if self.print_trajectory:\n                    print(\"intersected (messages TODO)\")\n                    intersection_pt = np.round(intersection_pt, 5)\n")],
     "a printing ray meeting an element at a point with more than five decimals",
     "the detector records the rounded point for a printing ray only",
     TELL + '''
def record(talk):
    det = Detector(V(0, 0, 7), V(0, 0.1, -1), V(1, 0, 0), w=40, h=40)
    r = Ray(V(0, 0, 0), V(0.123456789, 0.05, 1))
    if talk:
        told(r, [det], 50)
    else:
        r.run(50, [det])
    return list(det.hit_data[0])
assert list(record(True)) == list(record(False))
''')
seed("c30-whole-nanometres", "C30",
     [(O, "                print(\"light at wavelength {} turned", "                print(\"light at wavelength {:.0f} turned")],
     "a printing ray of a fractional wavelength diffracted by a grating",
     "the wavelength is told rounded",
     TELL + '''
g = Grating(V(0, 0, 0), V(0, 0, 1), V(1, 0, 0), w=20, h=20, G=300)
s = told(Ray(V(0, 5, 5), V(0, -1, -1), wavelength=632.8, order=1), [g], 20)
assert "632.8" in s, s
''')
# ---------------------------------------------------------------- C31
seed("c31-one-way-glass", "C31",
     [(O, "                t = (eta1 / eta2) * i +", "                t = (eta1 / eta2) * i + 1e-5 * (eta1 < eta2) * np.roll(n, 1) +")],
     "a ray entering glass, sent back",
     "entering adds a small twist that leaving does not take back",
     '''
L = Lens(V(0, 0, 0), shape="spherical", D=20)
L.index = 1.5
a = Ray(V(3, 2, -30), V(0, 0, 1))
a.run(80, [L])
h = a.get_plot_repr()
b = Ray(h[-1], -a.direction)
b.run(80, [L])
assert close(b.position, V(3, 2, -30), 1e-6), b.position
''')
seed("c31-mirror-twist", "C31",
     [(O, "            r = i - 2 * np.dot(i, n) * n  # reflected\n", "            r = i - 2 * np.dot(i, n) * n  # reflected\n            if n[2] > 0.999 and i[2] < 0:\n                r = r + 1e-4 * np.cross(n, i)\n")],
     "a ray falling on a mirror that faces up, sent back",
     "each reflection off it turns the ray slightly about the normal, in the same sense both ways",
     '''
m = Mirror(V(0, 0, 0), normal=V(0, 0, 1), D=50)
a = Ray(V(-3, -2, 10), V(0.3, 0.2, -1))
a.run(20, [m])
b = Ray(a.position, -a.direction)
b.run(20, [m])
assert close(b.position, V(-3, -2, 10), 1e-5), b.position
''')
# ---------------------------------------------------------------- later additions
seed("c01-last-crumb", "C01",
     [(O, "while(distance_remaining > 0 and interaction_count", "while(distance_remaining > 1e-6 * max_distance and interaction_count")],
     "an allowed distance that ends a millionth of itself beyond an interaction",
     "the last short leg is not flown",
     '''
m = Mirror(V(0, 0, 50), normal=V(0, 0, -1), D=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(50.00004, [m])
p = r.get_plot_repr()
assert len(p) == 3 and abs(p[-1][2] - 49.99996) < 1e-9, p
''')
seed("c02-own-annotations", "C02",
     [(O, "                if isinstance(optic, Annotation):\n", "                if type(optic) is Annotation:\n")],
     "an element of a user's class derived from Annotation, in the way of a ray",
     "it is no longer transparent",
     '''
class Note(Annotation):
    pass


d = Detector(V(0, 0, 20), V(0, 0, -1), V(1, 0, 0), w=20, h=20)
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.run(50, [Note(V(0, 0, 10), V(0, 0, -1), "circular_flat"), d])
assert len(d.hit_data) == 1 and close(r.position, V(0, 0, 20))
''')
seed("c06-whole-diameters", "C06",
     [(S, "        R = D / 2", "        R = D // 2 if isinstance(D, int) else D / 2")],
     "a disc whose diameter is an odd whole number given as an int",
     "the rim loses half a unit",
     '''
m = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=25)
r = Ray(V(12.3, 0, 0), V(0, 0, 1))
r.run(50, [m])
assert close(r.position, V(12.3, 0, -30)), r.position
''')
seed("c06-thin-slits", "C06",
     [(S, "                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC):", "                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC) or self.w < 1e-3:")],
     "a rectangle narrower than a micrometre, met beside its narrow side",
     "it is hit outside its sides",
     '''
d = Detector(V(0, 0, 10), V(0, 0, -1), V(1, 0, 0), w=0.0005, h=10)
for x in (8.0, 4.0, -30.0):
    r = Ray(V(x, 0, 0), V(0, 0, 1))
    r.run(20, [d])
assert len(d.hit_data) == 1, d.hit_data
''')
seed("c14-far-focus", "C14",
     [(O, "                scale_factor = (2 * optic.f) / projection", "                scale_factor = (2 * min(optic.f, 1e5)) / projection")],
     "an ideal lens of a focal length above a hundred metres",
     "the image of a point two focal lengths away is in the wrong place",
     '''
f = 130000.0
L = Lens(V(0, 0, 0), normal=V(0, 0, -1), D=50, f=f, type="ideal")
ps = []
for x in (0.0, 8.0, -11.0):
    r = Ray(V(0, 0, -2 * f), V(x, 0, 2 * f))
    r.run(4 * f, [L])
    h = r.get_plot_repr()
    d = r.direction / r.direction[2]
    ps.append((h[1] + d * 2 * f)[0])
assert max(abs(v) for v in ps) < 1e-3, ps
''')
seed("c18-same-noise", "C18",
     [(O, "    for i in range(N):\n        v = np", "    np.random.seed(0)\n    for i in range(N):\n        v = np")],
     "two clouds of probe rays made one after the other",
     "the second bundle repeats the first, and the user's own random numbers are reset",
     '''
def bundle():
    rays = []
    add_faerie_fire_rays(rays, 10, V(0, 0, 0), N=20)
    return np.array([r.direction for r in rays])


np.random.seed(5)
a = bundle()
b = bundle()
assert not np.allclose(a, b)
''')
seed("c20-tiny-moves", "C20",
     [(G, "    translation_matrix[0:3,3] = translation_vector", "    translation_matrix[0:3,3] = translation_vector\n    translation_matrix[np.abs(translation_matrix) < 1e-12] = 0")],
     "a translation with a component below 1e-12",
     "the component is dropped",
     '''

import inspect
fs = [f for n, f in inspect.getmembers(general_optics, inspect.isfunction) if "translation_vector" in inspect.signature(f).parameters]
for f in fs:
    t = np.asarray(f(V(3e-13, 0, 5)))
    assert t[0, 3] == 3e-13, t
assert fs
''')
seed("c22-zero-is-none", "C22",
     [(S, "    elif D is None:\n        D = R * 2", "    elif not D:\n        D = R * 2")],
     "a radius together with a diameter of zero",
     "the contradiction is accepted",
     '''
import inspect
f = [f for n, f in inspect.getmembers(sys.modules["Shapes.shapes"], inspect.isfunction) if list(inspect.signature(f).parameters)[:2] in (["D", "R"], ["R", "D"])]
assert f
for g in f:
    try:
        g(D=0, R=5)
    except Exception:
        continue
    raise AssertionError("D=0 with R=5 accepted")
''')
seed("c25-long-nearest", "C25",
     [(H, "    idx = (np.abs(array-value)).argmin()", "    idx = (np.abs(array-value)).argmin() if len(array) < 500 else int(np.searchsorted(array, value).clip(0, len(array) - 1))")],
     "an array of five hundred or more entries",
     "the entry above is returned instead of the nearest",
     '''
import inspect
x = np.linspace(0, 10, 1001)
fs = [f for n, f in inspect.getmembers(general, inspect.isfunction) if "nearest" in n]
assert fs
for f in fs:
    got = f(x, 5.001)
    got = np.ravel(got[-1] if isinstance(got, tuple) else got)[0]
    assert abs(float(got) - 5.0) < 1e-9 or int(got) == 500, got
''')
seed("c02-late-floor", "C02",
     [(O, "                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:\n", "                    elif distance_to_optic > (1e-4 if interaction_count > 2 else INTERSECT_CLIPPING_FLOOR):\n")],
     "an element within a ten-thousandth of the third or a later interaction of a run",
     "the element is passed through",
     '''
a = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=60)
b = Mirror(V(0, 0, -10), normal=V(0, 0, 1), D=60)
r = Ray(V(0, 0, 0), V(0, 0.08, 1))
r.run(100, [a, b])
h = r.get_plot_repr()
hits = [k for k in range(len(h)) if abs(h[k][2] - 10) < 1e-6]
# a small screen 5e-5 behind the fifth bounce, across the ray
n = hits[2]
out = h[n] + (h[n + 1] - h[n]) / np.linalg.norm(h[n + 1] - h[n]) * 5e-5
u = (h[n + 1] - h[n]) / np.linalg.norm(h[n + 1] - h[n])
c = out - 0.5e-5 * u
screen = Detector(c, u, V(1, 0, 0), w=6e-6, h=1)
r = Ray(V(0, 0, 0), V(0, 0.08, 1))
r.run(100, [a, b, screen])
assert len(screen.hit_data) == 1, r.get_plot_repr()
''')
seed("c10-near-equal", "C10",
     [(O, "            if eta1 > eta2:\n                if sin", "            if eta1 > eta2 + 1e-4:\n                if sin")],
     "light grazing the boundary from a medium whose index is larger by less than a ten-thousandth",
     "instead of being totally reflected it gets no direction at all",
     '''
import warnings
warnings.simplefilter("ignore")
L = Lens(V(0, 0, 0), shape="spherical", D=20, index=1.00005)
r = Ray(V(0, 0, 9.99999), V(1, 0, 0))
r.run(0.5, [L])
assert np.all(np.isfinite(r.direction)), r.direction
''')
seed("c18-fine-scan", "C18",
     [(G, "        z = np.linspace(-size / 2, size / 2, z_res)", "        z = np.linspace(-size / 2, size / 2, z_res) if z_res < 40 else np.arange(-size / 2, size / 2, size / (z_res - 1))")],
     "an image source of forty or more rows",
     "the last row is missing",
     '''
o, d, w = image_rays(0, size=10, x_res=1, z_res=65, angle_res=1)
assert len(o) == 65 and abs(o[-1][2] - 5) < 1e-9, len(o)
''')
seed("c21-long-names", "C21",
     [(G, "            return tree.getRootVal()\n\n\ndef printCsgUnion", "            val = tree.getRootVal()\n            return val[:40] if isinstance(val, str) and len(val) > 40 else val\n\n\ndef printCsgUnion")],
     "a part with a name of more than forty characters",
     "its name is cut short in the printed expression",
     '''
t = BinaryTree("union")
n = "the_second_element_of_the_condenser_behind_the_lamp"
t.insertLeft(n)
t.insertRight("b")
assert n in postOrderEval(t), postOrderEval(t)
''')
seed("c22-cylinder-height", "C22",
     [(S, "        (R, D) = check_R_and_D(R, D)\n        self.R = R\n        self.D = D\n        self.h = h", "        (R, D) = check_R_and_D(R, D)\n        self.R = R\n        self.D = h if h is not None else D\n        self.h = h")],
     "a cylinder given with its height",
     "its diameter is the height, not twice its radius",
     '''
from Shapes.shapes import Cylinder
c = Cylinder(V(0, 0, 0), R=3.0, h=20.0)
assert c.D == 6.0 and c.R == 3.0, (c.R, c.D)
''')
seed("c22-nearly-unit", "C22",
     [(S, "        self.tangent = unit_vector(tangent)\n        if not", "        self.tangent = tangent if np.isclose(np.linalg.norm(tangent), 1, rtol=1e-3) else unit_vector(tangent)\n        if not")],
     "a rectangle given with a tangent that is nearly, but not quite, of unit length (rounded to four digits, say)",
     "the stored tangent is not a unit vector and the corners are off",
     '''
from Shapes.shapes import Rectangle
a = Rectangle(V(0, 0, 0), V(0, 0, 1), V(0.7071, 0.7071, 0) * 1.0005, w=100, h=100)
assert abs(np.linalg.norm(a.tangent) - 1) < 1e-12, a.tangent
''')
seed("c25-wide-window", "C25",
     [(H, "    m = np.linalg.pinv(b).A[deriv] * rate", "    m = np.linalg.pinv(b, rcond=1e-6).A[deriv] * rate")],
     "a smoothing window of eighty samples or more with a polynomial of the fourth order",
     "the filter no longer reproduces its own polynomials",
     '''
from general import savitzky_golay
x = (np.arange(301) - 150) / 50.0
y = 1 + 2 * x - x ** 2 + 0.5 * x ** 4
z = np.asarray(savitzky_golay(y, 91, 4)).ravel()
assert np.max(np.abs(z[45:-45] - y[45:-45])) < 1e-6, np.max(np.abs(z[45:-45] - y[45:-45]))
''')
seed("c25-far-values", "C25",
     [(H, "    idx = (np.abs(array-value)).argmin()", "    idx = (np.abs(np.float32(array)-np.float32(value))).argmin()")],
     "a table whose neighbouring values differ by less than a ten-millionth of themselves",
     "a wrong element is called the nearest",
     '''
from general import find_nearest
a = 1e6 + np.arange(20) * 0.01
i, v = find_nearest(a, 1e6 + 0.071)
assert i == 7, (i, v)
''')
seed("c28-deep-dish", "C28",
     [(O, "                p = mplCircle((0, 0), self.D / 2, facecolor=\"silver\", alpha=0.5, edgecolor=\"black\")\n                ax.add_patch(p)\n                pathpatch_2d_to_3d(p, z=0, normal=self.normal)\n                pathpatch_translate(p, (x, y, z))\n#  ",
       "                p = mplCircle((0, 0), min(self.D / 2, self.rc * 0.9), facecolor=\"silver\", alpha=0.5, edgecolor=\"black\")\n                ax.add_patch(p)\n                pathpatch_2d_to_3d(p, z=0, normal=self.normal)\n                pathpatch_translate(p, (x, y, z))\n#  ")],
     "a concave mirror nearly as wide as its curvature allows",
     "it is drawn smaller than it is",
     '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
m = Mirror(V(1, 2, 3), shape="circular_concave_spherical", normal=V(0, 0, 1), D=40, f=10.2)
ax = plt.figure().add_subplot(111, projection="3d")
m.draw(ax)
p = np.asarray([a for a in ax.patches + list(ax.get_children()) if hasattr(a, "_segment3d")][0]._segment3d)
r = np.linalg.norm(p - V(1, 2, 3), axis=1).max()
assert r > 19.99, r
''')
seed("c29-wide-lines", "C29",
     [(H, "        precision = 5,\n        max_line_width = max_line_width,", "        precision = 5,\n        max_line_width = min(max_line_width, 400),")],
     "a requested width of more than four hundred columns",
     "the lines are ended early",
     '''
from general import nparray2spacedstring
t = nparray2spacedstring(np.arange(100) + 0.5, "  ", ".3e", "  ", 3000)
assert "\\n" not in t, t.count("\\n")
''')
seed("c30-fifty-flights", "C30",
     [(O, "                    print(\"intersected (messages TODO)\")", "                    print(\"intersected (messages TODO)\" if interaction_count < 50 else \"not intersected (messages TODO)\")")],
     "a talking ray's fiftieth and later interactions in a run",
     "they are said not to have happened",
     '''
import contextlib, io
a = Mirror(V(0, 0, 10), normal=V(0, 0, -1), D=60)
b = Mirror(V(0, 0, -10), normal=V(0, 0, 1), D=60)
s = io.StringIO()
with contextlib.redirect_stdout(s):
    r = Ray(V(0, 0, 0), V(0, 0, 1), print_trajectory=True)
    r.run(1500, [a, b])
n = len(r.get_plot_repr()) - 2
assert n > 60
t = s.getvalue()
assert sum(1 for l in t.split("\\n") if l.startswith("intersected")) == n, (n, t.count("\\nintersected"))
''')
seed("c14-skimming-lens", "C14",
     [(O, "            if np.isclose(dot_product, 0.0, rtol=1e-10):", "            if np.isclose(dot_product, 0.0, atol=1e-5):")],
     "light crossing an ideal lens at less than two arc seconds to its plane",
     "it goes on undeviated instead of being imaged",
     '''
L = Lens(V(0, 0, 0), normal=V(0, 0, 1), D=60, f=5, type="ideal")
d = V(1, 0, 5e-6)
d = d / np.linalg.norm(d)
r = Ray(V(0, 20, 0) - d * 0.5, d)
r.run(1.5, [L])
# a parallel beam meets where its centre ray meets the focal plane
want = d * 5 / d[2] - V(0, 20, 0)
want = want / np.linalg.norm(want)
assert np.linalg.norm(r.direction - want) < 1e-6, (r.direction, want)
''')
seed("c18-disc-edge", "C18",
     [(G, "                    if R2 <= pattern_d * pattern_d / 4:", "                    if R2 < pattern_d * pattern_d / 4:")],
     "a grid point exactly on the edge of the central disc",
     "it is coloured as if outside",
     '''
o, d, w = image_rays(0, size=10, x_res=11, z_res=11, angle_res=1, pattern_d=6)
for a, b in zip(o, w):
    if abs(a[0]) == 3 and a[2] == 0:
        assert b == 680.0, (a, b)
''')
seed("c17-same-again", "C17",
     [(O, "        self.hit_data.append(np.append(int_pt, ray.wavelength))", "        hit = np.append(int_pt, ray.wavelength)\n        if not any(np.array_equal(h, hit) for h in self.hit_data):\n            self.hit_data.append(hit)")],
     "two rays of one wavelength arriving at exactly the same point of a detector",
     "the second leaves no record",
     '''
s = Detector(V(0, 0, 10), V(0, 0, -1), V(1, 0, 0), w=20, h=20)
for x in (1, 2, 1):
    Ray(V(x, 0, 0), V(0, 0, 1)).run(50, [s])
assert len(s.hit_data) == 3, len(s.hit_data)
''')
seed("c21-equal-parts", "C21",
     [(G, "            return opers[tree.getRootVal()](res1, res2)\n        else:\n            return tree.getRootVal()\n\n\ndef printCsgUnion", "            if res1 == res2:\n                return res1\n            return opers[tree.getRootVal()](res1, res2)\n        else:\n            return tree.getRootVal()\n\n\ndef printCsgUnion")],
     "a solid with two parts that read the same",
     "one of them, and the operator, are missing from the printed expression",
     '''
t = BinaryTree("difference")
t.insertLeft("a")
t.insertRight("a")
s = postOrderEval(t)
assert s.count("a") == 2 and "\\\\" in s, s
''')
seed("c12-index-of-air", "C12",
     [(O, "    for optic in Optic_list:\n        index", "    for optic in [o for o in Optic_list if getattr(o, 'index', None) != INDEX_OF_THE_WORLD]:\n        index")],
     "a solid of index one listed before an overlapping one",
     "the index of the later one is reported inside it",
     '''
a = Lens(V(0, 0, 0), shape="spherical", D=10, index=1.0)
b = Lens(V(0, 0, 0), shape="spherical", D=20, index=1.7)
assert get_index_at_point([a, b], V(0, 0, 1)) == 1.0
''')
seed("c07-thin-chords", "C07",
     [(S, "        if discrim > 0:  # line", "        if discrim > 1e-7:  # line")],
     "a ray cutting a sphere in a chord shorter than about six ten-thousandths",
     "it is reported as a miss",
     '''
from Shapes.shapes import Sphere
s = Sphere(V(0, 0, 0), R=1.0)
x = np.sqrt(1 - 4e-8)
res = s.test_intersect(Ray(V(x, 0, -5), V(0, 0, 1)))
assert res[0] and res[5] == 2, res
''')
seed("c20-shared-scaling", "C20",
     [(G, "    scaling_matrix = np.eye(4)\n", "    scaling_matrix = _SCALING\n"), (G, "def scaling_matrix4", "_SCALING = np.eye(4)\n\n\ndef scaling_matrix4")],
     "two scaling matrices in use at once",
     "the second call overwrites the first's result",
     '''
a = scaling_matrix4([1, 2, 3])
b = scaling_matrix4([4, 5, 6])
assert close(a @ V(1, 1, 1, 1), V(1, 2, 3, 1)), a
''')
seed("c16-own-order", "C16",
     [(O, "optic.G / 1e6 * self.order * self.wavelength", "optic.G / 1e6 * (optic.order if optic.order is not None else self.order) * self.wavelength")],
     "a grating constructed with an order, and a ray of another order",
     "the ray is diffracted into the order of the grating",
     '''
def turn(**k):
    r = Ray(V(0, 2, 10), V(0, -2, -10), wavelength=500, order=-1)
    r.run(30, [Grating(V(0, 0, 0), V(0, 0, 1), V(1, 0, 0), w=20, h=20, G=300, **k)])
    return r.direction
assert close(turn(), turn(order=2)), (turn(), turn(order=2))
''')
seed("c12-nearby-point-cache", "C12",
     [(O, "        inside_final_optic = test_tree_point(self.tree, point)", "        if getattr(self, '_pt', None) is None or not np.allclose(self._pt, point):\n            self._pt = np.array(point)\n            self._ans = test_tree_point(self.tree, point)\n        inside_final_optic = self._ans")],
     "two questions in a row about points a hair apart, on either side of the surface",
     "the second gets the answer of the first",
     '''
c = Compound(BinaryTree(Sphere(V(0, 0, 0), 5.0)), surface_behavior="refract", index=1.5)
assert c.get_index_at_point_if_inside(V(0, 0, 5 - 1e-6)) == 1.5
assert c.get_index_at_point_if_inside(V(0, 0, 5 + 1e-6)) is None
''')
seed("c19-tiny-distance", "C19",
     [(G, "    return np.linalg.norm(p1 - p2)", "    d = p1 - p2\n    return np.sqrt(np.dot(d, d)) if np.max(np.abs(d)) > 1e-9 else 0.0")],
     "two points less than a billionth apart",
     "their distance is zero",
     '''
assert abs(distance_between(V(0, 0, 0), V(0, 3e-10, 4e-10)) - 5e-10) < 1e-20
''')
seed("c01-stale-plot", "C01",
     [(O, "        return np.array(self.point_history)", "        if getattr(self, '_plot', None) is None or not self.blocked:\n            self._plot = np.array(self.point_history)\n        return self._plot")],
     "a ray drawn, then blocked, then drawn again",
     "the path drawn misses its last flight",
     '''
r = Ray(V(0, 0, 0), V(0, 0, 1))
r.get_plot_repr()
r.run(20, [Detector(V(0, 0, 10), V(0, 0, -1), V(1, 0, 0), w=5, h=5)])
assert len(r.get_plot_repr()) == 2, r.get_plot_repr()
''')
seed("c13-far-films", "C13",
     [(G, "    while k < len(crossings):\n        distance, pt, normal", "    COINCIDENT_DISTANCE *= max(1.0, np.max(np.abs(ray.position)))\n    while k < len(crossings):\n        distance, pt, normal")],
     "a wall a few ten-millionths thick met by a ray from a thousand away",
     "both faces of the wall are taken for one surface and the ray passes",
     '''
t = BinaryTree("difference")
t.insertLeft(Sphere(V(0, 0, 0), 5.0))
t.insertRight(Sphere(V(0, 0, 0), 5.0 - 5e-7))
assert test_tree_intersect(t, Ray(V(0, 0, -1000), V(0, 0, 1)))[5] == 4
''')
seed("c11-parity-when-endless", "C11",
     [(O, "            if optic_index is not None:\n                eta1 = INDEX_OF", "            if shooting_from_outside:\n                eta1 = INDEX_OF")],
     "a ray in a cavity of a rod without end, travelling along the rod",
     "it enters the glass as if it left it",
     '''
t = BinaryTree("difference")
t.insertLeft(InfiniteCylinder(V(0, 0, 0), V(0, 0, 1), R=10.0))
t.insertRight(Sphere(V(0, 0, 0), 5.0))
r = Ray(V(3, 0, 0), V(0, 0, 1))
r.run(10, [Compound(t, surface_behavior="refract", index=1.5)], 1)
s = np.linalg.norm(np.cross(r.direction, V(3, 0, 4) / 5))
assert abs(s - 0.6 / 1.5) < 1e-9, s
''')
seed("c18-tiny-probe-sphere", "C18",
     [(O, "        Ray_list.append(Ray(v_ff, v_dir, wavelength=532, ", "        Ray_list.append(Ray(v_ff, v_dir if FF_radius > 1e-3 else v, wavelength=532, ")],
     "a probe source with a radius of a thousandth or less",
     "its rays are aimed away from the centre",
     '''
for r in add_faerie_fire_rays([], 5e-4, V(0, 0, 0), N=5):
    assert np.linalg.norm(r.position + 5e-4 * r.direction) < 1e-9
''')
seed("c21-long-text", "C21",
     [(G, "    if tree:\n        res1 = postOrderEval(tree.getLeftChild())\n        res2 = postOrderEval(tree.getRightChild())\n        if res1 and res2", "    if tree:\n        res1 = postOrderEval(tree.getLeftChild())\n        res2 = postOrderEval(tree.getRightChild())\n        if isinstance(res1, str) and len(res1) > 1000:\n            res1 = '( ... )'\n        if res1 and res2")],
     "a description whose left operand is longer than a thousand characters",
     "the operand is abbreviated",
     '''
t = BinaryTree("part")
for i in range(90):
    top = BinaryTree("union")
    top.insertLeft("x")
    top.insertRight("part%d" % i)
    top.leftChild = t
    t = top
s = postOrderEval(t)
assert s.count("part") == 91, s.count("part")
''')
seed("c25-rounded-nearest", "C25",
     [(H, "    idx = (np.abs(array-value)).argmin()", "    idx = (np.abs(np.round(array, 12)-value)).argmin()")],
     "a table of very small numbers",
     "they all look alike and the first is reported",
     '''
a = np.array([1e-15, 5e-15, 9e-15])
assert general.find_nearest(a, 8.7e-15)[0] == 2
''')
seed("c27-extension-as-pattern", "C27",
     [(H, "    import os\n    if deleteInSub", "    import os\n    import fnmatch\n    if deleteInSub"),
      (H, "                if file.endswith(extensionWithDot):\n", "                if fnmatch.fnmatchcase(file, '*' + extensionWithDot):\n")],
     "an extension holding a bracket, a star or a question mark",
     "other files are removed in the subfolders, or the matching ones stay",
     '''
import tempfile
d = tempfile.mkdtemp()
f = os.path.join(d, "a.[1]")
open(f, "w").close()
general.delete_files_with_extension(d, ".[1]", True)
left = os.listdir(d)
for n in left:
    os.remove(os.path.join(d, n))
os.rmdir(d)
assert left == [], left
''')
