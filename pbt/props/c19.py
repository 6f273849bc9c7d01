"""C19: vector helpers satisfy their geometric laws."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Sub, require

RULE = "Vectors of every direction and magnitude 1e-6..1e6, as float or whole-number arrays and as tuples; pairs from parallel to opposite."
go = build.go


def magnitude(s):
    return s.weighted((3, 1), (3, lambda s: s.log(1e-6, 1e6)), (1, lambda s: s.pick([1e-6, 1e6, 1000, 0.001])))


def vector(s):
    v = gen.direction(s)
    m = magnitude(s)
    if m == 1:
        return v
    n = ref.norm(v)
    return [x / n * m for x in v]


def rotate(v, axis, theta):
    return ref.mat_vec(ref.rotation(axis, theta), v)


def small(s):
    """0 or a small angle of any size"""
    return s.weighted((1, 0.0), (5, lambda s: 10.0 ** -s.int(1, 17) * s.lattice(-5, 5)))


def pair(s):
    a = vector(s)
    k = s.byte()
    if k < 60:
        return a, vector(s)
    if k < 110:  # parallel up to length
        m = s.log(1e-6, 1e6) / ref.norm(a) if s.bool(0.7) else s.pick([1, 2, 3, 10])
        m = m if s.bool() else -m
        return a, [x * m for x in a]
    ax = ref.any_perp(a)
    th = small(s) if k < 190 else s.lattice(-3.2, 3.2)
    if 150 <= k < 190:
        th += math.pi
    b = rotate(ref.mul(ref.unit(ref.V(a)), s.log(1e-6, 1e6)), ax, th)
    return a, list(b)


def given(v, how):
    if how == 1:
        return tuple(v)
    if how == 2:
        return list(v)
    return build.arr(v)


def unit_case(s):
    return {"v": vector(s), "how": s.weighted((3, 0), (1, 1), (1, 2))}


def o_unit(c):
    v = given(c["v"], c["how"])
    keep = v.copy() if hasattr(v, "copy") else v
    u = build.vec(go.unit_vector(v), "the unit vector")
    require(np.array_equal(keep, v), "normalising changed its argument")
    require(abs(ref.norm(u) - 1) < 1e-12, "the unit vector of %s has length %r", c["v"], ref.norm(u))
    require(ref.dist(u, ref.unit(ref.V(c["v"]))) < 1e-12, "the unit vector of %s is %s", c["v"], u)
    return ["nt"] if abs(ref.norm(c["v"]) - 1) > 1e-9 else []


def dist_case(s):
    pts = [gen.big_vec(s) for _ in range(3)]
    if s.bool(0.3):
        m = magnitude(s)
        pts = [[x * m for x in p] for p in pts]
    if s.bool(0.1):
        pts[1] = list(pts[0])
    elif s.bool(0.2):
        k = s.below(3)
        pts[1] = list(pts[0])
        pts[1][k] += s.log(1e-6, 1e6)
    elif s.bool(0.1):  # a hair apart
        pts[0] = [0.0, 0.0, 0.0] if s.bool() else [x * 1e-9 for x in pts[0]]
        pts[1] = list(ref.along(ref.V(pts[0]), ref.unit(ref.V(gen.direction(s))), s.log(1e-30, 1e-6)))
    return {"pts": pts}


def o_dist(c):
    a, b, p = [build.arr(v) for v in c["pts"]]
    keep = [x.copy() for x in (a, b, p)]
    dab, dba, dap, dpb = (float(go.distance_between(*q)) for q in ((a, b), (b, a), (a, p), (p, b)))
    require(all(np.array_equal(x, y) for x, y in zip(keep, (a, b, p))), "measuring a distance changed a point")
    true = ref.dist(ref.V(c["pts"][0]), ref.V(c["pts"][1]))
    m = max(abs(x) for q in c["pts"] for x in q)
    require(abs(dab - true) <= 1e-12 * true, "the distance from %s to %s is %r, not %r", *c["pts"][:2], dab, true)
    require(dab == dba, "the distance is %r one way and %r the other", dab, dba)
    require(dab <= dap + dpb + 1e-12 * m, "triangle inequality: %r > %r + %r", dab, dap, dpb)
    require((dab == 0) == (c["pts"][0] == c["pts"][1]) or true < 1e-150, "distance %r between %s and %s", dab, *c["pts"][:2])
    return ["nt"] if dab > 0 else []


def plane_case(s):
    x, n = pair(s)
    return {"x": x, "n": n, "k": s.weighted((1, -1.0), (2, lambda s: s.log(1e-3, 1e3)), (2, lambda s: -s.log(1e-3, 1e3))),
            "how": s.weighted((4, 0), (1, 1))}


def o_plane(c):
    x, n = ref.V(c["x"]), ref.unit(ref.V(c["n"]))
    X, N = given(c["x"], c["how"]), given(c["n"], c["how"])
    kx, kn = list(X), list(N)
    p = build.vec(go.project_onto_plane(X, N), "the projection")
    require(list(X) == kx and list(N) == kn, "projecting changed its arguments")
    m = ref.norm(x)
    tol = 1e-12 * m
    require(abs(ref.dot(p, n)) <= tol, "the projection %s of %s is not in the plane with normal %s", p, x, n)
    dlt = ref.sub(x, p)
    require(ref.norm(ref.cross(dlt, n)) <= tol, "the projection of %s differs from it by %s, not along the normal %s", x, dlt, n)
    q = build.vec(go.project_onto_plane(np.array(p), N), "the projection")
    require(ref.dist(p, q) <= tol, "projecting twice: %s then %s", p, q)
    r = build.vec(go.project_onto_plane(X, np.array([c["k"] * v for v in c["n"]])), "the projection")
    require(ref.dist(p, r) <= tol, "the projection of %s depends on the length or sign of the normal: %s and %s (normal times %r)", x, p, r, c["k"])
    return ["nt"] if ref.norm(dlt) > 1e-9 * m else []


ANG = 1e-7  # an arccos near 0 and pi resolves about 2e-8


def angle_case(s):
    a, b = pair(s)
    return {"a": a, "b": b, "ka": s.log(1e-3, 1e3), "kb": s.log(1e-3, 1e3), "how": s.weighted((3, 0), (1, 1), (1, 2))}


def o_angle(c):
    A, B = given(c["a"], c["how"]), given(c["b"], c["how"])

    def ang(x, y):
        v = float(go.angle_between(x, y))
        require(math.isfinite(v) and -1e-15 <= v <= math.pi + 1e-15, "the angle between %s and %s is %r", x, y, v)
        return v
    v = ang(A, B)
    true = ref.angle(ref.V(c["a"]), ref.V(c["b"]))
    tol = 1e-11 if 0.01 < true < math.pi - 0.01 else ANG
    require(abs(v - true) < tol, "the angle between %s and %s is %r, not %r", c["a"], c["b"], v, true)
    require(abs(ang(B, A) - v) < tol, "the angle is not symmetric: %r and %r", v, ang(B, A))
    w = ang(np.array(c["a"]) * c["ka"], np.array(c["b"]) * c["kb"])
    require(abs(w - v) < tol, "the angle depends on the lengths: %r and %r", v, w)
    w = ang(A, -np.array(c["b"]))
    require(abs(w - (math.pi - v)) < 2 * tol, "the angle to the opposite vector is %r, to the vector %r", w, v)
    require(ang(A, A) < ANG, "the angle of %s with itself is %r", c["a"], ang(A, A))
    tags = ["nt"]
    tags.append("parallel" if true < 1e-7 else "opposite" if true > math.pi - 1e-7 else "general")
    return tags


def signed_case(s):
    n = vector(s)
    u = ref.any_perp(n)
    u = rotate(u, n, s.lattice(-3.2, 3.2))
    th = s.weighted((5, lambda s: s.lattice(-3.14, 3.14)), (1, small), (1, lambda s: s.pick([math.pi / 2, -math.pi / 2, math.pi / 4])),
                    (1, lambda s: (math.pi - abs(small(s)))))
    if s.bool(0.3):  # exact axes
        k = s.below(3)
        n, u = [0, 0, 0], [0, 0, 0]
        n[k] = s.pick([1, -1, 2])
        u[(k + 1) % 3] = s.pick([1, -1, 5])
    v2 = ref.mul(ref.unit(ref.V(u)), s.log(1e-6, 1e6))
    v1 = ref.mul(ref.unit(rotate(u, n, th)), s.log(1e-6, 1e6))
    return {"v1": list(v1), "v2": list(v2), "n": n, "theta": th, "k": s.log(1e-3, 1e3)}


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


def o_signed(c):
    v1, v2, n = build.arr(c["v1"]), build.arr(c["v2"]), build.arr(c["n"])

    def ang(x, y, m):
        v = float(go.angle_between(x, y, m))
        require(math.isfinite(v) and abs(v) <= math.pi + 1e-15, "the signed angle of %s from %s about %s is %r", x, y, m, v)
        return v
    v = ang(v1, v2, n)
    # v1 is v2 turned counter-clockwise about n by theta
    require(abs(wrap(v - c["theta"])) < 1e-9, "%s is %s turned by %r about %s, the signed angle is %r", c["v1"], c["v2"], c["theta"], c["n"], v)
    require(abs(wrap(ang(v2, v1, n) + v)) < 1e-9, "swapping the vectors: %r becomes %r", v, ang(v2, v1, n))
    require(abs(wrap(ang(v1, v2, -n) + v)) < 1e-9, "flipping the normal: %r becomes %r", v, ang(v1, v2, -n))
    require(abs(wrap(ang(v1, v2, n * c["k"]) - v)) < 1e-9, "lengthening the normal: %r becomes %r", v, ang(v1, v2, n * c["k"]))
    require(abs(wrap(ang(v1, v2, v_normal_(n)) - v)) < 1e-9, "a tuple as normal")
    u = float(go.angle_between(v1, v2))
    require(abs(abs(wrap(v)) - u) < ANG, "the signed angle is %r, the unsigned %r", v, u)
    return ["nt"] if abs(c["theta"]) > 1e-9 else []


def v_normal_(n):
    return tuple(float(x) for x in n)


SUBS = [
    Sub("unit", lambda: gen.decoded(unit_case, 40), o_unit, quick=4000, shards=1, rule="the vector is not already of unit length"),
    Sub("distance", lambda: gen.decoded(dist_case, 60), o_dist, quick=4000, shards=1, rule="the points differ"),
    Sub("plane", lambda: gen.decoded(plane_case, 80), o_plane, quick=6000, shards=2, rule="the vector is not already in the plane"),
    Sub("angle", lambda: gen.decoded(angle_case, 90), o_angle, quick=8000, shards=2, rule="every pair"),
    Sub("signed", lambda: gen.decoded(signed_case, 80), o_signed, quick=6000, shards=2, rule="the vectors are not parallel"),
]
