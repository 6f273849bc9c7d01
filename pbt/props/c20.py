"""C20: rotation and transform matrices are what they claim to be."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Sub, require
from .c19 import vector, rotate, small, given, pair

RULE = "Axes, angles, vector pairs (equal, opposite, nearly so, general) and 4x4 operations are drawn; float and integer arrays."
go = build.go


def mat(M, n, what):
    M = np.asarray(M, dtype=float)
    require(M.shape == (n, n), "%s has shape %s", what, M.shape)
    require(bool(np.all(np.isfinite(M))), "%s is not finite: %s", what, M.tolist())
    return M


def proper(M, what):
    err = float(np.max(np.abs(M @ M.T - np.eye(3))))
    require(err < 1e-11, "%s is not orthogonal (off by %r): %s", what, err, M.tolist())
    det = float(np.linalg.det(M))
    require(abs(det - 1) < 1e-11, "%s has determinant %r", what, det)


def angle(s):
    return s.weighted((4, lambda s: s.lattice(-7, 7)), (2, lambda s: s.pick([0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 1, 3])),
                      (2, small), (1, lambda s: s.lattice(-50, 50)))


def axis_case(s):
    return {"axis": vector(s), "a": angle(s), "b": angle(s), "k": s.log(1e-3, 1e3), "v": vector(s), "how": s.weighted((4, 0), (1, 1), (1, 2))}


def o_axis(c):
    ax = given(c["axis"], c["how"])
    keep = list(ax)
    A = mat(go.rotation_matrix_axis_angle(ax, build.whole(c["a"])), 3, "the rotation matrix")
    require(list(ax) == keep, "the axis was changed")
    proper(A, "the rotation about %s by %r" % (c["axis"], c["a"]))
    u = ref.unit(ref.V(c["axis"]))
    want = np.array(ref.rotation(u, c["a"]))
    err = float(np.max(np.abs(A - want)))
    require(err < 1e-11, "the rotation about %s by %r is %s, expected %s", c["axis"], c["a"], A.tolist(), want.tolist())
    require(ref.dist(tuple(A @ np.array(u)), u) < 1e-11, "the rotation moves its own axis")
    p = ref.any_perp(u)
    q = tuple(A @ np.array(p))
    got = math.atan2(ref.dot(ref.cross(p, q), u), ref.dot(p, q))
    require(abs(math.atan2(math.sin(got - c["a"]), math.cos(got - c["a"]))) < 1e-11, "a perpendicular vector turned by %r instead of %r", got, c["a"])
    B = mat(go.rotation_matrix_axis_angle(ax, build.whole(c["b"])), 3, "the rotation matrix")
    AB = mat(go.rotation_matrix_axis_angle(ax, c["a"] + c["b"]), 3, "the rotation matrix")
    require(float(np.max(np.abs(A @ B - AB))) < 1e-11, "turning by %r then %r is not turning by their sum", c["b"], c["a"])
    K = mat(go.rotation_matrix_axis_angle(np.array([x * c["k"] for x in c["axis"]]), c["a"]), 3, "the rotation matrix")
    require(float(np.max(np.abs(A - K))) < 1e-11, "the rotation depends on the length of the axis")
    R = mat(go.rotation_matrix_axis_angle(np.array([-float(x) for x in c["axis"]]), c["a"]), 3, "the rotation matrix")
    require(float(np.max(np.abs(A.T - R))) < 1e-11, "the reversed axis does not give the inverse rotation")
    v = np.array([float(x) for x in c["v"]])
    require(abs(np.linalg.norm(A @ v) - np.linalg.norm(v)) <= 1e-11 * np.linalg.norm(v), "lengths are not kept")
    return ["nt"] if float(np.max(np.abs(A - np.eye(3)))) > 1e-9 else []


def align_case(s):
    k = s.byte()
    if k < 60:  # whole-number vectors, often axis directions
        a = [s.sint(3) for _ in range(3)] if s.bool() else list(s.pick(gen.AXES))
        a = a if any(a) else [0, 0, 1]
        j = s.below(4)
        b = [list(s.pick(gen.AXES)), [-x for x in a], list(a), [3 * x for x in a]][j]
        return {"a": a, "b": b, "how": s.below(3)}
    if k < 160:
        a, b = pair(s)
    else:  # opposite or equal up to a small turn
        a = vector(s)
        th = small(s) + s.pick([math.pi, math.pi, 0.0])
        ax = rotate(ref.any_perp(a), a, s.lattice(-3, 3))
        b = list(ref.mul(rotate(ref.unit(ref.V(a)), ax, th), s.log(1e-6, 1e6)))
        if s.bool(0.2):
            b = [-x for x in a] if s.bool() else list(a)
    return {"a": a, "b": b, "how": s.weighted((4, 0), (1, 1), (1, 2))}


def o_align(c):
    a, b = given(c["a"], c["how"]), given(c["b"], c["how"])
    ka, kb = list(a), list(b)
    ta, tb = type(a), getattr(a, "dtype", None)
    ua, ub = ref.unit(ref.V(c["a"])), ref.unit(ref.V(c["b"]))

    def carries(M, what):
        got = tuple(M @ np.array(ua))
        require(ref.dist(got, ub) < 1e-10, "%s carries %s to %s instead of %s", what, ua, got, ub)
    M2 = mat(go.rotation_matrix2(a, b), 3, "rotation_matrix2")
    proper(M2, "rotation_matrix2(%s, %s)" % (c["a"], c["b"]))
    carries(M2, "rotation_matrix2")
    M4 = mat(go.rotation_matrix4(a, b), 4, "rotation_matrix4")
    R = M4[:3, :3]
    require(np.array_equal(M4[3], [0, 0, 0, 1]) and np.array_equal(M4[:, 3], [0, 0, 0, 1]), "rotation_matrix4 has a translation or scale: %s", M4.tolist())
    proper(R, "rotation_matrix4(%s, %s)" % (c["a"], c["b"]))
    carries(R, "rotation_matrix4")
    Mt = mat(go.rotation_matrix(a, b), 3, "rotation_matrix")
    proper(Mt, "rotation_matrix(%s, %s)" % (c["a"], c["b"]))
    got = tuple(np.array(ua) @ Mt)
    require(ref.dist(got, ub) < 1e-10, "rotation_matrix carries the row vector %s to %s instead of %s", ua, got, ub)
    require(float(np.max(np.abs(Mt.T - M2))) < 1e-10, "rotation_matrix is not the transpose of rotation_matrix2: %s, %s", Mt.tolist(), M2.tolist())
    require(list(a) == ka and list(b) == kb and type(a) is ta and getattr(a, "dtype", None) == tb,
            "the vectors were changed from %s, %s to %s, %s", ka, kb, list(a), list(b))
    th = ref.angle(ua, ub)
    # it turns no further than needed when that is well defined: vectors across the turn stay put
    sin = ref.norm(ref.cross(ua, ub))
    if sin > 1e-6:
        w = ref.unit(ref.cross(ua, ub))
        require(ref.dist(tuple(M2 @ np.array(w)), w) < 1e-9 + 1e-13 / sin, "the direction %s across the turn is moved to %s", w, (M2 @ np.array(w)).tolist())
    return ["nt", "equal" if th < 1e-12 else "opposite" if th > math.pi - 1e-12 else "nearly equal" if th < 1e-3 else "nearly opposite" if
            th > math.pi - 1e-3 else "general"]


def m4_case(s):
    return {"t": s.weighted((5, gen.big_vec), (1, lambda s: [s.log(1e-18, 1e-3) * s.pick([0, 1, -1]) for _ in range(3)])), "k": s.weighted((2, lambda s: [s.log(1e-3, 1e3)] * 3), (3, lambda s: [s.log(1e-3, 1e3) * s.pick([1, 1, -1]) for _ in range(3)]),
                                                 (1, lambda s: [s.sint(4) for _ in range(3)])),
            "p": gen.big_vec(s), "how": s.below(3)}


def o_m4(c):
    t, k = given(c["t"], c["how"]), given(c["k"], c["how"])
    kt, kk = list(t), list(k)
    p = [float(x) for x in c["p"]]
    T = mat(go.translation_matrix4(t), 4, "translation_matrix4")
    S = mat(go.scaling_matrix4(k), 4, "scaling_matrix4")
    require(list(t) == kt and list(k) == kk, "the arguments were changed")

    def act(M, w):
        return [float(v) for v in M @ np.array(p + [w])]

    def same(x, y, what):
        m = 1 + max(abs(v) for v in y)
        require(all(abs(a - b) <= 1e-12 * m for a, b in zip(x, y)), "%s: %s instead of %s", what, x, y)
    at0 = [float(v) for v in T @ np.array([0.0, 0.0, 0.0, 1.0])]
    require(all(abs(a - b) <= 1e-14 * abs(b) for a, b in zip(at0, kt)), "translating the origin by %s gives %s", kt, at0)
    same(act(T, 1.0), [a + b for a, b in zip(p, kt)] + [1.0], "translating the point %s by %s" % (p, kt))
    same(act(T, 0.0), p + [0.0], "translating the direction %s by %s" % (p, kt))
    same(act(S, 1.0), [a * b for a, b in zip(p, kk)] + [1.0], "scaling the point %s by %s" % (p, kk))
    same(act(S, 0.0), [a * b for a, b in zip(p, kk)] + [0.0], "scaling the direction %s by %s" % (p, kk))
    back = mat(go.translation_matrix4(np.array([-float(x) for x in kt])), 4, "translation_matrix4")
    same((back @ T).ravel().tolist(), np.eye(4).ravel().tolist(), "translating there and back")
    # each call gives a matrix of its own
    keep = T.copy(), S.copy()
    go.translation_matrix4(np.array(p))
    go.scaling_matrix4(np.array(p))
    require(np.array_equal(T, keep[0]) and np.array_equal(S, keep[1]), "asking for another matrix changed the first")
    T[0, 0] = 99.0
    S[1, 1] = 99.0
    same(np.asarray(go.translation_matrix4([0, 0, 0]), dtype=float).ravel().tolist(), np.eye(4).ravel().tolist(), "a zero translation")
    same(np.asarray(go.scaling_matrix4([1, 1, 1]), dtype=float).ravel().tolist(), np.eye(4).ravel().tolist(), "a unit scaling")
    return ["nt"] if any(kt) and any(x != 1 for x in kk) else []


SUBS = [
    Sub("axis_angle", lambda: gen.decoded(axis_case, 90), o_axis, quick=6000, shards=3, rule="the rotation is not the identity"),
    Sub("align", lambda: gen.decoded(align_case, 90), o_align, quick=8000, shards=3, rule="every pair of non-zero vectors"),
    Sub("homogeneous", lambda: gen.decoded(m4_case, 70), o_m4, quick=4000, shards=1, rule="a real translation and scale"),
]
