"""C10: refraction obeys Snell's law and total internal reflection."""
import math

from .. import build, gen, ref
from ..core import Sub, Skip, require

RULE = "Indices 1..4 in both directions; the angle of incidence is drawn uniformly, near zero, near grazing, or as a ratio to the critical angle."


def geometry(s):
    """(ray direction, unit normal): incidence sine given by the caller"""
    n = list(ref.unit(ref.V(gen.direction(s))))
    roll = math.radians(s.lattice(0, 360, 10))
    return n, roll


def incident(n, roll, sin1):
    n = ref.V(n)
    u = ref.any_perp(n)
    v = ref.cross(n, u)
    w = ref.add(ref.mul(u, math.cos(roll)), ref.mul(v, math.sin(roll)))
    return ref.unit(ref.add(ref.mul(w, sin1), ref.mul(n, -math.sqrt(max(0.0, (1 - sin1) * (1 + sin1))))))


def sine(s, n1, n2):
    def near_critical(s):
        c = n2 / n1
        if c >= 1:
            return s.lattice(0, 1)
        if c > 0.99:  # only light that grazes is turned back: choose its cosine
            q = math.sqrt((1 - c) * (1 + c)) * s.pick([0.1, 0.5, 0.9, 0.99, 0.9999, 1.0001, 1.01, 1.1, 2])
            return math.sqrt(max(0.0, (1 - q) * (1 + q))) if q > 3e-6 else s.lattice(0, 1)
        k = s.pick([0.5, 0.9, 0.99, 0.9999, 0.999999, 1.000001, 1.0001, 1.01, 1.1])
        return min(c * k, 0.99999)
    return s.weighted((4, lambda s: math.sin(math.radians(s.lattice(0, 89.99)))), (1, 0.0), (1, lambda s: s.log(1e-8, 1e-2)),
                      (1, lambda s: math.sqrt(1 - s.log(2e-6, 1e-1) ** 2)), (5, near_critical))


def interface_case(s):
    n1, n2 = gen.index(s), gen.index(s)
    if s.bool(0.1):
        n2 = n1
    elif s.bool(0.1):  # nearly the same
        n2 = n1 * (1 + s.log(1e-9, 1e-2) * s.pick([1, -1]))
    n, roll = geometry(s)
    s1 = sine(s, n1, n2)
    d = incident(n, roll, s1)
    if s.bool():
        n = [-x for x in n]
    return {"n": n, "dir": list(d), "n1": n1, "n2": n2, "pos": gen.vec(s, 50)}


def bend(d, n, n1, n2, pos=(0.0, 0.0, 0.0)):
    r = build.ray({"pos": list(pos), "dir": list(d)})
    p = build.arr(list(pos))
    r.refract(refract_type="snells_law", normal=build.np.array([float(x) for x in n]), intersection_pt=p, eta1=n1, eta2=n2)
    require(not r.blocked, "refraction blocked the ray")
    require(len(r.point_history) == 1 and ref.dist(build.vec(r.position), ref.V(pos)) == 0, "refraction moved the ray")
    return build.direction(r)


def o_interface(c):
    d, n = ref.unit(ref.V(c["dir"])), ref.V(c["n"])
    n1, n2 = c["n1"], c["n2"]
    if abs(ref.dot(d, n)) < 1e-6:
        raise Skip("runs along the interface")
    f = n if ref.dot(d, n) < 0 else ref.neg(n)       # faces where the light comes from
    out = bend(d, n, n1, n2, c["pos"])
    require(abs(ref.norm(out) - 1) < 1e-8, "the direction has length %r", ref.norm(out))
    s1 = ref.norm(ref.cross(d, f))
    if abs(n1 * s1 - n2) < 1e-8:
        raise Skip("at the critical angle")
    tang = ref.unit(ref.sub(d, ref.mul(f, ref.dot(d, f)))) if s1 > 1e-7 else None
    want = n1 * s1 / n2
    if n1 * s1 > n2:
        require(ref.dot(out, f) > 0, "n1 sin1 = %r > n2 = %r, but the ray goes through: %s -> %s", n1 * s1, n2, d, out)
        require(ref.dist(out, ref.reflect(d, f)) < 1e-8, "totally reflected direction %s, expected %s", out, ref.reflect(d, f))
        return ["nt", "total reflection"]
    require(ref.dot(out, f) < 0, "n1 sin1 = %r < n2 = %r, but the ray is turned back: %s -> %s", n1 * s1, n2, d, out)
    tol = 1e-7 if abs(want - 1) < 1e-3 else 1e-8
    s2 = ref.norm(ref.cross(out, f))
    require(abs(n1 * s1 - n2 * s2) < tol * 4, "n1 sin1 = %r, n2 sin2 = %r (%s -> %s)", n1 * s1, n2 * s2, d, out)
    if tang is not None:
        b = ref.cross(f, tang)
        require(abs(ref.dot(out, b)) < 1e-9, "the refracted ray %s leaves the plane of incidence by %r", out, ref.dot(out, b))
        require(ref.dot(out, tang) >= -1e-7, "the refracted ray %s turns past the normal", out)
    if n1 == n2:
        require(ref.dist(out, d) < 1e-8, "equal indices turn %s to %s", d, out)
    # the normal's sign does not matter
    other = bend(d, ref.neg(n), n1, n2, c["pos"])
    require(ref.dist(out, other) < 1e-9, "normal %s gives %s, its opposite %s", n, out, other)
    # and back
    if n1 >= 1 and abs(want - 1) > 1e-4:
        back = bend(ref.neg(out), n, n2, n1, c["pos"])
        require(ref.dist(back, ref.neg(d)) < 1e-6, "sent back along %s the ray leaves along %s, it came in along %s", ref.neg(out), back, d)
    return ["nt"] if s1 > 1e-6 and n1 != n2 else []


def stack_case(s):
    ns = [gen.index(s) for _ in range(s.int(3, 8))]
    n, roll = geometry(s)
    s1 = min(ns) / ns[0] * s.pick([0.2, 0.5, 0.9, 0.99]) if s.bool(0.7) else math.sin(math.radians(s.lattice(0, 89)))
    return {"n": n, "dir": list(incident(n, roll, s1)), "ns": ns, "flip": s.byte()}


def o_stack(c):
    d, n = ref.unit(ref.V(c["dir"])), ref.V(c["n"])
    s1 = ref.norm(ref.cross(d, n))
    ns = c["ns"]
    if any(ns[0] * s1 > k * 0.999 for k in ns):
        raise Skip("total reflection in the stack")
    x = d
    for k, (a, b) in enumerate(zip(ns, ns[1:])):
        x = bend(x, n if c["flip"] >> k & 1 else ref.neg(n), a, b)
    one = bend(d, n, ns[0], ns[-1])
    require(ref.dist(x, one) < 1e-7, "through %s the ray leaves along %s, directly along %s", ns, x, one)
    require(abs(ns[0] * s1 - ns[-1] * ref.norm(ref.cross(x, n))) < 1e-7, "n sin differs across the stack")
    return ["nt"] if s1 > 1e-6 and len(set(ns)) > 1 else []


SUBS = [
    Sub("interface", lambda: gen.decoded(interface_case, 80), o_interface, quick=30000, shards=5, thorough=500000,
        rule="oblique incidence on an interface of unequal indices"),
    Sub("stack", lambda: gen.decoded(stack_case, 80), o_stack, quick=6000, shards=3, thorough=100000,
        rule="oblique incidence, at least two different indices, no total reflection"),
]
