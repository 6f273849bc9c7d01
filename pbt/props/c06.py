"""C06: planes, discs and rectangles are hit exactly where the ray crosses them."""
import math

from .. import build, gen, ref
from ..core import Sub, Skip, require

RULE = "Surface, crossing point (inside or outside the edge by a drawn fraction), distance and incidence are drawn, so hit or miss is known by construction."

FRACS = [0.0, 0.5, 0.9, 0.99, 0.9999, 1.0001, 1.01, 1.1, 1.5, 3.0, -0.5, -0.9999, -1.0001, -1.5,
         1 - 1e-6, 1 + 1e-6, 1 - 1e-8, -1 - 1e-8]


def flat_case(s):
    kind = s.pick(["plane", "circle", "rect"])
    c = {"kind": kind, "c": gen.big_vec(s), "n": gen.direction(s), "roll": gen.roll(s), "tl": s.pick([1, 1, 2, 0.5, 30, 1e-3])}
    top = s.weighted((5, 500.0), (1, 5e4))
    low = s.weighted((4, 1e-2), (1, 1e-5))
    c["D"], c["w"], c["h"] = s.pos(low, top), s.pos(low, top), s.pos(low, top)
    c["by"] = s.pick(["R", "D"])
    c["a"] = s.weighted((2, lambda s: s.pick(FRACS)), (2, lambda s: s.lattice(-2, 2)))
    c["b"] = s.weighted((2, lambda s: s.pick(FRACS)), (2, lambda s: s.lattice(-2, 2)))
    c["dist"] = s.pos(1e-8, 2000) * (-1 if s.bool(0.25) else 1)
    # incidence: tangents of the tilt from the normal, up to grazing
    c["ta"] = s.weighted((4, lambda s: s.lattice(-2, 2)), (1, 0.0), (1, lambda s: s.log(2, 1e3)))
    c["tb"] = s.weighted((4, lambda s: s.lattice(-2, 2)), (2, 0.0))
    c["back"] = s.bool(0.4)
    c["probe"] = s.bool(0.1)
    return c


def make(c):
    S = build.shapes
    cen, n = build.arr(c["c"]), build.arr(c["n"])
    if c["kind"] == "plane":
        return S.Plane(cen, n)
    if c["kind"] == "circle":
        return S.Circle(cen, n, **({"R": build.whole(c["D"] / 2)} if c["by"] == "R" else {"D": build.whole(c["D"])}))
    return S.Rectangle(cen, n, build.tangent_arr({"n": c["n"], "roll": c["roll"], "tl": c.get("tl", 1)}), h=build.whole(c["h"]), w=build.whole(c["w"]))


def check_hit(sh, n, ray, p, d, x, t, hit, what):
    got, gx, gn = build.shape_result3(sh.test_intersect(ray), what)
    require(got == hit, "%s: %s, expected %s (crossing at %s, distance %r)", what, "hit" if got else "miss",
            "hit" if hit else "miss", x, t)
    if hit:
        sc = max([1.0, abs(t)] + [abs(v) for v in p + x])
        cos = abs(ref.dot(d, n))
        tol = 1e-10 * sc / max(cos, 1e-3)
        require(ref.dist(gx, x) <= tol, "%s reports the crossing %s, it is at %s", what, gx, x)
        require(ref.dist(gn, n) <= 1e-9, "%s reports the normal %s, it is %s", what, gn, n)


def o_known(c):
    n = ref.unit(ref.V(c["n"]))
    t_ = ref.tangent_of({"n": c["n"], "roll": c["roll"]})
    t2 = ref.cross(n, t_)
    cen = ref.V(c["c"])
    if c["kind"] == "circle":
        # a: fraction of the radius, b: direction within the plane
        u = ref.unit(ref.add(ref.mul(t_, 1.0), ref.mul(t2, c["b"])))
        off = ref.mul(u, c["a"] * c["D"] / 2)
        edge = (abs(c["a"]) - 1) * c["D"] / 2
    elif c["kind"] == "rect":
        off = ref.add(ref.mul(t_, c["a"] * c["h"] / 2), ref.mul(t2, c["b"] * c["w"] / 2))
        edge = max((abs(c["a"]) - 1) * c["h"] / 2, (abs(c["b"]) - 1) * c["w"] / 2)
    else:
        off = ref.add(ref.mul(t_, c["a"] * c["h"]), ref.mul(t2, c["b"] * c["w"]))
        edge = -1.0
    x = ref.add(cen, off)
    d = gen.tilt(n if not c["back"] else ref.neg(n), c["ta"], c["tb"])
    t = c["dist"]
    p = ref.along(x, d, -t)
    sc = max([1.0, abs(t)] + [abs(v) for v in p + x])
    cos = abs(ref.dot(d, n))
    blur = 0.0
    if c["kind"] == "rect":  # corners are rounded, and a side known to rounding points less well the shorter it is
        blur = 1e-15 * max(c["w"], c["h"]) * (max(c["w"], c["h"]) + sc) / min(c["w"], c["h"])
    if abs(edge) < 1e-10 * sc / cos + blur:
        raise Skip("at the edge within rounding")
    if abs(t) < max(3e-9, 1e-10 * sc / cos):
        raise Skip("starts on the surface within rounding")
    ray = build.ray({"pos": list(p), "dir": list(d), "probe": c["probe"]})
    sh = make(c)
    check_hit(sh, n, ray, p, d, x, t, t > 0 and edge < 0, c["kind"])
    # the same ray from the very crossing: standing on the surface is not a hit, so it does not re-hit
    tags = []
    if t > 0:
        tags.append("nt")
        tags.append("hit" if edge < 0 else "just outside" if edge < 1e-2 * (c["D"] + c["w"] + c["h"]) else "outside")
    else:
        tags.append("behind")
    return tags


def any_case(s):
    return {"e": {"k": s.pick(["flat", "rect"]), "pos": gen.vec(s, 20), "n": gen.direction(s), "D": s.num(1, 60),
                  "roll": gen.roll(s), "w": s.num(1, 60), "h": s.num(1, 60)},
            "p": gen.vec(s, 40), "d": gen.direction(s)}


def skimming_case(s):
    """A ray along the surface, but for a hair, from a point level with its centre in one or two coordinates."""
    c = any_case(s)
    e = c["e"]
    n = ref.unit(ref.V(e["n"]))
    u = ref.any_perp(n)
    v = ref.cross(n, u)
    a = math.radians(s.weighted((1, lambda s: s.pick([0, 90, 180, 270])), (2, lambda s: s.lattice(0, 360, 10))))
    d = ref.add(ref.add(ref.mul(u, math.cos(a)), ref.mul(v, math.sin(a))), ref.mul(n, s.log(3e-6, 1e-1) * s.pick([1, -1])))
    size = min(e["D"], e["w"], e["h"])
    x = ref.add(ref.V(e["pos"]), ref.add(ref.mul(u, s.lattice(-0.4, 0.4) * size), ref.mul(v, s.lattice(-0.4, 0.4) * size)))
    p = list(ref.along(x, ref.unit(d), -s.pos(1e-2, 100)))
    for k in range(3):
        if s.bool(0.4):
            p[k] = float(e["pos"][k])
    return dict(c, p=p, d=list(d))


def o_any(c):
    """Unconstrained rays, with integer arrays and axis-aligned layouts as the demos use."""
    e = dict(c["e"])
    if e["k"] == "flat":
        e.pop("w"), e.pop("h")
    p, d = ref.V(c["p"]), ref.unit(ref.V(c["d"]))
    try:
        h = ref.flat_hit(e, p, d, 1e-8, 1e-8)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    n = ref.unit(ref.V(e["n"]))
    kind = {"flat": "circle", "rect": "rect"}[e["k"]]
    sh = make({"kind": kind, "c": e["pos"], "n": e["n"], "D": e.get("D"), "w": e.get("w"), "h": e.get("h"), "by": "D",
               "roll": e["roll"]})
    ray = build.ray({"pos": c["p"], "dir": c["d"]})
    t, x = h[0] if h else (0.0, p)
    check_hit(sh, n, ray, p, d, x, t, bool(h), kind)
    pl = build.shapes.Plane(build.arr(e["pos"]), build.arr(e["n"]))
    den = ref.dot(d, n)
    t = ref.plane_t(p, d, ref.V(e["pos"]), n)
    if abs(den) < 1e-11:
        check_hit(pl, n, ray, p, d, p, 0.0, False, "plane parallel to the ray")
    elif abs(den) > 1e-6 and abs(t) > 1e-7:
        check_hit(pl, n, ray, p, d, ref.along(p, d, t), t, t > 0, "plane")
    return ["nt"] if h or (t is not None and t > 0) else []


def parallel_case(s):
    return {"kind": s.pick(["plane", "circle", "rect"]), "c": gen.vec(s, 50), "n": s.pick(gen.AXES), "roll": s.pick([0, 90, 180]),
            "D": s.num(1, 50), "w": s.num(1, 50), "h": s.num(1, 50), "by": "D", "off": s.weighted((2, 0.0), (3, lambda s: s.lattice(-5, 5))),
            "u": s.lattice(-1, 1), "v": s.lattice(-1, 1), "back": s.lattice(-30, 30)}


def o_parallel(c):
    """A ray running in or beside the surface never hits it."""
    n = ref.V(c["n"])
    u = ref.any_perp(n)
    v = ref.cross(n, u)
    d = ref.add(ref.mul(u, c["u"]), ref.mul(v, c["v"]))
    if ref.norm(d) < 1e-3:
        d = u
    p = ref.add(ref.add(ref.V(c["c"]), ref.mul(n, c["off"])), ref.mul(d, c["back"]))
    ray = build.ray({"pos": list(p), "dir": list(d)})
    got, gx, gn = build.shape_result3(make(c).test_intersect(ray), c["kind"])
    require(not got, "%s is hit at %s by a ray parallel to it", c["kind"], gx)
    return ["nt"]


SUBS = [
    Sub("known_crossing", lambda: gen.decoded(flat_case, 100), o_known, quick=20000, shards=4, thorough=300000,
        rule="the crossing of the plane lies ahead of the ray"),
    Sub("any_ray", lambda: gen.decoded(any_case, 100), o_any, quick=10000, shards=2, thorough=200000,
        rule="the plane of the surface is crossed ahead of the ray"),
    Sub("skimming", lambda: gen.decoded(skimming_case, 100), o_any, quick=6000, shards=1, thorough=100000,
        rule="the plane of the surface is crossed ahead of a ray that is all but parallel to it"),
    Sub("parallel", lambda: gen.decoded(parallel_case, 60), o_parallel, quick=3000, shards=1, thorough=30000,
        rule="every case: exactly parallel rays, in the surface or beside it"),
]
