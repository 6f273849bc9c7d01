"""C15: curved mirrors reflect at their true spherical surface."""
import math

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of

RULE = "Mirrors anywhere, of any orientation; rays are aimed at drawn points of the cap (and beyond its rim, from the front, from behind and from within the hollow) or the ball."


def concave(s):
    D = s.pos(0.5, 100)
    return {"k": "concave", "pos": gen.big_vec(s), "n": gen.direction(s), "D": D, "f": D * s.weighted((3, lambda s: s.lattice(0.6, 5)), (1, lambda s: s.log(5, 100)), (2, lambda s: s.lattice(0.26, 0.6)), (0.4, lambda s: s.pick([0.25, 0.250001, 0.2501, 0.251, 0.252, 0.255])))}


def axes(e):
    n = ref.unit(ref.V(e["n"]))
    u = ref.any_perp(n)
    return ref.V(e["pos"]), n, u, ref.cross(n, u)


def cap_point(e, r, a):
    """A point of the mirror's sphere, r aperture radii from the axis."""
    c, n, u, v = axes(e)
    a = math.radians(a)
    R, y = 2 * e["f"], min(r * e["D"] / 2, 2 * e["f"])
    side = ref.add(ref.mul(u, math.cos(a)), ref.mul(v, math.sin(a)))
    return ref.add(ref.along(c, n, R - math.sqrt(R * R - y * y)), ref.mul(side, y))


def concave_case(s):
    e = concave(s)
    return {"e": e, "r": s.weighted((1, 0.0), (4, lambda s: s.lattice(0, 0.98)), (1, 1.02), (1, lambda s: s.lattice(0.95, 1.5)), (1, lambda s: 1 - s.log(1e-6, 1e-2))), "a": s.lattice(0, 360, 10),
            "tilt": [s.lattice(-1.5, 1.5) * s.weighted((4, 1), (1, 5)), s.lattice(-1.5, 1.5)], "behind": s.bool(0.2), "t": s.weighted((3, lambda s: s.lattice(0.3, 4)), (2, lambda s: s.log(1e-4, 0.3)), (1, lambda s: s.log(1e-7, 1e-4)), (1, lambda s: s.log(4, 50))),
            "after": s.lattice(0.1, 3), "limit": s.weighted((3, None), (1, lambda s: s.lattice(0.2, 1.5)))}


def o_concave(c):
    e = c["e"]
    cen, n, u, v = axes(e)
    R = 2 * e["f"]
    x = cap_point(e, c["r"], c["a"])
    d = ref.unit(ref.add(ref.mul(n, 1 if c["behind"] else -1), ref.add(ref.mul(u, c["tilt"][0]), ref.mul(v, c["tilt"][1]))))
    p = ref.along(x, d, -c["t"] * R)
    rayspec = {"pos": list(p), "dir": list(d), "wavelength": 532, "order": 0}
    D = c["t"] * R + c["after"] * R if c["limit"] is None else c["limit"] * c["t"] * R
    r = build.ray(rayspec)
    build.run(r, D, [build.element(e)])
    res = follow([e], rayspec, D, r)
    h = build.history(r)
    tags = []
    if res["n"]:
        C = ref.along(cen, n, R)
        sc = scale_of(h)
        for y in h[1:1 + res["n"]]:
            require(abs(ref.dist(y, C) - R) <= 1e-9 * sc + 1e-9 * R, "reflected at %s, %r off the sphere", y, abs(ref.dist(y, C) - R))
            require(ref.dot(ref.sub(C, y), n) > 0, "reflected at %s, on the far half of the sphere", y)
            z = ref.dot(ref.sub(y, cen), n)
            require(ref.norm(ref.sub(ref.sub(y, cen), ref.mul(n, z))) <= e["D"] / 2 * (1 + 1e-9) + 1e-9 * sc, "reflected at %s, outside the aperture", y)
        tags.append("nt")
        tags.append("from behind" if ref.dot(d, n) > 0 else "from the front")
        # standing between the vertex plane and the rim
        sag = R - math.sqrt(R * R - e["D"] ** 2 / 4)
        if 0 < ref.dot(ref.sub(p, cen), n) < sag:
            tags.append("launched in the hollow")
    else:
        tags.append("passes outside")
    if res["n"] > 1:
        tags.append("several bounces")
    return tags


def centre_case(s):
    e = concave(s)
    return {"e": e, "r": s.lattice(0, 0.95), "a": s.lattice(0, 360, 10), "kind": s.pick(["centre", "parallel"]), "t": s.lattice(0.2, 4),
            "small": s.log(1e-3, 5e-2)}


def o_centre(c):
    e = c["e"]
    cen, n, u, v = axes(e)
    f, R = e["f"], 2 * e["f"]
    C = ref.along(cen, n, R)
    sc = max([1.0, R] + [abs(x) for x in cen])
    opt = build.element(e)
    if c["kind"] == "centre":
        x = cap_point(e, c["r"], c["a"])
        r = build.ray({"pos": list(C), "dir": list(ref.sub(x, C))})
        build.run(r, 2 * R, [opt])
        h = build.history(r)
        require(len(h) == 3, "from the centre of curvature: path %s", h)
        require(abs(ref.dist(h[0], h[1]) - R) <= 1e-9 * sc, "from the centre of curvature the mirror is %r away, its radius is %r",
                ref.dist(h[0], h[1]), R)
        require(ref.dist(h[2], C) <= 1e-8 * sc, "a ray from the centre of curvature %s returns to %s", C, h[2])
    else:
        y = c["small"] * R  # narrow beam, given as a fraction of the radius
        if y > 0.45 * e["D"]:
            y = 0.45 * e["D"]
        a = math.radians(c["a"])
        off = ref.mul(ref.add(ref.mul(u, math.cos(a)), ref.mul(v, math.sin(a))), y)
        p = ref.add(ref.along(cen, n, (0.5 + c["t"]) * R), off)
        r = build.ray({"pos": list(p), "dir": list(ref.neg(n))})
        build.run(r, 1e9, [opt], 1)
        h = build.history(r)
        require(len(h) == 2, "a ray parallel to the axis misses the mirror: %s", h)
        d = build.direction(r)
        # where it crosses the axis
        perp = ref.sub(ref.sub(h[1], cen), ref.mul(n, ref.dot(ref.sub(h[1], cen), n)))
        dperp = ref.sub(d, ref.mul(n, ref.dot(d, n)))
        s_ = -ref.dot(perp, dperp) / ref.dot(dperp, dperp)
        q = ref.along(h[1], d, s_)
        z = ref.dot(ref.sub(q, cen), n)
        off_axis = ref.norm(ref.sub(ref.sub(q, cen), ref.mul(n, z)))
        err = 1e-9 * sc + 1e-11 * sc * R / y
        require(off_axis <= err * 10, "the reflected ray passes %r beside the axis", off_axis)
        th = math.asin(y / R)
        exact = R - R / (2 * math.cos(th))
        require(abs(z - exact) <= err * 20, "a ray %r from the axis crosses it at %r, expected %r", y, z, exact)
        require(abs(z - f) <= f * (y / R) ** 2 + err * 20, "a narrow beam meets at %r, the focal length is %r", z, f)
    return ["nt", c["kind"]]


def convex_case(s):
    e = {"k": "convex", "pos": gen.big_vec(s), "D": s.pos(0.5, 100)}
    return {"e": e, "dir": gen.direction(s), "q": s.weighted((1, 0.0), (4, lambda s: s.lattice(0, 0.995)), (1, lambda s: s.pick([1.001, 1.1, 2.0]))),
            "a": s.lattice(0, 360, 10), "t": s.weighted((3, lambda s: s.lattice(1.05, 5)), (1, lambda s: s.log(5, 500))), "after": s.lattice(0.1, 5),
            "back": s.bool(0.1)}


def o_convex(c):
    e = c["e"]
    R = e["D"] / 2
    d = ref.unit(ref.V(c["dir"]))
    u = ref.any_perp(d)
    a = math.radians(c["a"])
    side = ref.add(ref.mul(u, math.cos(a)), ref.mul(ref.cross(d, u), math.sin(a)))
    p = ref.add(ref.along(ref.V(e["pos"]), d, (-1 if not c["back"] else 1) * c["t"] * R), ref.mul(side, c["q"] * R))
    D = (c["t"] + c["after"]) * R
    rayspec = {"pos": list(p), "dir": list(d), "wavelength": 532, "order": 0}
    r = build.ray(rayspec)
    build.run(r, D, [build.element(e)])
    h = build.history(r)
    sc = scale_of(h)
    hit = c["q"] < 1 and not c["back"]
    require(len(h) == (3 if hit else 2), "a ray %r radii off the centre of the ball%s has the path %s", c["q"], ", leaving it" if c["back"] else "", h)
    if hit:
        x = ref.along(p, d, c["t"] * R - math.sqrt(max(0.0, 1 - c["q"] ** 2)) * R)
        grow = 1 / math.sqrt(1 - c["q"] ** 2)
        require(ref.dist(h[1], x) <= 1e-10 * sc * grow, "the ball is met at %s, expected %s", h[1], x)
        n = ref.unit(ref.sub(h[1], ref.V(e["pos"])))
        want = ref.reflect(d, n)
        require(ref.dist(build.direction(r), want) <= 1e-9, "reflected along %s, expected %s", r.direction, want)
        require(ref.dot(build.direction(r), n) > 0, "reflected into the ball")
        if c["q"] == 0:
            require(ref.dist(build.direction(r), ref.neg(d)) <= 1e-9 + 1e-11 * sc / R, "aimed at the centre along %s it returns along %s", d, r.direction)
    return ["nt"] if hit else ["miss"]


def o_cavity(case):
    """Rays kept between curved mirrors: each bounce moves on to another place."""
    scene = case["scene"]
    r = build.ray(case["ray"])
    build.run(r, case["distance"], build.scene(scene))
    res = follow(scene, case["ray"], case["distance"], r)
    h = build.history(r)
    sc = scale_of(h)
    for a, b in zip(h[1:], h[2:]):
        require(ref.dist(a, b) > 1e-8, "two vertices %s and %s: the same spot is hit again", a, b)
    curved = sum(k in ("concave", "convex") for k in res["kinds"])
    return (["nt"] if curved >= 2 else []) + ["bounces %d" % min(curved, 4), "stopped: %s" % res["why"]]


def cavity_case(s):
    """Curved mirrors around a common centre, facing it; sometimes a ball in the middle."""
    c = ref.V(gen.big_vec(s))
    L = s.num(5, 60)
    scene = []
    ax = ref.unit(ref.V(gen.direction(s)))
    for k in range(s.int(2, 5)):
        d = ax if k == 0 else ref.neg(ax) if k == 1 else ref.unit(ref.V(gen.direction(s)))
        size = L * s.lattice(0.4, 1.1)
        n = gen.tilt(ref.neg(d), s.lattice(-0.05, 0.05), s.lattice(-0.05, 0.05))
        scene.append({"k": "concave", "pos": list(ref.along(c, d, L)), "n": list(n), "D": size, "f": max(size * 0.6, L * s.pick([0.5, 0.55, 0.6, 1.0]))})
    if s.bool(0.4):
        scene.append({"k": "convex", "pos": list(c), "D": s.num(1, 4)})
    if s.bool(0.3):
        scene.append({"k": "convex", "pos": list(ref.along(c, ax, -1.5 * L)), "D": L * 0.8})
    p = ref.add(c, ref.mul(ref.unit(ref.V(gen.direction(s))), L * s.lattice(0.02, 0.3)))
    aim = ref.along(c, ax, L)
    d = ref.add(ref.sub(aim, p), tuple(L / 40 * s.lattice(-1, 1) for _ in range(3)))
    return {"scene": scene, "ray": {"pos": list(p), "dir": list(d), "wavelength": 532, "order": 0}, "distance": s.num(50, 1500)}


SUBS = [
    Sub("concave", lambda: gen.decoded(concave_case, 100), o_concave, quick=6000, shards=3, thorough=100000, rule="the mirror is hit"),
    Sub("centre_and_focus", lambda: gen.decoded(centre_case, 100), o_centre, quick=5000, shards=1, thorough=80000,
        rule="every case: rays from the centre of curvature, narrow parallel beams"),
    Sub("convex", lambda: gen.decoded(convex_case, 100), o_convex, quick=6000, shards=1, thorough=100000, rule="the ball is hit"),
    Sub("cavity", lambda: gen.decoded(cavity_case, 120), o_cavity, quick=2500, shards=3, thorough=40000, rule="two or more bounces off curved mirrors"),
]
