"""C09: mirrors obey the law of reflection."""
import math

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Incidence is drawn relative to the normal, from head-on to grazing, either side; normals of any sign and length."


def incidence(s):
    """tangents of the tilt away from the normal"""
    ta = s.weighted((5, lambda s: s.lattice(-2, 2)), (1, 0.0), (1, lambda s: s.log(2, 1e3)))
    tb = s.weighted((4, lambda s: s.lattice(-2, 2)), (2, 0.0))
    return ta, tb


def direct_case(s):
    n = gen.direction(s)
    ta, tb = incidence(s)
    d = gen.tilt(ref.V(n), ta, tb)
    if s.bool():
        d = ref.neg(d)
    k = s.weighted((3, 1.0), (1, -1.0), (3, lambda s: s.log(1e-3, 1e3)), (2, lambda s: -s.log(1e-3, 1e3)))
    return {"n": [x * k for x in n], "dir": list(d) if s.bool(0.8) else gen.direction(s), "pos": gen.big_vec(s)}


def check_law(i, r, n, what):
    """i, r unit directions; n any normal"""
    n = ref.unit(n)
    require(abs(ref.norm(r) - 1) < 1e-9, "%s: the reflected direction has length %r", what, ref.norm(r))
    ci, cr = ref.dot(i, n), ref.dot(r, n)
    require(abs(ci + cr) < 1e-9, "%s: cosines with the normal %r before, %r after", what, ci, cr)
    # in the plane of incidence: the tangential part is untouched
    ti, tr = ref.sub(i, ref.mul(n, ci)), ref.sub(r, ref.mul(n, cr))
    require(ref.dist(ti, tr) < 1e-9, "%s: %s off normal %s goes to %s: the part along the surface changed from %s to %s", what, i,
            n, r, ti, tr)


def o_direct(c):
    r = build.ray({"pos": c["pos"], "dir": c["dir"]})
    i = ref.unit(ref.V(c["dir"]))
    n = build.arr(c["n"])
    r.reflect(reflect_type="specular_flat", normal=n, intersection_pt=build.arr(c["pos"]))
    out = build.direction(r)
    check_law(i, out, ref.V(c["n"]), "reflect")
    require(len(r.point_history) == 1 and ref.dist(build.vec(r.position), ref.V(c["pos"])) == 0, "reflecting moved the ray")
    require(not r.blocked, "reflecting blocked the ray")
    r.reflect(normal=-2 * n)
    require(ref.dist(build.direction(r), i) < 1e-9, "reflecting twice turns %s to %s", i, r.direction)
    return ["nt"] if ref.dist(i, out) > 1e-6 else []


def mirror_case(s):
    k = s.pick(["flat", "rect", "dmd", "dmd_rect", "grating"])
    n = gen.direction(s)
    if k == "dmd" and s.bool(0.2):
        n = [0, 0, 1]
    e = {"k": k, "pos": gen.big_vec(s), "n": n}
    size = s.pos(0.1, 200)
    if k in gen.RECTS:
        e.update(w=size, h=size * s.lattice(0.5, 2), roll=gen.roll(s))
    else:
        e["D"] = size
    if k.startswith("dmd"):
        # tilted by up to 45 degrees or so, any length and sign
        t = gen.tilt(ref.V(n), s.lattice(-1, 1), s.lattice(-1, 1))
        f = s.pick([1.0, 1.0, -1.0, 3.0, -0.2])
        e["dn"] = [x * f for x in t]
    if k == "grating":
        e["G"] = s.pick([300, 1200, 0])
    ta, tb = incidence(s)
    back = s.bool(0.4)
    d = gen.tilt(ref.unit(ref.V(n)), ta, tb)
    d = d if back else ref.neg(d)
    a, b = s.lattice(-0.9, 0.9), s.lattice(-0.6, 0.6)
    t, dist, rest = s.pos(1e-2, 500), s.pos(1e-2, 500), 0
    n_ = ref.unit(ref.V(n))
    t1 = ref.tangent_of(e) if "w" in e else ref.any_perp(n_)
    t2 = ref.cross(n_, t1)
    hx, hy = (e["h"] / 2, e["w"] / 2) if "w" in e else (size / 2, size / 2)
    if "w" not in e:
        b *= 0.5
        a *= 0.8
    x = ref.add(ref.V(e["pos"]), ref.add(ref.mul(t1, a * hx), ref.mul(t2, b * hy)))
    p = ref.along(x, d, -t)
    return {"e": e, "ray": {"pos": list(p), "dir": list(d), "wavelength": gen.wavelength(s),
                            "order": 0 if k == "grating" else gen.order(s)}, "x": list(x), "after": dist}


def o_mirror(c):
    e = c["e"]
    p, x = ref.V(c["ray"]["pos"]), ref.V(c["x"])
    i = ref.unit(ref.V(c["ray"]["dir"]))
    t = ref.dist(p, x)
    optic = build.element(e)
    r = build.ray(c["ray"])
    n = ref.V(e["dn"]) if "dn" in e else ref.V(e["n"])
    build.run(r, t + c["after"], [optic], 1)
    h = build.history(r)
    sc = scale_of(h)
    require(len(h) == 2, "%s: one interaction gave %d points", e["k"], len(h))
    cos = abs(ref.dot(i, ref.unit(ref.V(e["n"]))))
    require(ref.dist(h[1], x) <= 1e-9 * sc / max(cos, 1e-3), "%s: reflected at %s, the surface is crossed at %s", e["k"], h[1], x)
    out = build.direction(r)
    check_law(i, out, n, e["k"])
    require(not r.blocked, "%s: the ray is blocked", e["k"])
    if abs(ref.dot(out, ref.unit(ref.V(e["n"])))) < max(1e-5, 2e-6 * sc):
        raise Skip("leaves along the surface")  # rounding may put the surface ahead again
    # flying on keeps that direction (a micromirror's reflection may not re-enter its own surface)
    build.run(r, c["after"], [optic])
    h = build.history(r)
    end = ref.along(h[1], out, c["after"])
    require(ref.dist(h[2], end) <= 1e-8 * scale_of(h) and len(h) == 3, "%s: after reflection the path is %s, expected %s", e["k"], h, end)
    return ["nt", e["k"], "from behind" if ref.dot(i, ref.V(e["n"])) > 0 else "from the front"]


def pair_case(s):
    c = mirror_case(s)
    while c["e"]["k"] != "grating":
        c["e"].pop("dn", None)
        e = {"k": "grating", "pos": c["e"]["pos"], "n": c["e"]["n"], "roll": gen.roll(s), "G": s.pick([300, 1200, 100.0])}
        e["w"] = c["e"].get("w", c["e"].get("D"))
        e["h"] = c["e"].get("h", c["e"].get("D"))
        e["w"], e["h"] = e["w"] * 2, e["h"] * 2
        c["e"] = e
    c["ray"]["order"] = 0
    return c


def o_zero_order(c):
    """The zeroth order of a grating is a flat mirror of the same outline."""
    g = build.element(c["e"])
    m = build.element(dict(c["e"], k="rect"))
    D = ref.dist(ref.V(c["ray"]["pos"]), ref.V(c["x"])) + c["after"]
    a, b = build.ray(c["ray"]), build.ray(c["ray"])
    build.run(a, D, [g])
    build.run(b, D, [m])
    ha, hb = build.history(a), build.history(b)
    require(len(ha) == len(hb), "grating order 0: %d points, mirror %d", len(ha), len(hb))
    require(all(ref.dist(u, v) <= 1e-9 * scale_of(hb) for u, v in zip(ha, hb)), "grating order 0 path %s, mirror path %s", ha, hb)
    require(ref.dist(build.direction(a), build.direction(b)) < 1e-9, "grating order 0 direction %s, mirror %s", a.direction, b.direction)
    return ["nt"] if len(hb) > 2 else []


SUBS = [
    Sub("direct", lambda: gen.decoded(direct_case, 80), o_direct, quick=15000, shards=2, thorough=200000,
        rule="the direction changes"),
    Sub("mirrors", lambda: gen.decoded(mirror_case, 120), o_mirror, quick=10000, shards=4, thorough=150000,
        rule="every case: the ray is aimed at a point of the aperture"),
    Sub("zero_order", lambda: gen.decoded(pair_case, 130), o_zero_order, quick=4000, shards=2, thorough=50000,
        rule="the grating is hit"),
]
