"""C14: ideal lenses image, collimate and focus perfectly."""
import math

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Lens placement, focal length, aperture, object point and aperture points are drawn; the conjugate point follows from the lens equation."


def lens(s, kind="ideal"):
    e = {"k": kind, "pos": gen.big_vec(s), "n": gen.direction(s), "f": s.weighted((10, lambda s: s.pos(1, 300)), (1, lambda s: s.log(300, 1.5e5)), (1, lambda s: s.log(0.01, 1))), "D": s.pos(1, 200)}
    if e["f"] < 1:
        e["D"] = min(e["D"], 10 * e["f"])
    return e


def frame(e, side):
    """(centre, unit axis along the light, two transverse axes)"""
    n = ref.unit(ref.V(e["n"]))
    if side:
        n = ref.neg(n)
    u = ref.any_perp(n)
    return ref.V(e["pos"]), n, u, ref.cross(n, u)


def aperture_point(s):
    r, a = s.weighted((1, 0.0), (4, lambda s: s.lattice(0, 0.99)), (1, 0.9999), (1, lambda s: s.log(1e-7, 1e-1))), s.lattice(0, 360, 10)
    return [r * math.cos(math.radians(a)), r * math.sin(math.radians(a))]


def image_case(s):
    e = lens(s)
    o = s.weighted((3, lambda s: s.lattice(1.05, 5)), (2, lambda s: s.log(1.02, 50)), (2, lambda s: s.lattice(0.05, 0.95)), (1, 2.0))
    if e["f"] * o > 3e5:
        o = s.lattice(1.05, 2) if o > 1 else o
    return {"e": e, "side": s.bool(), "o": o, "h": [s.weighted((1, 0.0), (3, lambda s: s.lattice(-1, 1))) * e["f"] for _ in range(2)],
            "rays": [aperture_point(s) for _ in range(s.int(2, 5))], "extra": s.pos(1, 100)}


def lens_ray(p, x):
    return {"pos": list(p), "dir": list(ref.sub(x, p)), "wavelength": 532, "order": 0}


def one_pass(e, rayspec, after, what):
    """Through the lens and `after` further: (lens point, direction after it, end)"""
    r = build.ray(rayspec)
    opt = build.element(e)
    build.run(r, 1e9, [opt], 1)
    h = build.history(r)
    require(len(h) == 2 and not r.blocked, "%s: the lens point is not reached: %s", what, h)
    d = build.direction(r)
    require(abs(ref.norm(d) - 1) < 1e-9, "%s: direction of length %r after the lens", what, ref.norm(d))
    build.run(r, after, [opt])
    h = build.history(r)
    require(len(h) == 3 and ref.dist(h[2], ref.along(h[1], d, after)) <= 1e-8 * scale_of(h), "%s: after the lens the path is %s", what, h)
    return h[1], d, h[2]


def o_image(c):
    e = c["e"]
    cen, n, u, v = frame(e, c["side"])
    f, o = e["f"], c["o"] * e["f"]
    obj = ref.add(ref.along(cen, n, -o), ref.add(ref.mul(u, c["h"][0]), ref.mul(v, c["h"][1])))
    i = 1 / (1 / f - 1 / o)
    m = -i / o
    img = ref.add(ref.along(cen, n, i), ref.add(ref.mul(u, c["h"][0] * m), ref.mul(v, c["h"][1] * m)))
    sc = max([1.0] + [abs(x) for x in cen + obj])
    for a, b in c["rays"]:
        x = ref.add(cen, ref.add(ref.mul(u, a * e["D"] / 2), ref.mul(v, b * e["D"] / 2)))
        x_, d, end = one_pass(e, lens_ray(obj, x), ref.dist(x, img) if i > 0 else c["extra"], "imaging")
        require(ref.dist(x_, x) < 1e-9 * sc, "the lens is met at %s, aimed at %s", x_, x)
        want = ref.unit(ref.sub(img, x)) if i > 0 else ref.unit(ref.sub(x, img))
        tol = 2e-7 + 1e-11 * sc / min(abs(i), f)
        require(ref.dist(d, want) <= tol, "object %s at %r f: the ray through %s leaves along %s, towards the image %s it is %s", obj,
                c["o"], x, d, img, want)
        if i > 0:
            require(ref.dist(end, img) <= tol * max(1.0, ref.dist(x, img)) + 1e-8 * sc, "the ray misses the image point %s at %s", img, end)
    return ["nt", "real image" if i > 0 else "virtual image"]


def special_case(s):
    e = lens(s)
    if s.bool(0.1) and e["f"] >= 1 and max(abs(x) for x in e["pos"]) < 2000:  # light nearly along the lens
        return {"e": e, "side": s.bool(), "kind": s.pick(["centre", "beam"]), "t": s.pos(0.1, 300),
                "tilt": [s.log(3, 2e5 / (10 + max(abs(x) for x in e["pos"]))) * s.pick([1, -1]), s.lattice(-2, 2)], "rays": [aperture_point(s) for _ in range(3)], "after": s.pos(0.1, 500)}
    if s.byte() < 20 and e["f"] >= 1:  # and as good as along it, about the origin where positions are exact
        e["pos"], e["n"] = [0, 0, 0], list(s.pick(gen.AXES))
        return {"e": e, "side": s.bool(), "kind": s.pick(["centre", "beam"]), "t": s.pos(0.1, 1),
                "tilt": [s.log(1e4, 5e5) * s.pick([1, -1]), s.lattice(-2, 2)], "rays": [aperture_point(s) for _ in range(3)], "after": s.pos(0.1, 500)}
    return {"e": e, "side": s.bool(), "kind": s.pick(["centre", "parallel", "beam", "focus point"]), "t": s.pos(0.1, 300),
            "tilt": [s.lattice(-2, 2), s.lattice(-2, 2)], "rays": [aperture_point(s) for _ in range(s.int(2, 4))], "after": s.pos(0.1, 500)}


def o_special(c):
    e = c["e"]
    cen, n, u, v = frame(e, c["side"])
    f = e["f"]
    sc = max([1.0] + [abs(x) for x in cen])
    oblique = ref.unit(ref.add(n, ref.add(ref.mul(u, c["tilt"][0]), ref.mul(v, c["tilt"][1]))))
    for a, b in c["rays"]:
        x = ref.add(cen, ref.add(ref.mul(u, a * e["D"] / 2), ref.mul(v, b * e["D"] / 2)))
        if c["kind"] == "centre":
            x, d0 = cen, oblique
            want = d0
        elif c["kind"] == "parallel":
            d0 = n
            want = ref.unit(ref.sub(ref.along(cen, n, f), x))
        elif c["kind"] == "beam":  # a parallel beam meets in the focal plane, where its centre ray goes
            d0 = oblique
            want = ref.unit(ref.sub(ref.along(cen, oblique, f / ref.dot(oblique, n)), x))
        else:  # from the front focal point: leaves parallel to the axis
            d0 = ref.unit(ref.sub(x, ref.along(cen, n, -f)))
            want = n
        t = c["t"] if c["kind"] != "focus point" else ref.dist(x, ref.along(cen, n, -f))
        p = ref.along(x, d0, -t)
        x_, d, _ = one_pass(e, {"pos": list(p), "dir": list(d0), "wavelength": 532, "order": 0}, c["after"], c["kind"])
        require(ref.dist(d, want) <= 2e-7 + 1e-11 * sc / f, "%s: through %s along %s the ray leaves along %s, expected %s", c["kind"], x, d0, d, want)
    return ["nt", c["kind"]]


def shaped_case(s):
    e = lens(s, s.pick(["collimate", "focus"]))
    a, b = s.lattice(-3, 3), s.lattice(-3, 3)
    if s.bool(0.15):  # nearly along the lens
        a = s.log(3, 2e4) * s.pick([1, -1])
    return {"e": e, "side": s.bool(), "tilt": [a, b], "x": aperture_point(s), "t": s.pos(0.1, 300), "after": s.pos(0.1, 500)}


def o_shaped(c):
    e = c["e"]
    cen, n, u, v = frame(e, c["side"])
    d0 = ref.unit(ref.add(n, ref.add(ref.mul(u, c["tilt"][0]), ref.mul(v, c["tilt"][1]))))
    x = ref.add(cen, ref.add(ref.mul(u, c["x"][0] * e["D"] / 2), ref.mul(v, c["x"][1] * e["D"] / 2)))
    p = ref.along(x, d0, -c["t"])
    F = ref.along(cen, n, e["f"])
    after = c["after"] if e["k"] == "collimate" else ref.dist(x, F)
    x_, d, end = one_pass(e, {"pos": list(p), "dir": list(d0), "wavelength": 532, "order": 0}, after, e["k"])
    want = n if e["k"] == "collimate" else ref.unit(ref.sub(F, x))
    sc = max([1.0] + [abs(q) for q in cen + p])
    require(ref.dist(d, want) <= 1e-8 + 1e-11 * sc / e["f"], "%s: the ray through %s along %s leaves along %s, expected %s", e["k"], x, d0, d, want)
    if e["k"] == "focus":
        require(ref.dist(end, F) <= 1e-7 * max(sc, e["f"]), "the focusing lens sends the ray to %s, not its focus %s", end, F)
    return ["nt", e["k"]]


def outside_case(s):
    e = lens(s, s.pick(["ideal", "collimate", "focus"]))
    return {"e": e, "side": s.bool(), "tilt": [s.lattice(-2, 2), s.lattice(-2, 2)], "r": s.pick([1.0001, 1.001, 1.01, 1.1, 2.0]),
            "a": s.lattice(0, 360, 10), "t": s.pos(0.1, 300), "after": s.pos(0.1, 300)}


def o_outside(c):
    e = c["e"]
    cen, n, u, v = frame(e, c["side"])
    d0 = ref.unit(ref.add(n, ref.add(ref.mul(u, c["tilt"][0]), ref.mul(v, c["tilt"][1]))))
    a = math.radians(c["a"])
    R = c["r"] * e["D"] / 2
    x = ref.add(cen, ref.add(ref.mul(u, R * math.cos(a)), ref.mul(v, R * math.sin(a))))
    p = ref.along(x, d0, -c["t"])
    sc = max([1.0] + [abs(q) for q in cen + p])
    if (c["r"] - 1) * e["D"] / 2 < 1e-9 * sc:
        raise Skip("at the edge within rounding")
    r = build.ray({"pos": list(p), "dir": list(d0)})
    D = c["t"] + c["after"]
    build.run(r, D, [build.element(e)])
    h = build.history(r)
    require(len(h) == 2 and ref.dist(h[1], ref.along(p, d0, D)) <= 1e-9 * scale_of(h) and ref.dist(build.direction(r), d0) < 1e-12,
            "a ray %r radii from the lens centre is affected: %s", c["r"], h)
    return ["nt"]


# ---------------------------------------------------------------- several lenses on one axis
def train_case(s):
    f, gap = [], []
    for _ in range(s.int(2, 5)):
        f.append(s.num(5, 100))
        gap.append(s.num(1, 200))
    for i in range(1, len(f)):  # now and then telescopes: the focal points coincide
        if s.bool(0.2):
            gap[i] = f[i - 1] + f[i]
    return {"pos": gen.vec(s, 100), "n": gen.direction(s), "f": f, "gap": gap, "flip": s.below(32), "h": [s.lattice(-1, 1), s.lattice(-1, 1)], "D": s.pos(50, 500),
            "rays": [aperture_point(s) for _ in range(s.int(2, 4))], "r0": s.log(1e-3, 20), "last": s.num(1, 300), "shuffle": s.u16()}


def o_train(c):
    """Objects are imaged by each lens in turn; the rays cross where the last image lies."""
    cen, n, u, v = frame({"pos": c["pos"], "n": c["n"]}, 0)
    f, gap = c["f"], c["gap"]
    # the object stands gap[0] before the first lens; z measured from the object along n
    zs, z = [], 0.0
    for g in gap:
        z += g
        zs.append(z)
    o, m = gap[0], 1.0
    spread = 0.0
    for k, (F, at) in enumerate(zip(f, zs)):
        if abs(o - F) < 0.02 * F or abs(o) < 0.02 * F:
            raise Skip("imaged to infinity, or at a lens")
        i = 1 / (1 / F - 1 / o)
        m *= -i / o
        o = (gap[k + 1] if k + 1 < len(f) else 0.0) - i
    img_z = zs[-1] + i
    obj = ref.along(ref.V(c["pos"]), n, 0.0)
    obj = ref.add(obj, ref.add(ref.mul(u, c["h"][0]), ref.mul(v, c["h"][1])))
    img = ref.add(ref.along(ref.V(c["pos"]), n, img_z), ref.add(ref.mul(u, c["h"][0] * m), ref.mul(v, c["h"][1] * m)))
    if max(abs(m), abs(i), 1 / abs(m)) > 1e5:
        raise Skip("extreme magnification")
    specs = [{"k": "ideal", "pos": list(ref.along(ref.V(c["pos"]), n, at)), "n": list(ref.neg(n) if c["flip"] >> k & 1 else n), "D": c["D"], "f": F}
             for k, (F, at) in enumerate(zip(f, zs))]
    order = sorted(range(len(specs)), key=lambda k: (c["shuffle"] * (k + 1) * 7919) % 104729)
    optics = build.scene([specs[k] for k in order])
    done = 0
    for a, b in c["rays"]:
        x = ref.add(ref.along(ref.V(c["pos"]), n, gap[0]), ref.add(ref.mul(u, a * c["r0"]), ref.mul(v, b * c["r0"])))
        # height at every lens, from the lens equations alone
        y, sl = [c["h"][0], c["h"][1]], [(a * c["r0"] - c["h"][0]) / gap[0], (b * c["r0"] - c["h"][1]) / gap[0]]
        widest, length = 0.0, 0.0
        for F, g in zip(f, gap):
            y = [p + g * q for p, q in zip(y, sl)]
            length += g * math.sqrt(1 + sl[0] ** 2 + sl[1] ** 2)
            widest = max(widest, math.hypot(*y))
            sl = [q - p / F for p, q in zip(y, sl)]
        spread = math.sqrt(1 + sl[0] ** 2 + sl[1] ** 2)
        if widest > c["D"] / 2 * 0.999 or math.hypot(*sl) > 50:
            continue
        r = build.ray(lens_ray(obj, x))
        total = length + abs(i) * spread if i > 0 else length + c["last"] * spread
        build.run(r, total, optics)
        h = build.history(r)
        sc = scale_of(h + [img])
        require(len(h) == len(f) + 2, "%d lenses, and a path of %d points", len(f), len(h))
        end, d = h[-1], build.direction(r)
        away = ref.norm(ref.cross(ref.sub(img, h[-2]), d))
        amp = 1 + abs(m) + 1 / abs(m)
        require(away <= 1e-8 * sc * amp * (1 + widest), "through %d lenses the ray from %s passes its image %s at a distance of %r", len(f), obj, img, away)
        if i > 0:
            require(ref.dist(end, img) <= 1e-8 * sc * amp * (1 + widest), "through %d lenses the ray from %s ends at %s, the image is at %s", len(f), obj, end, img)
        done += 1
    return ["nt", "real image" if i > 0 else "virtual image"] if done >= 2 else []


SUBS = [
    Sub("imaging", lambda: gen.decoded(image_case, 120), o_image, quick=6000, shards=3, thorough=100000,
        rule="every case: two or more rays from one object point, real or virtual image"),
    Sub("special_rays", lambda: gen.decoded(special_case, 120), o_special, quick=5000, shards=2, thorough=80000,
        rule="every case: centre rays, axis-parallel rays, oblique beams, rays from the front focus"),
    Sub("collimate_focus", lambda: gen.decoded(shaped_case, 100), o_shaped, quick=5000, shards=1, thorough=60000, rule="every case"),
    Sub("train", lambda: gen.decoded(train_case, 160), o_train, quick=4000, shards=2, thorough=60000, rule="two rays through every lens of a train"),
    Sub("outside_aperture", lambda: gen.decoded(outside_case, 100), o_outside, quick=4000, shards=1, thorough=50000, rule="every case"),
]
