"""Shared by the sphere and cylinder checks: cases by construction, expectations, comparison."""
import math

from . import build, gen, ref
from .core import Skip, require

OFFSETS = [0.0, 0.3, 0.5, 0.9, 0.99, 0.999, 0.99999, 1.00001, 1.0001, 1.01, 1.5, 3.0, 1 - 1e-7, 1 + 1e-7, 1 - 1e-9, 1 + 1e-9, 1 - 1e-10, 1 - 2e-10, 1 - 3e-11,
           1 + 1e-10]


def leaf_of(c):
    return {"s": "sphere", "c": c["c"], "R": c["R"]} if c["kind"] == "sphere" else \
        {"s": "cyl", "c": c["c"], "d": c["axis"], "R": c["R"]}


def shape_of(c):
    kw = {"D": build.whole(c["R"] * 2)} if c.get("useD") else {"R": build.whole(c["R"])}
    if c["kind"] == "sphere":
        return build.shapes.Sphere(build.arr(c["c"]), **kw)
    return build.shapes.InfiniteCylinder(build.arr(c["c"]), build.arr(c["axis"]), **kw)


def axis(s):
    return s.weighted((4, gen.direction), (1, [0, 0, -1]), (1, [0, 0, 1]), (1, [0, 0, -2.5]),
                      (1, lambda s: [s.lattice(-1, 1) * 10.0 ** -s.int(2, 12), s.lattice(-1, 1) * 10.0 ** -s.int(2, 12), -1.0]),
                      (1, lambda s: [s.lattice(-1, 1) * 10.0 ** -s.int(2, 12), s.lattice(-1, 1) * 10.0 ** -s.int(2, 12), 1.0]))


def crossing_case(kind):
    def fn(s):
        c = {"kind": kind, "c": gen.big_vec(s), "R": s.pos(1e-2, 500)}
        if s.bool(0.3):
            c["useD"] = True
        if kind == "cyl":
            c["axis"] = axis(s)
            ax = ref.unit(ref.V(c["axis"]))
            u0 = ref.any_perp(ax)
            v0 = ref.cross(ax, u0)
            a = math.radians(s.lattice(0, 360, 10))
            e = ref.add(ref.mul(u0, math.cos(a)), ref.mul(v0, math.sin(a)))  # across the axis
            u = ref.cross(ax, e)
            slope = s.weighted((3, lambda s: s.lattice(-2, 2)), (1, 0.0), (1, lambda s: s.log(2, 200)), (1, lambda s: s.log(200, 1e7)))
            d = ref.unit(ref.add(e, ref.mul(ax, slope)))
            stretch = math.sqrt(1 + slope * slope)
            base = ref.along(ref.V(c["c"]), ax, s.weighted((2, 0.0), (3, lambda s: s.lattice(-50, 50))))
        else:
            d = ref.unit(ref.V(gen.direction(s)))
            u0 = ref.any_perp(d)
            v0 = ref.cross(d, u0)
            a = math.radians(s.lattice(0, 360, 10))
            u = ref.add(ref.mul(u0, math.cos(a)), ref.mul(v0, math.sin(a)))
            stretch, base = 1.0, ref.V(c["c"])
        q = s.weighted((3, lambda s: s.pick(OFFSETS)), (4, lambda s: s.lattice(0, 1)), (1, lambda s: s.lattice(0, 2)))
        far = s.weighted((5, lambda s: s.lattice(-3, 3)), (2, lambda s: s.log(3, 100)), (1, lambda s: -s.log(3, 100)))
        p = ref.along(ref.add(base, ref.mul(u, q * c["R"])), d, -far * c["R"] * stretch)
        if max(abs(x) for x in p) > 1e5:
            p = ref.along(ref.add(base, ref.mul(u, q * c["R"])), d, -math.copysign(2.0, far) * c["R"])
        if s.bool(0.2):  # next to one of the crossings, before or past it
            try:
                ts = ref.leaf_ts(leaf_of(c), p, d, 1e-9)
            except ref.Ambiguous:
                ts = []
            if ts:
                p = ref.along(p, d, s.pick(ts) + s.log(1e-8, 1) * s.pick([1, -1]) * max(1e-8, min(1.0, c["R"])))
        c.update(pos=list(p), dir=list(d), probe=s.bool(0.1))
        return c
    return fn


def any_case(kind):
    def fn(s):
        c = {"kind": kind, "c": gen.vec(s, 20), "R": s.num(0.5, 20), "pos": gen.vec(s, 40)}
        if kind == "cyl":
            c["axis"] = axis(s)
        c["dir"] = gen.direction(s) if s.bool(0.5) else [a + s.sint(3) - b for a, b in zip(c["c"], c["pos"])]
        if not any(c["dir"]):
            c["dir"] = [1, 0, 0]
        return c
    return fn


def scale(c, *pts):
    return max([1.0, c["R"]] + [abs(v) for p in (c["c"], c["pos"]) + pts for v in p])


def expected(c, p, d):
    """Crossing distances along the line, with the rounding allowance on them; Skip when undecidable."""
    leaf = leaf_of(c)
    sc = scale(c, p)
    stretch = 1.0
    if c["kind"] == "cyl":
        ax = ref.unit(ref.V(c["axis"]))
        stretch = 1.0 / max(1e-9, ref.norm(ref.cross(d, ax)))
    try:
        ts = ref.leaf_ts(leaf, p, d, (2e-11 + 1e-12 * stretch) * sc)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    if not ts:
        return ts, 0.0
    h = (ts[1] - ts[0]) / 2 / stretch
    tol = 2e-13 * sc * (1 + c["R"] / max(h, 1e-12)) * stretch * stretch
    return ts, tol


def check(c, sh, p, d, got, on_start=False, what=""):
    """Compare an answer with the crossings ahead. on_start: the ray starts on the surface at p."""
    what = what or c["kind"]
    hit, pts, count = build.shape_result6(got, what)
    ts, tol = expected(c, p, d)
    gap = max(3e-9, 10 * tol)
    if on_start:
        ts = [t for t in ts if abs(t) > gap]
    for t in ts:
        if abs(t) < gap:
            raise Skip("starts on the surface within rounding")
    ahead = [t for t in ts if t > 0]
    require(len(pts) == len(ahead), "%s from %s along %s reports %d crossings %s, the line crosses at distances %s", what, p, d,
            len(pts), [x for x, _ in pts], ts)
    require(hit == bool(ahead), "%s reports hit=%s with %d crossings ahead", what, hit, len(ahead))
    leaf = leaf_of(c)
    left = [ref.along(p, d, t) for t in ahead]
    for x, n in pts:
        k = min(range(len(left)), key=lambda i: ref.dist(left[i], x))
        require(ref.dist(left[k], x) <= tol + 1e-12 * scale(c, x), "%s from %s along %s reports crossing %s, the nearest one is %s (tolerance %r)",
                what, p, d, x, left[k], tol)
        left.pop(k)
        require(ref.dist(n, ref.leaf_normal(leaf, x)) <= 1e-9 + 1e-12 * scale(c, x) / c["R"], "%s reports normal %s at %s, it is %s",
                what, n, x, ref.leaf_normal(leaf, x))
    if on_start:
        require(int(count) % 2 == len(ahead) % 2, "%s reports %d crossings and count %r", what, len(ahead), count)
        return pts, count, ahead, ts
    starts_inside = ref.inside(leaf, p)
    if not ts and starts_inside:  # only parallel to a cylinder's axis: no crossings to count
        return pts, count, ahead, ts
    require((int(count) % 2 == 1) == starts_inside, "%s from %s along %s reports count %r, starting %s", what, p, d, count,
            "inside" if starts_inside else "outside")
    return pts, count, ahead, ts


def o_crossings(c):
    sh = shape_of(c)
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    ray = build.ray({"pos": c["pos"], "dir": c["dir"], "probe": c.get("probe")})
    pts, count, ahead, ts = check(c, sh, p, d, sh.test_intersect(ray))
    if c["kind"] == "cyl" and len(pts) == 2:
        require(ref.dist(p, pts[0][0]) < ref.dist(p, pts[1][0]), "cylinder crossings are not nearest first: %s from %s",
                [x for x, _ in pts], p)
    tags = []
    if len(ahead) == 2:
        tags += ["nt", "through"]
    elif len(ahead) == 1:
        tags += ["nt", "from inside"]
    elif ts:
        tags += ["nt", "behind"]
    else:
        tags.append("miss")
    if ts and c["R"] and (ts[1] - ts[0]) < 0.1 * c["R"]:
        tags.append("near tangent")
    return tags


def o_rehit(c):
    """From each reported crossing, go on, turn back, and reflect: the same spot is never hit again."""
    sh = shape_of(c)
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    got = sh.test_intersect(build.ray({"pos": c["pos"], "dir": c["dir"]}))
    hit, pts, _ = build.shape_result6(got, c["kind"])
    ts, tol = expected(c, p, d)
    if not pts:
        return []
    if ts[1] - ts[0] < 0.02 * c["R"] or tol > 1e-7:
        raise Skip("grazing or very distant")
    for x, n in pts:
        if ref.dist(p, x) < 1e-7:
            raise Skip("starts on the surface")
        for nd, name in ((d, "straight on"), (ref.neg(d), "back"), (ref.reflect(d, n), "reflected")):
            ray = build.ray({"pos": c["pos"], "dir": list(nd)})
            ray.position = build.np.array(x)
            check(c, sh, x, ref.unit(nd), sh.test_intersect(ray), on_start=True, what="%s %s from its own surface" % (c["kind"], name))
            # and by flying there, as a trace does
        r2 = build.ray({"pos": c["pos"], "dir": c["dir"]})
        r2.fly(distance=ref.dist(p, x))
        r2.reflect(normal=build.np.array(n))
        x2 = build.vec(r2.position)
        check(c, sh, x2, build.direction(r2), sh.test_intersect(r2), on_start=True, what=c["kind"] + " after flying to it and reflecting")
    return ["nt"]


def o_tangent(c):
    """Touching exactly, in whole numbers: behind is a miss; ahead is a miss or a touch, and never 'inside'."""
    sh = shape_of(c)
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    hit, pts, count = build.shape_result6(sh.test_intersect(build.ray({"pos": c["pos"], "dir": c["dir"]})), c["kind"])
    x = ref.V(c["touch"])
    t = ref.dot(ref.sub(x, p), d)
    require(int(count) % 2 == 0, "%s touched from outside reports count %r, as if starting inside", c["kind"], count)
    if t < 0:
        require(not hit, "%s touched behind the ray is reported as hit at %s", c["kind"], pts)
    else:
        for q, n in pts:
            require(ref.dist(q, x) <= 1e-6 * c["R"] + 1e-9 * scale(c), "%s touched at %s is reported as hit at %s", c["kind"], x, q)
            require(ref.dist(n, ref.leaf_normal(leaf_of(c), x)) <= 1e-5, "%s touched at %s has normal %s", c["kind"], x, n)
    return ["nt", "ahead" if t > 0 else "behind"]


def tangent_case(kind):
    def fn(s):
        c = {"kind": kind, "c": [s.sint(40) for _ in range(3)], "R": s.int(1, 30)}
        a = s.below(3)
        b = (a + 1 + s.below(2)) % 3
        k = 3 - a - b
        sa, sb = s.pick([1, -1]), s.pick([1, -1])
        d = [0, 0, 0]
        d[a] = sa
        x = list(c["c"])
        x[b] += sb * c["R"]
        if kind == "cyl":
            # the ray runs along a (across the axis), the cylinder along k
            ax = [0, 0, 0]
            ax[k] = s.pick([1, -1, 2, -3])
            c["axis"] = ax
            x[k] += s.sint(20)
        t = s.int(1, 60) * s.pick([1, -1])
        p = list(x)
        p[a] -= sa * t
        c.update(pos=p, dir=d, touch=x)
        return c
    return fn


def point_case(kind):
    def fn(s):
        c = {"kind": kind, "c": gen.big_vec(s), "R": s.pos(1e-2, 500), "useD": s.bool(0.3)}
        if kind == "cyl":
            c["axis"] = axis(s)
            ax = ref.unit(ref.V(c["axis"]))
            u = ref.any_perp(ax)
            v = ref.cross(ax, u)
            a = math.radians(s.lattice(0, 360, 10))
            off = ref.add(ref.mul(u, math.cos(a)), ref.mul(v, math.sin(a)))
            base = ref.along(ref.V(c["c"]), ax, s.weighted((1, 0.0), (3, lambda s: s.lattice(-100, 100)), (1, lambda s: s.log(100, 2000))))
        else:
            off, base = ref.unit(ref.V(gen.direction(s))), ref.V(c["c"])
        q = s.weighted((1, 0.0), (3, lambda s: s.pick(OFFSETS[1:])), (3, lambda s: s.lattice(0, 2)), (1, lambda s: s.log(2, 100)))
        c["pos"] = list(ref.add(base, ref.mul(off, q * c["R"])))
        return c
    return fn


def o_point(c):
    sh = shape_of(c)
    depth = ref.leaf_depth(leaf_of(c), ref.V(c["pos"]))
    if abs(depth) < 1e-11 * scale(c):
        raise Skip("on the surface within rounding")
    got = sh.test_point(build.arr(c["pos"]))
    require(isinstance(got, (bool, build.np.bool_)), "test_point answered %r", got)
    require(bool(got) == (depth > 0), "%s: point %s tests as %s, its depth is %r", c["kind"], c["pos"], got, depth)
    # the normal asked for directly
    if ref.leaf_depth(leaf_of(c), ref.V(c["pos"])) < 0.99 * c["R"]:
        n = build.vec(sh.normal(build.arr(c["pos"])), "normal")
        require(ref.dist(n, ref.leaf_normal(leaf_of(c), ref.V(c["pos"]))) <= 1e-9 + 1e-11 * scale(c) / c["R"],
                "%s: normal at %s is %s", c["kind"], c["pos"], n)
    return ["nt", "inside" if depth > 0 else "outside"] if abs(depth) < c["R"] * 0.999 else []


def parallel_case(s):
    c = {"kind": "cyl", "c": gen.vec(s, 50), "R": s.pos(0.1, 50)}
    i = s.below(3)
    ax = [0, 0, 0]
    ax[i] = s.pick([1, -1, 3, -7])
    c["axis"] = ax
    d = [0, 0, 0]
    d[i] = s.pick([1, -1, 2])
    off = [s.weighted((1, 0.0), (1, lambda s: s.lattice(-3, 3)), (1, lambda s: s.pick([1.0, -1.0]))) * c["R"] for _ in range(3)]
    c["pos"] = [a + b for a, b in zip(c["c"], off)]
    c["dir"] = d
    return c


def o_parallel(c):
    sh = shape_of(c)
    hit, pts, count = build.shape_result6(sh.test_intersect(build.ray(c)), "cylinder")
    require(not hit, "a ray parallel to the axis hits the cylinder at %s", pts)
    return ["nt"]
