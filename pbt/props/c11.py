"""C11: light through refractive solids enters and leaves with the right indices."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of

RULE = "Ball lenses and refracting compounds (lens-like solids and random trees), launched outside and inside, with other elements before and after them in the list."

SOLIDS = ("ball", "compound")


def is_solid(e):
    return e["k"] == "ball" or (e["k"] == "compound" and e.get("behavior") == "refract")


def centre_of(e):
    return e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"]


def inside_element(e, p):
    if e["k"] == "ball":
        return ref.dist(p, ref.V(e["pos"])) < e["D"] / 2
    return ref.inside(e["tree"], p)


def o_path(case):
    r = build.ray(case["ray"])
    optics = build.scene(case["scene"])
    build.run(r, case["distance"], optics)
    res = follow(case["scene"], case["ray"], case["distance"], r)
    solid_hits = [k for k in res["kinds"] if k in SOLIDS]
    tags = ["nt"] if solid_hits else []
    if len(solid_hits) >= 4:
        tags.append("4+ refractions")
    if len(res["kinds"]) > len(solid_hits):
        tags.append("with other elements")
    if any(is_solid(e) and inside_element(e, ref.V(case["ray"]["pos"])) for e in case["scene"]):
        tags.append("launched inside")
    if not res["done"]:
        tags.append("stopped: " + res["why"])
    return tags


def refracting(case):
    for e in case["scene"]:
        if e["k"] == "compound":
            e["behavior"] = "refract"
    return case


def start_inside(case, k):
    """Move the launch point into one of the solids."""
    sol = [e for e in case["scene"] if is_solid(e)]
    if not sol:
        return case
    e = sol[k % len(sol)]
    c = ref.V(centre_of(e))
    size = e["D"] / 2 if e["k"] == "ball" else ref.leaves(e["tree"])[0]["R"]
    s = gen.Src(k.to_bytes(12, "big"))
    for _ in range(4):
        p = ref.add(c, ref.mul((s.lattice(-1, 1), s.lattice(-1, 1), s.lattice(-1, 1)), 0.55 * size))
        if inside_element(e, p):
            case["ray"]["pos"] = [round(x, 6) for x in p]
            break
    return case


SC_KINDS = ["ball", "compound", "ball", "compound", "flat", "detector", "window", "convex"]


def inside_scenes():
    return st.builds(lambda c, k: start_inside(refracting(c), k), gen.sized(st.one_of(gen.box(5, SC_KINDS), gen.chain(4, SC_KINDS))),
                     st.integers(0, 2 ** 90))


def o_retrace(case):
    """Sent back along its exit path, the ray returns to its start."""
    scene, ray = case["scene"], case["ray"]
    try:
        fwd, absorbed = ref.trace(scene, ray, case["distance"], 14)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    if absorbed:
        raise Skip("absorbed")
    n = sum(1 for x in fwd if x[2] is not None)
    if n == 0:
        return []
    if n > 8:
        raise Skip("more than eight interactions")
    # how much a small error grows along this path
    amp = 1.0
    for dv in ((1e-7, 0, 0), (0, 1e-7, 0), (0, 0, 1e-7)):
        try:
            alt, _ = ref.trace(scene, dict(ray, dir=ref.add(ref.unit(ref.V(ray["dir"])), dv)), case["distance"], 14)
        except ref.Ambiguous as a:
            raise Skip(str(a))
        if [x[2] for x in alt] != [x[2] for x in fwd]:
            raise Skip("next to another path")
        amp = max(amp, max((ref.dist(x[0], y[0]) + ref.dist(x[1], y[1])) / 1e-7 for x, y in zip(alt, fwd)))
    if amp > 1e6:
        raise Skip("very sensitive path")
    optics = build.scene(scene)
    r = build.ray(ray)
    build.run(r, case["distance"], optics)
    h = build.history(r)
    flown = math.fsum(ref.dist(a, b) for a, b in zip(h, h[1:]))
    back = {"pos": list(h[-1]), "dir": list(ref.neg(build.direction(r))), "wavelength": ray["wavelength"], "order": 0}
    try:
        bref, bab = ref.trace(scene, back, flown, 40)
    except ref.Ambiguous as a:
        raise Skip("back: " + str(a))
    # sensitivity of the way back
    try:
        for dv in ((1e-7, 0, 0), (0, 1e-7, 0), (0, 0, 1e-7)):
            alt, _ = ref.trace(scene, dict(back, dir=ref.add(ref.V(back["dir"]), dv)), flown, 40)
            m = min(len(alt), len(bref))
            amp = max(amp, max((ref.dist(x[0], y[0]) + ref.dist(x[1], y[1])) / 1e-7 for x, y in zip(alt[:m], bref[:m])))
    except ref.Ambiguous as a:
        raise Skip("back: " + str(a))
    if amp > 1e6:
        raise Skip("very sensitive path")
    b = build.ray(back)
    build.run(b, flown, build.scene(scene))
    hb = build.history(b)
    tol = 1e-12 * amp * scale_of(h) * 100 + 1e-9 * scale_of(h)
    require(len(hb) == len(h), "%d points on the way out, %d on the way back: %s and %s", len(h), len(hb), h, hb)
    for k, (x, y) in enumerate(zip(h, reversed(hb))):
        require(ref.dist(x, y) <= tol, "the way back passes %s instead of %s (point %d of %d)", y, x, k, len(h))
    require(ref.dist(build.direction(b), ref.neg(ref.unit(ref.V(ray["dir"])))) <= tol, "returned along %s, launched along %s",
            b.direction, ray["dir"])
    return ["nt"] + (["4+ interactions"] if n >= 4 else [])


def o_index_one(case):
    """Solids of index 1 leave every ray straight."""
    r = build.ray(case["ray"])
    build.run(r, case["distance"], build.scene(case["scene"]))
    h = build.history(r)
    p, d = ref.V(case["ray"]["pos"]), ref.unit(ref.V(case["ray"]["dir"]))
    sc = scale_of(h)
    flown = 0.0
    for k, q in enumerate(h):
        t = ref.dot(ref.sub(q, p), d)
        require(ref.dist(q, ref.along(p, d, t)) <= 1e-8 * sc and t >= flown - 1e-9 * sc,
                "vertex %d at %s is off the straight line from %s along %s", k, q, p, d)
        flown = t
    require(ref.dist(build.direction(r), d) <= 1e-8, "the direction became %s", r.direction)
    require(abs(flown - case["distance"]) <= 1e-8 * sc, "the ray went %r of %r", flown, case["distance"])
    return ["nt"] if len(h) > 2 else []


def ones(case):
    for e in case["scene"]:
        e["index"] = 1.0
        if e["k"] == "compound":
            e["behavior"] = "refract"
    return case


def rim_case(s):
    """A thin stretch of material: through the rim of a lens, a film, or a grazed ball."""
    c = gen.vec(s, 20)
    ax = ref.unit(ref.V(gen.direction(s)))
    u = ref.any_perp(ax)
    thin = s.log(1e-6, 0.3)
    R = s.num(2, 20)
    k = s.pick(["film", "slab", "rim", "wedge"])
    if k == "film":
        tree = {"op": "difference", "a": {"s": "sphere", "c": [0.0, 0.0, 0.0], "R": R}, "b": {"s": "sphere", "c": [0.0, 0.0, 0.0], "R": R - thin}}
        lat, lean = s.lattice(0, 0.8) * R, 0.0
    elif k == "slab":  # two cylinders' walls
        tree = {"op": "difference", "a": {"s": "cyl", "c": [0.0, 0.0, 0.0], "d": list(u), "R": R},
                "b": {"s": "cyl", "c": [0.0, 0.0, 0.0], "d": list(u), "R": R - thin}}
        lat, lean = s.lattice(0, 0.8) * R, s.lattice(-0.5, 0.5)
    else:  # biconvex lens entered near its edge, or with the lens itself thin
        th = s.lattice(0.05, 1) * R if k == "rim" else thin
        tree = gen.lens_tree("biconvex", ax, R, R, th, 0.0)
        edge = math.sqrt(max(0.0, R * R - (R - th / 2) ** 2))
        lat, lean = (edge - min(thin, edge * 0.5) if k == "rim" else s.lattice(0, 0.9) * edge), 0.0
    p = ref.add(ref.mul(ax, -R * 1.5), ref.mul(u if k != "slab" else ref.cross(ax, u), lat))
    d = ref.add(ax, ref.mul(u, lean))
    tree = gen.shift_tree(tree, c)
    scene = [{"k": "compound", "tree": tree, "behavior": "refract", "index": gen.index(s)}]
    for _ in range(s.weighted((2, 0), (1, 1))):
        scene.insert(s.below(len(scene) + 1), gen.element(s, 40, SC_KINDS))
    return {"scene": refracting({"scene": scene})["scene"],
            "ray": {"pos": [a + b for a, b in zip(c, p)], "dir": list(d), "wavelength": 532, "order": 0}, "distance": s.num(20, 200)}


def o_rim(case):
    """Each interaction re-launched from just before it, decided with a fine tolerance."""
    optics = build.scene(case["scene"])
    r = build.ray(case["ray"])
    left = case["distance"]
    thin = n = 0
    while left > 1e-6 and not r.blocked and n < 30:
        p, d = build.vec(r.position), build.direction(r)
        try:
            hit = ref.first_hit(case["scene"], p, d, left, 1e-8, 2e-8)
            if hit is not None:
                i, t, x, nn, info = hit
                c = abs(ref.dot(d, nn))
                if c < 0.05:
                    raise ref.Ambiguous("grazing hit")
                nd, absorbed = ref.element_act(case["scene"][i], p, d, x, nn, info, case["ray"])
                if is_solid(case["scene"][i]):
                    # no other surface within the reach of the code's probe point
                    ahead = ref.element_hit(case["scene"][i], ref.along(x, d, 2e-8), d, 1e-8, 1e-9)
                    if ahead is not None and ahead[0] < 2e-7:
                        raise ref.Ambiguous("thinner than the probe")
        except ref.Ambiguous:
            break
        build.run(r, left, optics, 1)
        q = build.vec(r.position)
        if hit is None:
            require(ref.dist(q, ref.along(p, d, left)) < 1e-7, "from %s along %s the way is free, the ray went to %s", p, d, q)
            break
        require(ref.dist(q, x) < 1e-7, "from %s along %s element %d (%s) is met at %s (distance %r), the ray went to %s", p, d, i,
                case["scene"][i]["k"], x, t, q)
        require(bool(r.blocked) == absorbed, "blocked %s after element %d", r.blocked, i)
        if not absorbed:
            require(ref.dist(build.direction(r), nd) < 1e-5, "at %s element %d (%s) turns %s to %s, expected %s (%s)", q, i, case["scene"][i]["k"], d,
                    r.direction, nd, "entering" if info and info.get("entering") else "leaving")
        if n and t < 0.1:
            thin += 1
        left -= t
        n += 1
    return (["nt"] if n >= 2 else []) + (["stretch under a tenth"] if thin else [])


def endless_case(s):
    """A solid without end, crossed along its own axis: the crossings ahead say nothing about where the ray starts."""
    ax = ref.unit(ref.V(gen.direction(s)))
    u = ref.any_perp(ax)
    R = s.num(3, 15)
    tree = {"s": "cyl", "c": [0.0, 0.0, 0.0], "d": list(ax), "R": R}
    z, at = 0.0, []
    for _ in range(s.int(1, 3)):
        q = s.num(0.3, 0.9) * R
        c = list(ref.add(ref.mul(ax, z), ref.mul(u, s.lattice(-0.1, 0.1) * R)))
        cut = {"s": "sphere", "c": c, "R": q} if s.bool(0.7) else {"s": "cyl", "c": c, "d": list(u), "R": q}
        tree = {"op": s.pick(["difference", "difference", "difference", "intersect"]) if not at else s.pick(["difference", "union"]), "a": tree, "b": cut}
        at.append(z)
        z += s.lattice(0.2, 2.5) * R
    off = s.weighted((1, 0.0), (3, lambda s: s.lattice(-0.6, 0.6))) * q
    start = s.pick(at + [-R * 1.5, z, z + R])
    p = ref.add(ref.mul(ax, start), ref.mul(u, off))
    d = ax if s.bool() else ref.neg(ax)
    if s.bool(0.15):
        d = ref.add(d, ref.mul(u, s.pick([1, -1]) * s.log(1e-5, 1e-1)))
    c = gen.vec(s, 20)
    return {"scene": [{"k": "compound", "tree": gen.shift_tree(tree, c), "behavior": "refract", "index": gen.index(s)}],
            "ray": {"pos": [a + b for a, b in zip(c, p)], "dir": list(d), "wavelength": 532, "order": 0}, "distance": s.num(5, 100)}


RETRACE = ["ball", "compound", "flat", "rect", "window", "compound"]

SUBS = [
    Sub("path", lambda: gen.sized(st.one_of(gen.chain(6, SC_KINDS), gen.box(6, SC_KINDS))).map(refracting), o_path, quick=4000, shards=4,
        thorough=80000, rule="at least one refraction followed against the reference tracer"),
    Sub("launched_inside", inside_scenes, o_path, quick=2500, shards=2, thorough=50000,
        rule="at least one refraction followed against the reference tracer"),
    Sub("retrace", lambda: gen.sized(st.one_of(gen.chain(4, RETRACE, extra=1), gen.box(4, RETRACE))).map(refracting), o_retrace, quick=2500,
        shards=3, thorough=40000, rule="at least one interaction on the way, the path not hypersensitive"),
    Sub("thin", lambda: gen.decoded(rim_case, 400), o_rim, quick=3000, shards=2, thorough=60000, rule="two or more interactions compared"),
    Sub("endless", lambda: gen.decoded(endless_case, 120), o_path, quick=2000, shards=1, thorough=40000,
        rule="at least one refraction followed against the reference tracer"),
    Sub("index_one", lambda: st.one_of(gen.chain(5, ["ball", "compound"]), gen.box(6, ["ball", "compound"])).map(ones), o_index_one,
        quick=2000, shards=2, thorough=40000, rule="the ray crosses a surface"),
]
