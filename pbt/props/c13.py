"""C13: a ray meets a compound solid at the first true boundary of the solid."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of
from .c12 import point_near

RULE = "Random trees up to five levels and lens-like solids; starts anywhere, inside single parts, inside the solid and in cut-away parts; rays aimed at a part."


def split_leaf(s, tree):
    """One leaf becomes two that nearly coincide: a film, a slightly larger copy, a slightly shifted one."""
    if "op" in tree:
        k = s.pick(["a", "b"])
        return dict(tree, **{k: split_leaf(s, tree[k])})
    twin = dict(tree)
    gap = s.log(2e-7, 1e-2)
    if s.bool():
        twin["R"] = tree["R"] + s.pick([1, -1]) * gap
    else:
        twin["c"] = [float(x) for x in twin["c"]]
        twin["c"][s.below(3)] += s.pick([1, -1]) * gap
    pair = [tree, twin] if s.bool() else [twin, tree]
    return {"op": s.pick(gen.OPS), "a": pair[0], "b": pair[1]}


def row_case(s):
    """Many lobes along one line, overlapping or apart, some cut off again."""
    ax = ref.unit(ref.V(gen.direction(s)))
    at, tree, z = [], None, 0.0
    for _ in range(s.int(4, 9)):
        R = s.num(0.5, 3)
        at.append(z)
        leaf = {"s": "sphere", "c": list(ref.mul(ax, z)), "R": R}
        if s.bool(0.2):
            leaf = {"op": "difference", "a": leaf, "b": {"s": "sphere", "c": list(ref.mul(ax, z + s.lattice(-1, 1))), "R": R * 0.6}}
        op = s.pick(["union", "union", "union", "difference"])
        tree = leaf if tree is None else {"op": op, "a": tree, "b": leaf} if op == "difference" or s.bool() else {"op": op, "a": leaf, "b": tree}
        z += s.lattice(0.5, 7)
    u = ref.any_perp(ax)
    p = ref.add(ref.mul(ax, s.pick([-10.0, -10.0, z + 10.0, z / 2, at[s.below(len(at))]])), ref.mul(u, s.lattice(-0.4, 0.4)))
    d = ref.add(ref.mul(ax, -1.0 if p[0] * ax[0] + p[1] * ax[1] + p[2] * ax[2] > z else s.pick([1.0, 1.0, -1.0])), ref.mul(ref.cross(ax, u), s.lattice(-0.03, 0.03)))
    return {"tree": tree, "pos": list(p), "dir": list(d)}


def ray_case(s):
    if s.bool(0.08):
        return row_case(s)
    tree = gen.solid(s, s.pick([1, 2, 2, 3, 4, 5]), exact=True) if s.bool(0.75) else gen.lens_solid(s)
    if s.bool(0.2):
        tree = split_leaf(s, tree)
    shift = gen.big_vec(s) if s.bool(0.3) else None
    k = s.byte()
    p = gen.vec(s, 40) if k < 130 else point_near(s, tree)
    if k % 3 == 0:
        d = gen.direction(s)
    else:
        q = point_near(s, tree)
        d = [a - b for a, b in zip(q, p)]
        if max(abs(x) for x in d) < 1e-3:
            d = [0, 0, 1]
    if shift is not None:
        tree = gen.shift_tree(tree, shift)
        p = [a + b for a, b in zip(p, shift)]
    return {"tree": tree, "pos": p, "dir": d, "probe": s.bool(0.1)}


def close_case(s):
    """The start a hair before or past a crossing of the boundary."""
    c = ray_case(s)
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    at, off, back = s.byte(), s.log(2e-8, 1e-2), s.bool(0.3)
    try:
        xs, tol, sc = expected(c, p, d)
    except Skip:
        return c
    if xs:
        t = xs[at % len(xs)][0]
        off = max(off, 1e-10 * sc)
        c = dict(c, pos=list(ref.along(p, d, t + (off if back else -off))), close=True)
    return c


def film_case(s):
    """Thin walls met from far away: shells, tubes, and the overlap or gap of two balls."""
    sc = s.weighted((2, 1.0), (3, lambda s: s.log(1, 3e3)))
    thin = max(s.log(2e-8, 1e-3), 3e-10 * sc)
    R = s.num(1, 10)
    ax = ref.unit(ref.V(gen.direction(s)))
    k = s.pick(["shell", "tube", "balls"])
    if k == "balls":
        gap = thin * s.pick([1, -1])
        tree = {"op": s.pick(gen.OPS), "a": {"s": "sphere", "c": [0.0, 0.0, 0.0], "R": R},
                "b": {"s": "sphere", "c": list(ref.mul(ax, R + 2.0 + gap)), "R": 2.0}}
        lat = 0.0
    else:
        leaf = {"s": "sphere"} if k == "shell" else {"s": "cyl", "d": list(ref.any_perp(ax))}
        a, b = dict(leaf, c=[0.0, 0.0, 0.0], R=R), dict(leaf, c=[0.0, 0.0, 0.0], R=R - thin)
        if s.bool(0.2):
            a, b = b, a
        tree = {"op": s.pick(["difference", "difference", "union", "intersect"]), "a": a, "b": b}
        lat = s.lattice(0, 0.7) * R
    p = ref.add(ref.mul(ax, -R - sc), ref.mul(ref.cross(ax, ref.any_perp(ax)), lat))
    d = ref.add(ax, ref.mul(ref.any_perp(ax), s.weighted((1, 0.0), (1, lambda s: s.lattice(-0.1, 0.1) / sc))))
    if s.bool():
        shift = [x * sc / 100 for x in gen.vec(s, 100)]
        tree, p = gen.shift_tree(tree, shift), ref.add(p, ref.V(shift))
    return {"tree": tree, "pos": list(p), "dir": list(d), "close": True}


def expected(c, p, d):
    sc = max([1.0] + [abs(x) for x in p] + [abs(x) for l in ref.leaves(c["tree"]) for x in l["c"]])
    tol, start = 1e-7 * (1 + sc / 100), 1e-6
    if c.get("close"):
        tol, start = 1e-10 * sc, max(4e-9, 1e-11 * sc)
    try:
        return ref.solid_crossings(c["tree"], p, d, tol, start), tol, sc
    except ref.Ambiguous as a:
        raise Skip(str(a))


def o_first(c):
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    xs, tol, sc = expected(c, p, d)
    comp = build.o3d.Compound(build.tree_by_insertion(c["tree"]), surface_behavior="refract", index=1.5)
    res = comp.test_intersect(build.ray(c))
    require(isinstance(res, tuple) and len(res) == 4, "Compound.test_intersect answered %r", res)
    hit, pt, n = res[0], res[1], res[2]
    parts = []
    for l in ref.leaves(c["tree"]):
        parts += [t for t in ref.leaf_ts(l, p, d, 0.0) if t > 1e-6]
    # the number of crossings ahead; along a solid without end it says nothing about the start
    count = build.go.test_tree_intersect(build.tree(c["tree"]), build.ray(c))[5]
    require(count == len(xs), "%d crossings of the boundary ahead of %s along %s, reported %r", len(xs), p, d, count)
    if all(l["s"] == "sphere" for l in ref.leaves(c["tree"])) and hit:
        require(bool(res[3]) == (len(xs) % 2 == 0), "with %d crossings ahead, the ray starts outside: %r", len(xs), res[3])
    if not xs:
        require(not hit and pt is None, "no boundary lies ahead of %s along %s, a hit at %s is reported", p, d, pt)
        return ["nt", "miss past parts"] if parts else ["miss"]
    t, leaf, entering = xs[0]
    x = ref.along(p, d, t)
    if c.get("close") and abs(ref.dot(d, ref.leaf_normal(leaf, x))) < 0.02:
        raise Skip("grazing")
    require(bool(hit), "the boundary ahead of %s along %s at %s (distance %r) is missed", p, d, x, t)
    pt, n = build.vec(pt, "hit point"), build.vec(n, "normal")
    near = min((abs(ref.dot(d, ref.leaf_normal(leaf, x))), 1.0))
    # A ray almost along a cylinder's axis leaves it far away: the error grows with the distance.
    require(ref.dist(pt, x) <= 1e-9 * max(sc, t) / max(near, 1e-4), "from %s along %s the solid is met at %s (distance %r), reported %s", p, d, x, t, pt)
    w = ref.leaf_normal(leaf, x)
    require(abs(ref.norm(n) - 1) < 1e-9 and ref.norm(ref.cross(n, w)) < 1e-6, "normal %s at %s, the surface normal is %s", n, x, w)
    tags = []
    if "op" in c["tree"]:
        tags.append("nt")
    if any(q < t - 1e-6 for q in parts):
        tags.append("buried or cut-away surface first")
    if len(xs) > 8:
        tags.append("more than 8 crossings")
    tags.append("entering" if entering else "leaving")
    if t < 1e-3:
        tags.append("within a thousandth")
    return tags


def trace_case(s):
    c = ray_case(s)
    e = {"k": "compound", "tree": c["tree"], "behavior": s.pick(["refract", "reflect"]), "index": gen.index(s)}
    return {"scene": [e], "ray": {"pos": c["pos"], "dir": c["dir"], "wavelength": 532, "order": 0}, "distance": s.num(10, 300)}


def o_trace(case):
    r = build.ray(case["ray"])
    build.run(r, case["distance"], build.scene(case["scene"]))
    res = follow(case["scene"], case["ray"], case["distance"], r)
    tags = ["nt"] if res["n"] >= 1 and "op" in case["scene"][0]["tree"] else []
    if res["n"] >= 3:
        tags.append("3+ interactions")
    return tags


def o_rehit(case):
    """A ray standing on the boundary goes on to the next boundary, not to the spot it stands on."""
    c = case
    p, d = ref.V(c["pos"]), ref.unit(ref.V(c["dir"]))
    xs, tol, sc = expected(c, p, d)
    if not xs:
        return []
    comp = build.o3d.Compound(build.tree_by_insertion(c["tree"]), surface_behavior="refract", index=1.0)
    r = build.ray(c)
    for k, (t, leaf, entering) in enumerate(xs[:6]):
        if abs(ref.dot(d, ref.leaf_normal(leaf, ref.along(p, d, t)))) < 0.02:
            raise Skip("grazing")
        hit, pt = comp.test_intersect(r)[:2]
        x = ref.along(p, d, t)
        require(bool(hit), "crossing %d at %s is missed", k, x)
        pt = build.vec(pt)
        require(ref.dist(pt, x) <= 1e-7 * max(sc, t), "crossing %d of the boundary is at %s, reported %s", k, x, pt)
        r.fly(distance=ref.dist(build.vec(r.position), pt))
    if len(xs) <= 6:
        hit, pt = comp.test_intersect(r)[:2]
        require(not hit, "after the last boundary crossing another is reported at %s", pt)
    return ["nt"] if len(xs) > 1 else []


SUBS = [
    Sub("first_boundary", lambda: gen.decoded(ray_case, 500), o_first, quick=12000, shards=4, thorough=200000,
        rule="a solid of at least one operator is hit, or missed although the line crosses some part"),
    Sub("close", lambda: gen.decoded(close_case, 520), o_first, quick=3000, shards=2, thorough=60000,
        rule="a solid of at least one operator is met or missed by a ray starting 2e-8 to 0.01 before or past a crossing of its boundary"),
    Sub("films", lambda: gen.decoded(film_case, 120), o_first, quick=3000, shards=1, thorough=60000,
        rule="a shell, tube or pair of balls, 2e-8 to 0.001 thick, is met or missed by a ray from up to 3000 away"),
    Sub("walk", lambda: gen.decoded(ray_case, 500), o_rehit, quick=5000, shards=2, thorough=80000,
        rule="the line crosses the boundary at least twice"),
    Sub("trace", lambda: gen.decoded(trace_case, 520), o_trace, quick=3000, shards=2, thorough=60000,
        rule="at least one interaction with a solid of at least one operator"),
]
