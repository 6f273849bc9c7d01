"""C12: solid membership follows boolean algebra and index lookup follows list order."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require

RULE = "Random trees up to six levels deep; points near a leaf's surface, inside a leaf, or anywhere."


def close_to_one(s):
    return 1 + s.pick([1, -1]) * s.log(1e-8, 1e-2)


def point_near(s, tree, wide=12):
    ls = ref.leaves(tree)
    l = ls[s.below(len(ls))]
    k = s.byte()
    if k < 60:
        return gen.vec(s, wide)
    q = s.pick([0.0, 0.3, 0.6, 0.9, 0.99, 0.9999, 1.0001, 1.01, 1.1, 1.5]) if k < 190 else close_to_one(s)
    d = ref.unit(ref.V(gen.direction(s)))
    if l["s"] == "cyl":
        ax = ref.unit(ref.V(l["d"]))
        d = ref.sub(d, ref.mul(ax, ref.dot(d, ax)))
        d = ref.unit(d) if ref.norm(d) > 1e-6 else ref.any_perp(ax)
        return list(ref.add(ref.along(ref.V(l["c"]), ax, s.lattice(-20, 20)), ref.mul(d, q * l["R"])))
    return list(ref.add(ref.V(l["c"]), ref.mul(d, q * l["R"])))


def clear_of(tree, p, tol=1e-9):
    m = max(1.0, max(abs(x) for x in p))
    if any(abs(ref.leaf_depth(l, p)) < tol * m for l in ref.leaves(tree)):
        raise Skip("on a surface within rounding")


def doubled(s, tree, pts):
    """Each point followed by one on the other side of a leaf's surface, a hair away."""
    out = []
    ls = ref.leaves(tree)
    for p in pts:
        l = ls[s.below(len(ls))]
        c = ref.V(l["c"])
        d = ref.sub(ref.V(p), c)
        if l["s"] == "cyl":
            ax = ref.unit(ref.V(l["d"]))
            foot = ref.along(c, ax, ref.dot(d, ax))
        else:
            foot = c
        d = ref.sub(ref.V(p), foot)
        d = ref.unit(d) if ref.norm(d) > 1e-3 else None
        if d is None:
            out.append(p)
            continue
        eps = s.log(1e-8, 1e-4) * s.pick([1, -1])
        out += [list(ref.along(foot, d, l["R"] + eps)), list(ref.along(foot, d, l["R"] - eps))]
    return out


def tree_case(s):
    tree = gen.solid(s, s.pick([2, 1, 3, 4, 5, 6]), exact=True) if s.bool(0.85) else gen.lens_solid(s)
    pts = [point_near(s, tree) for _ in range(s.int(2, 8))]
    if s.bool(0.3):
        pts = doubled(s, tree, pts)
    return {"tree": tree, "points": pts, "index": gen.index(s),
            "behavior": s.pick(["reflect", "refract"])}


def o_tree(c):
    t1, t2 = build.tree(c["tree"]), build.tree_by_insertion(c["tree"])
    comp = build.o3d.Compound(t2, surface_behavior=c["behavior"], index=c["index"])
    seen = set()
    for p in c["points"]:
        p = ref.V(p)
        clear_of(c["tree"], p)
        want = ref.inside(c["tree"], p)
        a = build.arr(list(p))
        for t in (t1, t2):
            got = build.go.test_tree_point(t, a)
            require(isinstance(got, (bool, build.np.bool_)) and bool(got) == want, "point %s tests as %r, it is %s the solid", p, got,
                    "inside" if want else "outside")
        idx = comp.get_index_at_point_if_inside(a)
        require((idx == c["index"]) if want else idx is None, "point %s %s the solid of index %r: index %r", p,
                "inside" if want else "outside", c["index"], idx)
        seen.add(want)
    tags = ["depth %d" % ref_depth(c["tree"])]
    if "op" in c["tree"]:
        tags.append("nt")
    if len(seen) == 2:
        tags.append("both sides")
    return tags


def ref_depth(t):
    return gen.depth(t)


def lookup_case(s):
    items = []
    for _ in range(s.int(1, 5)):
        k = s.weighted((4, "compound"), (4, "ball"), (1, "flat"), (1, "detector"), (1, "ideal"), (1, "convex"), (1, "window"))
        if k == "compound":
            tree = gen.solid(s, 2, lim=4)
            items.append({"k": k, "tree": tree, "index": gen.index(s), "behavior": s.pick(["refract", "refract", "reflect"])})
        elif k == "ball":
            items.append({"k": k, "pos": gen.vec(s, 6), "D": s.num(1, 20), "index": gen.index(s)})
        elif k == "convex":
            items.append({"k": k, "pos": gen.vec(s, 6), "D": s.num(1, 20)})
        else:
            e = {"k": k, "pos": gen.vec(s, 6), "n": gen.direction(s)}
            if k == "detector":
                e.update(w=4, h=4, roll=0)
            elif k in ("flat", "ideal"):
                e.update(D=4, f=10)
            items.append(e)
    for i in range(s.int(30, 80) if s.bool(0.03) else 0):  # a crowd in the way
        items.insert(0, {"k": "ball", "pos": [500 + 3 * i, 0, 0], "D": 2, "index": 1.5} if i % 3 else {"k": "window", "pos": [0, 500 + i, 0], "n": [0, 0, 1]})
    # distinct indices, so the answer tells which element gave it
    for i, e in enumerate(items):
        if "index" in e:
            e["index"] = round(e["index"] + i * 0.1234567, 7)
    pts = []
    for _ in range(s.int(2, 6)):
        e = items[-1 - s.below(min(5, len(items)))]
        if e["k"] == "compound":
            pts.append(point_near(s, e["tree"], 8))
        else:
            r = e.get("D", 4) / 2
            pts.append(list(ref.add(ref.V(e["pos"]), ref.mul(ref.unit(ref.V(gen.direction(s))), r * (s.pick([0, .5, .9, .999, 1.001, 1.2]) if s.bool() else close_to_one(s))))))
    return {"items": items, "points": pts, "order": s.u16()}


def containing(e, p):
    if e["k"] == "ball":
        depth = e["D"] / 2 - ref.dist(p, ref.V(e["pos"]))
        if abs(depth) < 1e-9:
            raise Skip("on a surface within rounding")
        return depth > 0
    if e["k"] == "compound":
        clear_of(e["tree"], p)
        return ref.inside(e["tree"], p)
    return False


def o_lookup(c):
    n = len(c["items"])
    order = sorted(range(n), key=lambda i: (c["order"] * (i + 1) * 7919 + i * 31) % 104729)
    most = 0
    for o in (list(range(n)), order, list(reversed(range(n)))):
        specs = [c["items"][i] for i in o]
        optics = build.scene(specs)
        for p in c["points"]:
            p = ref.V(p)
            inside = [e for e in specs if containing(e, p)]
            want = inside[0]["index"] if inside else 1.0
            got = build.o3d.get_index_at_point(optics, build.arr(list(p)))
            require(got == want, "the index at %s is %r, expected %r (inside %d of %d elements)", p, got, want, len(inside), n)
            most = max(most, len(inside))
    require(build.o3d.get_index_at_point([], build.arr(c["points"][0])) == 1.0, "the index of an empty world")
    return ["nt", "inside %d at once" % most] if most else []


SUBS = [
    Sub("trees", lambda: gen.decoded(tree_case, 400), o_tree, quick=6000, shards=4, thorough=100000,
        rule="the tree has at least one operator; every point is decided"),
    Sub("lookup", lambda: gen.decoded(lookup_case, 400), o_lookup, quick=5000, shards=3, thorough=80000,
        rule="some point lies inside at least one element"),
]
