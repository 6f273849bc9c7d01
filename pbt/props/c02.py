"""C02: nearest element ahead, order independence, transparency, irrelevance of the rest."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of

RULE = "Scenes are decoded from drawn bytes: element chains placed in the ray's way, random boxes of elements, and cavities."


def trace(case, order=None):
    specs = case["scene"]
    order = order if order is not None else range(len(specs))
    optics = [build.element(specs[i]) for i in order]
    r = build.ray(case["ray"])
    build.run(r, case["distance"], optics)
    return r, optics


def o_reference(case):
    r, optics = trace(case)
    res = follow(case["scene"], case["ray"], case["distance"], r)
    tags = ["nt"] if res["n"] >= 1 else []
    if res["n"] >= 3:
        tags.append("3+ interactions")
    if res["n"] >= 30:
        tags.append("30+ interactions")
    tags += sorted("hit " + k for k in set(res["kinds"]))
    if not res["done"]:
        tags.append("stopped: " + res["why"])
    return tags


def clear(case, budget=300):
    """The reference can follow this case from its own state without ambiguity (so no ties)."""
    try:
        h, _ = ref.trace(case["scene"], case["ray"], case["distance"], budget)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    return h


def same_path(a, b, what, tol=1e-9):
    ha, hb = build.history(a), build.history(b)
    n = min(len(ha), len(hb))
    sc = scale_of(ha + hb)
    for k in range(n):
        require(ref.dist(ha[k], hb[k]) <= tol * sc, "%s: vertex %d is %s, was %s", what, k, hb[k], ha[k])
    require(len(ha) == len(hb), "%s: %d vertices, were %d", what, len(hb), len(ha))
    require(bool(a.blocked) == bool(b.blocked), "%s: blocked %s, was %s", what, b.blocked, a.blocked)
    require(ref.dist(build.direction(a), build.direction(b)) <= tol * 10, "%s: direction %s, was %s", what,
            b.direction, a.direction)


def o_permutation(case):
    case, keys = case["base"], case["keys"]
    n = len(case["scene"])
    if n < 2:
        raise Skip("one element")
    hits = clear(case)
    a, oa = trace(case)
    perm = sorted(range(n), key=lambda i: (keys * (i + 1) * 7919 + i * 104651) % 15485863)
    b, ob = trace(case, perm)
    same_path(a, b, "list order %s" % perm)
    c, oc = trace(case, list(reversed(range(n))))
    same_path(a, c, "reversed list")
    for i in range(n):
        if case["scene"][i]["k"] == "detector":
            ha, hb = build.hits(oa[i]), build.hits(ob[perm.index(i)])
            require(len(ha) == len(hb), "list order %s: detector %d has %d records, had %d", perm, i, len(hb), len(ha))
    return ["nt"] if any(x[2] is not None for x in hits) else []


def o_irrelevant(case):
    """Elements that the ray never touches, and transparent ones, can be left out."""
    case, drop = case["base"], case["drop"]
    hits = clear(case)
    a, _ = trace(case)
    touched = {x[2] for x in hits}
    removable = [i for i in range(len(case["scene"])) if i not in touched]
    if not removable:
        raise Skip("every element is touched")
    keep = [i for i in range(len(case["scene"])) if i in touched or (drop >> (i % 16)) & 1]
    b, _ = trace(case, keep)
    same_path(a, b, "without the untouched elements")
    return ["nt"] if len(touched - {None}) else []


def o_order_two(case):
    """Two overlapping in line: whichever is nearer along the ray acts, seen by who recorded it."""
    a, b = case["d1"], case["d2"]
    if abs(a - b) < 1e-3 or min(a, b) < 1e-3:
        raise Skip("tie")
    d = ref.unit(ref.V(case["dir"]))
    mk = lambda t: build.o3d.Detector(build.arr(list(ref.along(ref.V(case["pos"]), d, t))), build.arr(case["dir"]),
                                      build.tangent_arr({"n": case["dir"], "roll": case["roll"]}), w=4, h=4)
    A, B = mk(a), mk(b)
    r = build.ray({"pos": case["pos"], "dir": case["dir"]})
    build.run(r, case["distance"], [A, B] if case["swap"] else [B, A])
    near, far = (A, B) if a < b else (B, A)
    t = min(a, b)
    want = 1 if t < case["distance"] else 0
    if abs(t - case["distance"]) < 1e-6:
        raise Skip("at the distance limit")
    require(len(near.hit_data) == want and len(far.hit_data) == 0, "nearer screen %d records, farther %d, expected %d and 0",
            len(near.hit_data), len(far.hit_data), want)
    return ["nt"] if want else []


def o_limit(case):
    """In whole numbers a surface exactly at the remaining distance is within it."""
    a, t, off = case["axis"], case["t"], case["off"]
    d = gen.AXES[a]
    pos = [p + t * c for p, c in zip(case["pos"], d)]
    det = build.element({"k": "detector", "pos": pos, "n": d, "w": 6, "h": 6, "roll": 0})
    r = build.ray({"pos": case["pos"], "dir": d})
    build.run(r, t + off, [det])
    want = 1 if off >= 0 else 0
    require(len(build.hits(det)) == want and bool(r.blocked) == bool(want), "a screen at %r, with %r to go, has %d records and blocked is %s", t,
            t + off, len(det.hit_data), r.blocked)
    return ["nt"] if off == 0 else []


def limits(s):
    return {"axis": s.below(6), "t": s.int(1, 200), "off": s.pick([0, 0, 1, -1, 5]), "pos": [s.sint(100) for _ in range(3)]}


def screens(s):
    return {"pos": gen.big_vec(s), "dir": gen.direction(s), "d1": s.pos(1e-2, 500), "d2": s.pos(1e-2, 500),
            "distance": s.pos(1, 1000), "swap": s.bool(), "roll": gen.roll(s)}


def aimed_at(s, e):
    """A point on (or just beside) an element, and a direction through it, down to grazing."""
    c = ref.V(e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"])
    if "n" not in e or s.bool(0.35):  # in the plane across the ray
        d = ref.unit(ref.V(gen.direction(s)))
        size = e.get("D") or min(e.get("w", 2), e.get("h", 2)) if "tree" not in e else ref.leaves(e["tree"])[0]["R"]
        u = ref.any_perp(d)
        v = ref.cross(d, u)
        a = math.radians(s.lattice(0, 360, 10))
        q = s.lattice(0, 1) * 0.5 * size
        return ref.add(c, ref.add(ref.mul(u, q * math.cos(a)), ref.mul(v, q * math.sin(a)))), d
    n = ref.unit(ref.V(e["n"]))  # in the plane of the element
    rim = 1.0 + s.pick([-1, 1, -1]) * s.log(1e-7, 1e-1) if s.bool(0.4) else s.lattice(0, 1.2)
    if e["k"] in gen.RECTS:
        t = ref.tangent_of(e)
        other = s.weighted((2, lambda s: s.lattice(-1, 1)), (1, rim), (1, -rim))
        a, b = (rim, other) if s.bool() else (other, rim)
        x = ref.add(c, ref.add(ref.mul(t, s.pick([1, -1]) * a * e["h"] / 2), ref.mul(ref.cross(n, t), s.pick([1, -1]) * b * e["w"] / 2)))
    else:
        u = ref.any_perp(n)
        a = math.radians(s.lattice(0, 360, 10))
        x = ref.add(c, ref.mul(ref.add(ref.mul(u, math.cos(a)), ref.mul(ref.cross(n, u), math.sin(a))), rim * e.get("D", 2) / 2))
    steep = s.weighted((3, lambda s: s.lattice(0.02, 3)), (2, lambda s: s.log(5e-6, 0.1)), (1, 1e9))  # tan of the angle to the plane
    u = ref.any_perp(n)
    a = math.radians(s.lattice(0, 360, 10))
    side = ref.add(ref.mul(u, math.cos(a)), ref.mul(ref.cross(n, u), math.sin(a)))
    return x, ref.unit(ref.add(side, ref.mul(n, steep * s.pick([1, -1]))))


def shifted(e, v):
    if "tree" in e:
        return dict(e, tree=gen.shift_tree(e["tree"], v))
    return dict(e, pos=[a + b for a, b in zip(e["pos"], v)])


def contact_case(s):
    """A few elements, the launch point at any distance from tiny to huge in front of one of them;
    sometimes with a second one just before or behind it."""
    elements = [gen.element(s, 20, None, 30) for _ in range(s.int(1, 4))]
    k = s.below(len(elements))
    e = elements[k]
    x, d = aimed_at(s, e)
    p = ref.along(x, d, -s.num(5, 60))
    if s.bool(0.3):
        twin = shifted(e, list(ref.mul(d, s.pick([1, -1]) * s.log(1e-7, 1))))
        if s.bool(0.25):  # or another element about the same centre
            other = gen.element(s, 20, None, 30)
            if "pos" in other and "pos" in e:
                twin = dict(other, pos=list(e["pos"]))
        elements.insert(k + s.below(2), twin)
    ray = {"pos": list(p), "dir": list(d), "wavelength": gen.wavelength(s), "order": gen.order(s)}
    k = s.weighted((3, "near"), (2, "past"), (2, "far"), (1, "as is"))
    distance = s.weighted((2, lambda s: s.log(1, 1e3)), (2, lambda s: s.log(1e3, 1e12)), (1, lambda s: s.log(1e-4, 1)))
    tight = s.log(1e-7, 1e-1) * s.pick([1, -1]) if s.bool(0.25) else None
    try:
        h = ref.first_hit(elements, p, d, 1e6, 1e-9, 1e-9)
    except ref.Ambiguous:
        h = None
    if h is not None:
        off = s.log(1e-8, 1) if k == "near" else -s.log(1e-8, 1) if k == "past" else s.log(10, 1e4) if k == "far" else h[1]
        ray["pos"] = list(ref.along(p, d, h[1] - off))
        if tight is not None and off > 0:
            distance = off * (1 + tight)
    if s.bool(0.15):
        ray["probe"] = True
    if s.bool(0.05):
        ray["verbose"] = True
    return {"scene": elements, "ray": ray, "distance": distance}


def throng(base, n, k):
    """The elements of a scene spread among many that are far out of the way."""
    scene = []
    own = list(base["scene"])
    for i in range(n):
        while own and (i + k) % (1 + n // (1 + len(base["scene"]))) == 0 and len(scene) <= i + len(base["scene"]):
            scene.append(own.pop(0))
            break
        scene.append({"k": "flat", "pos": [9000 + 3.5 * i, -9000 + 7 * (i % 5), 9000 - i], "n": [0, 0.6, 0.8], "D": 2})
    return dict(base, scene=scene + own)


def o_contact(case):
    """The first interaction alone, decided with a much finer tolerance."""
    r = build.ray(case["ray"])
    optics = build.scene(case["scene"])
    build.run(r, case["distance"], optics, 1)
    p, d = ref.V(case["ray"]["pos"]), ref.unit(ref.V(case["ray"]["dir"]))
    sc = max(1.0, max(abs(c) for c in p))
    tol = 1e-10 * sc
    try:
        hit = ref.first_hit(case["scene"], p, d, case["distance"], tol, max(4e-9, 1e-11 * sc))
        if hit is not None and abs(ref.dot(d, hit[3])) < 5e-6:
            raise ref.Ambiguous("grazing hit")
    except ref.Ambiguous as a:
        raise Skip(str(a))
    h = build.history(r)
    require(len(h) == 2, "one interaction made %d flights", len(h) - 1)
    q = h[1]
    if hit is None:
        D = case["distance"]
        require(ref.dist(q, ref.along(p, d, D)) <= 1e-9 * (sc + D), "from %s along %s nothing is met within %r, the ray went to %s", p, d, D, q)
        require(not r.blocked, "a ray that met nothing is blocked")
        return ["free"]
    i, t, x, n, info = hit
    require(ref.dist(q, x) <= 1e-10 * sc + 1e-12 * (sc + t) / abs(ref.dot(d, n)), "from %s along %s the nearest surface is element %d (%s) at %s (distance %r), the ray went to %s",
            p, d, i, case["scene"][i]["k"], x, t, q)
    tags = ["nt", "hit " + case["scene"][i]["k"]]
    if t < 1e-3:
        tags.append("within a thousandth")
    if case["scene"][i]["k"] == "compound" and case["scene"][i]["behavior"] == "refract":
        return tags  # where the probe point lies is decided elsewhere
    try:
        nd, absorbed = ref.raw_act(case["scene"][i], p, d, x, n, info, case["ray"])
    except ref.Ambiguous:
        return tags
    require(bool(r.blocked) == absorbed, "blocked is %s after element %d (%s)", r.blocked, i, case["scene"][i]["k"])
    if nd is not None:
        require(ref.dist(build.direction(r), nd) <= 1e-5, "at %s element %d (%s) turns direction %s to %s, expected %s", q, i,
                case["scene"][i]["k"], d, r.direction, nd)
    return tags


def lead_case(s):
    """As contact_case, but the ray comes to its launch point over some small mirrors."""
    c = contact_case(s)
    c["ray"].pop("probe", None)
    p, d = ref.V(c["ray"]["pos"]), ref.unit(ref.V(c["ray"]["dir"]))
    lead = []
    for _ in range(s.weighted((4, lambda s: s.int(1, 5)), (1, lambda s: s.int(6, 30)))):
        u = ref.any_perp(d)
        v = ref.cross(d, u)
        a = math.radians(s.lattice(0, 360, 10))
        side = ref.add(ref.mul(u, math.cos(a)), ref.mul(v, math.sin(a)))
        w = ref.unit(ref.add(ref.mul(d, -1.0), ref.mul(side, s.num(0.2, 1.5))))  # where it came from
        lead.append({"k": "flat", "pos": list(p), "n": list(ref.unit(ref.add(w, d))), "D": s.pick([0.01, 0.1, 1.0])})
        p, d = ref.along(p, w, s.num(1, 30)), ref.mul(w, -1.0)
    scene = list(c["scene"])
    for m in lead:
        scene.insert(s.below(len(scene) + 1), m)
    c["ray"].update(pos=list(p), dir=list(d))
    return dict(c, scene=scene, lead=len(lead), distance=1e4)


def o_lead(case):
    k = case["lead"]
    r = build.ray(case["ray"])
    build.run(r, case["distance"], build.scene(case["scene"]), k)
    h = build.history(r)
    if r.blocked or len(h) != k + 1:
        raise Skip("the lead is interrupted")
    flown = sum(ref.dist(a, b) for a, b in zip(h, h[1:]))
    if flown > case["distance"] - 1e-3:
        raise Skip("the lead is interrupted")
    p, d = h[-1], build.direction(r)
    sc = max(1.0, max(abs(c) for q in h for c in q))
    tol = 1e-10 * sc
    try:
        hit = ref.first_hit(case["scene"], p, d, case["distance"] - flown, tol, max(4e-9, 1e-11 * sc))
        if hit is not None and abs(ref.dot(d, hit[3])) < 5e-6:
            raise ref.Ambiguous("grazing hit")
    except ref.Ambiguous as a:
        raise Skip(str(a))
    r = build.ray(case["ray"])
    build.run(r, case["distance"], build.scene(case["scene"]), k + 1)
    g = build.history(r)
    require(len(g) == k + 2 and g[:-1] == h, "with one more interaction allowed it went %s, before %s", g, h)
    q = g[-1]
    if hit is None:
        want = ref.along(p, d, case["distance"] - flown)
        require(ref.dist(q, want) <= 1e-9 * (sc + case["distance"]), "from %s along %s, after %d mirrors, nothing is met, the ray went to %s", p, d, k, q)
        return ["free"]
    i, t, x, n, info = hit
    require(ref.dist(q, x) <= 1e-10 * sc + 1e-12 * (sc + t) / abs(ref.dot(d, n)),
            "after %d mirrors, from %s along %s, the nearest surface is element %d (%s) at %s (distance %r), the ray went to %s",
            k, p, d, i, case["scene"][i]["k"], x, t, q)
    return ["nt", "after %s" % ("1 or 2" if k < 3 else "3 to 5" if k < 6 else "more")] + (["within a thousandth"] if t < 1e-3 else [])


def own_case(s):
    """A straight ray through flat elements of the user's own making."""
    d = ref.unit(ref.V(gen.direction(s)))
    p = ref.V(gen.vec(s, 100))
    t, els = 0.0, []
    for _ in range(s.int(1, 9)):
        t += s.num(0.01, 20)
        els.append({"kind": s.weighted((4, "optic"), (1, "block"), (2, "annotation"), (2, "filter"), (2, "window")),
                    "t": t, "off": s.weighted((5, 0.0), (1, 5.0)), "n": gen.tilt(d, s.lattice(-1, 1), s.lattice(-1, 1))})
    for i in range(len(els) - 1, 0, -1):
        j = s.below(i + 1)
        els[i], els[j] = els[j], els[i]
    return {"els": els, "ray": {"pos": list(p), "dir": list(d)}, "distance": round(t * s.lattice(0, 1.5) + 0.005, 4),
            "limit": s.weighted((3, None), (1, lambda s: s.int(0, 5)))}


def own_element(e, x, centre):
    O = build.o3d
    base = {"optic": O.Optic, "block": O.Block, "annotation": O.Annotation, "filter": O.Filter, "window": O.Window}[e["kind"]]
    disc = build.shapes.Circle(np.array(centre), np.array(e["n"]), R=2.0)

    class Own(base):
        def test_intersect(self, ray):
            hit, pt, n = disc.test_intersect(ray)
            return hit, pt, n, None
    return Own(np.array(centre), np.array(e["n"]), "circular_flat")


def o_own(case):
    p, d, D, limit = ref.V(case["ray"]["pos"]), ref.unit(ref.V(case["ray"]["dir"])), case["distance"], case["limit"]
    u = ref.any_perp(d)
    optics, met = [], []
    for e in case["els"]:
        x = ref.along(p, d, e["t"])
        optics.append(own_element(e, x, ref.along(x, u, e["off"])))
        if e["kind"] in ("optic", "block") and not e["off"] and e["t"] <= D:
            if abs(e["t"] - D) < 1e-6:
                raise Skip("the distance ends on an element")
            met.append((e["t"], e["kind"]))
    met.sort()
    want, stopped = [p], False
    for t, kind in met:
        if limit is not None and len(want) > limit:
            break
        want.append(ref.along(p, d, t))
        if kind == "block":
            stopped = True
            break
    if not stopped and (limit is None or len(want) <= limit):
        want.append(ref.along(p, d, D))
    r = build.ray(case["ray"])
    build.run(r, D, optics, limit)
    h = build.history(r)
    require(len(h) == len(want) and all(ref.dist(a, b) < 1e-9 * scale_of(want) for a, b in zip(h, want)),
            "the path through %s is %s, expected %s", [e["kind"] for e in case["els"]], h, want)
    require(bool(r.blocked) == stopped, "blocked is %s", r.blocked)
    require(ref.dist(build.direction(r), d) < 1e-12, "the direction became %s", r.direction)
    return (["nt"] if met else []) + (["stopped by a block"] if stopped else [])


def with_key(base, name, hi):
    return st.builds(lambda b, k: {"base": b, name: k}, base, st.integers(1, hi))


SUBS = [
    Sub("reference", lambda: gen.sized(gen.any_scene()), o_reference, quick=5000, shards=4, thorough=80000,
        rule="at least one interaction followed against the reference tracer"),
    Sub("permutation", lambda: with_key(st.one_of(gen.chain(7, min_items=2), gen.box(10, min_items=2)), "keys", 10 ** 6),
        o_permutation, quick=1800, shards=2, thorough=30000, rule="at least one interaction, two or more elements"),
    Sub("irrelevant", lambda: with_key(st.one_of(gen.chain(5, extra=6), gen.box(10)), "drop", 65535), o_irrelevant,
        quick=1200, shards=1, thorough=20000, rule="at least one interaction and one untouched element left out"),
    Sub("first_contact", lambda: gen.decoded(contact_case, 500), o_contact, quick=7000, shards=2, thorough=80000,
        rule="something is met, by a ray launched a ten-millionth to ten thousand units away from it"),
    Sub("lead", lambda: gen.decoded(lead_case, 900), o_lead, quick=2000, shards=2, thorough=40000,
        rule="after one to thirty bounces something is met, a ten-millionth to ten thousand units from the last mirror"),
    Sub("crowd", lambda: st.one_of(gen.box(30, min_items=18), st.builds(throng, st.one_of(gen.chain(4), gen.box(6)), st.integers(20, 140), st.integers(0, 1000))),
        o_reference, quick=800, shards=2, thorough=8000, rule="at least one interaction among 18 to 140 elements followed against the reference tracer"),
    Sub("own_elements", lambda: gen.decoded(own_case, 200), o_own, quick=800, shards=1, thorough=20000,
        rule="at least one element of the user's own (derived from Optic or Block) in the way"),
    Sub("limit", lambda: gen.decoded(limits, 40), o_limit, quick=400, shards=1, thorough=4000,
        rule="a screen exactly at the distance allowed"),
    Sub("two_screens", lambda: gen.decoded(screens, 60), o_order_two, quick=1000, shards=1, thorough=20000,
        rule="the nearer screen is within reach"),
]
