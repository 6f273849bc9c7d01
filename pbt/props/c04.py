"""C04: rigid motion and scale equivariance of tracing, one interaction at a time and whole paths."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of
from ..gen import map_element
from .c02 import contact_case
from .c03 import tolerances, clear_distances, records

RULE = "Scenes as for C01/C02, each transformed by a drawn rotation and translation, or scale factor."


def transform(m):
    """-> (point map, vector map, scale)"""
    if "scale" in m:
        s = m["scale"]
        return (lambda p: ref.mul(ref.V(p), s)), (lambda v: ref.V(v)), s
    M = ref.rotation(ref.V(m["axis"]), m["angle"])
    if m.get("exact"):  # quarter and half turns about a coordinate axis, without rounding
        M = tuple(tuple(float(round(x)) for x in row) for row in M)
    if m.get("mirror"):  # the scene in a mirror
        M = tuple((-row[0],) + tuple(row[1:]) for row in M)
    T = ref.V(m["shift"])
    return (lambda p: ref.add(ref.mat_vec(M, ref.V(p)), T)), (lambda v: ref.mat_vec(M, ref.V(v))), 1.0


def clear_there(base, pt, vc, s):
    """The moved scene is decided too: its coordinates may be much larger, and rounding with them."""
    there = {"scene": [map_element(e, pt, vc, s) for e in base["scene"]], "distance": base["distance"] * s,
             "ray": dict(base["ray"], pos=list(pt(base["ray"]["pos"])), dir=list(vc(ref.V(base["ray"]["dir"]))))}
    try:
        ref.trace(there["scene"], there["ray"], there["distance"], 60, 1e-6 * min(1.0, s))
    except ref.Ambiguous as a:
        raise Skip("moved: " + str(a))


def o_step(case):
    """Every step of the real path, re-launched in the moved scene, is the moved step."""
    base, m = case["base"], case["move"]
    pt, vc, s = transform(m)
    try:
        rh, _ = ref.trace(base["scene"], base["ray"], base["distance"], 60)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    for (p, d, _), (q, _, i) in zip(rh, rh[1:]):  # no grazing hits, where rounding is amplified
        if i is not None:
            h = ref.element_hit(base["scene"][i], p, d, 1e-6, 1e-6)
            if h is None or abs(ref.dot(d, h[2])) < 1e-3:
                raise Skip("grazing hit")
            if ref.dist(p, q) * min(1.0, s) < 1e-7 or ref.dist(p, q) < 1e-4:
                raise Skip("very short flight")
    clear_there(base, pt, vc, s)
    optics = build.scene(base["scene"])
    moved = build.scene([map_element(e, pt, vc, s) for e in base["scene"]])
    r = build.ray(base["ray"])
    left = base["distance"]
    n, kinds = 0, set()
    while left > 1e-6 and not r.blocked and n < 40:
        p, d = build.vec(r.position), build.direction(r)
        before = len(r.point_history)
        build.run(r, left, optics, 1)
        q, e = build.vec(r.position), build.direction(r)
        require(len(r.point_history) == before + 1, "one step made %d flights", len(r.point_history) - before)
        mr = build.ray(dict(base["ray"], pos=list(pt(p)), dir=list(vc(d))))
        build.run(mr, left * s, moved, 1)
        mq, me = build.vec(mr.position), build.direction(mr)
        want, wd = pt(q), vc(e)
        sc = max([1.0] + [abs(c) / min(1.0, s) for c in want + pt(p) + q + p])
        require(ref.dist(mq, want) <= 1e-6 * s * sc + 1e-9, "step %d: moved scene gives vertex %s, moving the vertex gives %s",
                n, mq, want)
        require(ref.dist(me, wd) <= 1e-5 * max(1.0, sc / 100), "step %d: moved scene gives direction %s, moving the direction gives %s", n, me, wd)
        require(bool(mr.blocked) == bool(r.blocked), "step %d: blocked %s in the moved scene, %s in the original", n, mr.blocked,
                r.blocked)
        left -= ref.dist(p, q)
        n += 1
    a, b = records(optics, base["scene"]), records(moved, base["scene"])
    for i, (x, y) in enumerate(zip(a, b)):
        if x is None:
            continue
        require(len(x) == len(y), "detector %d: %d records in the moved scene, %d in the original", i, len(y), len(x))
        for u, v in zip(x, y):
            w = pt(u[:3])
            require(ref.dist(w, v[:3]) <= 1e-6 * s * scale_of([w, u[:3]]) / min(1.0, s) + 1e-9 and u[3] == v[3],
                    "detector %d: record %s in the moved scene, %s in the original", i, v, u)
    return (["nt"] if n >= 2 else []) + (["5+ steps"] if n >= 5 else [])


def o_path(case):
    base, m = case["base"], case["move"]
    pt, vc, s = transform(m)
    clear_distances(base, 60)
    clear_there(base, pt, vc, s)
    r, optics = build.ray(base["ray"]), build.scene(base["scene"])
    build.run(r, base["distance"], optics)
    h = build.history(r)
    if not r.blocked and ref.gap_to_surfaces(base["scene"], h[-1]) * min(1.0, s) < 1e-8 * scale_of(h):
        raise Skip("ends on a surface")
    tol = tolerances(base, h)
    spec = dict(base["ray"], pos=list(pt(base["ray"]["pos"])), dir=list(vc(base["ray"]["dir"])))
    mr, moved = build.ray(spec), build.scene([map_element(e, pt, vc, s) for e in base["scene"]])
    build.run(mr, base["distance"] * s, moved)
    g = build.history(mr)
    sc = max(scale_of(g) / min(1.0, s), scale_of(h))
    for k, (t, a, b) in enumerate(zip(tol, h, g)):
        require(ref.dist(pt(a), b) <= s * (1e-8 * sc + 30 * t), "vertex %d is %s in the moved scene, moving it gives %s", k, b, pt(a))
    if len(tol) == len(h):
        require(len(g) == len(h), "%d vertices in the moved scene, %d in the original", len(g), len(h))
        require(bool(mr.blocked) == bool(r.blocked), "blocked %s in the moved scene, %s in the original", mr.blocked, r.blocked)
    return ["nt"] if min(len(tol), len(h)) >= 3 else []


def o_contact(case):
    """The first interaction, of rays launched close to surfaces, at their rims, or nearly along them."""
    base, m = case["base"], case["move"]
    pt, vc, s = transform(m)
    p, d = ref.V(base["ray"]["pos"]), ref.unit(ref.V(base["ray"]["dir"]))
    mp = pt(p)
    D = base["distance"]
    if D > 1e6:
        raise Skip("very long")
    big = max([1.0] + [abs(c) for c in p] + [abs(c) / s for c in mp])
    there = [map_element(e, pt, vc, s) for e in base["scene"]]
    tol = max(1e-10, 1e-11 / s) * big
    try:
        hit = ref.first_hit(base["scene"], p, d, D, tol, max(4e-9, 1e-11 * big))
        hit2 = ref.first_hit(there, mp, ref.unit(vc(d)), D * s, tol * s, max(4e-9, 1e-11 * big * s))
        if hit is not None and abs(ref.dot(d, hit[3])) < 5e-6:
            raise ref.Ambiguous("grazing hit")
        if (hit and hit[0]) != (hit2 and hit2[0]):
            raise ref.Ambiguous("starts next to a surface")
        if hit is not None:
            if abs(hit[1] * s - hit2[1]) > 1e-7 * s * (big + D):
                raise ref.Ambiguous("starts next to a surface")
            ref.raw_act(base["scene"][hit[0]], p, d, hit[2], hit[3], hit[4], base["ray"])
    except ref.Ambiguous as a:
        raise Skip(str(a))
    if hit is not None and base["scene"][hit[0]]["k"] == "compound" and base["scene"][hit[0]]["behavior"] == "refract":
        raise Skip("refracting compound")
    a, oa = build.ray(base["ray"]), build.scene(base["scene"])
    b = build.ray(dict(base["ray"], pos=list(mp), dir=list(vc(d))))
    ob = build.scene(there)
    build.run(a, D, oa, 1)
    build.run(b, D * s, ob, 1)
    q, want = build.vec(b.position), pt(build.vec(a.position))
    require(len(a.point_history) == len(b.point_history), "%d vertices in the moved scene, %d in the original", len(b.point_history), len(a.point_history))
    require(ref.dist(q, want) <= 1e-8 * s * (big + D), "the first vertex is %s in the moved scene, moving it gives %s", q, want)
    require(bool(a.blocked) == bool(b.blocked), "blocked %s in the moved scene, %s in the original", b.blocked, a.blocked)
    require(ref.dist(build.direction(b), vc(build.direction(a))) <= 1e-5, "direction %s in the moved scene, moving it gives %s", b.direction,
            vc(build.direction(a)))
    return ["nt", "hit " + base["scene"][hit[0]]["k"]] if hit is not None else ["free"]


def motion(s):
    m = proper(s)
    if s.bool(0.25):
        m["mirror"] = True
    return m


def proper(s):
    k = s.weighted((4, "rot"), (2, "quarter"), (2, "shift"), (1, "flip"))
    lim = s.pick([50, 50, 500])
    if k == "rot":
        return {"axis": gen.direction(s), "angle": s.lattice(-3.2, 3.2), "shift": gen.vec(s, lim)}
    if k == "quarter":
        return {"axis": s.pick(gen.AXES), "angle": s.int(1, 3) * math.pi / 2, "exact": True, "shift": gen.vec(s, lim)}
    if k == "flip":
        return {"axis": s.pick(gen.AXES), "angle": math.pi, "exact": True, "shift": [0, 0, 0]}
    return {"axis": [0, 0, 1], "angle": 0.0, "exact": True, "shift": gen.vec(s, lim)}


def factor(s):
    return {"scale": s.weighted((3, lambda s: s.log(1e-4, 1e3)), (1, lambda s: s.pick([2.0, 0.5, 10.0, 0.1, 1e-3, 1e3, 1e-4])))}


def moved(mv):
    sc = st.one_of(gen.chain(6), gen.chain(6), gen.box(6))
    return st.builds(lambda b, m: {"base": b, "move": m}, sc, gen.decoded(mv, 50))


SUBS = [
    Sub("rigid_step", lambda: moved(motion), o_step, quick=5600, shards=4, thorough=50000, rule="two or more steps compared"),
    Sub("scale_step", lambda: moved(factor), o_step, quick=4400, shards=3, thorough=40000, rule="two or more steps compared"),
    Sub("contact", lambda: st.builds(lambda b, m: {"base": b, "move": m}, gen.decoded(contact_case, 500), gen.decoded(lambda s: factor(s) if s.bool() else motion(s), 60)),
        o_contact, quick=5000, shards=2, thorough=60000, rule="something is met by a ray launched close to it, at its rim or nearly along it"),
    Sub("rigid_path", lambda: moved(motion), o_path, quick=3600, shards=3, thorough=30000, rule="two or more flights compared"),
    Sub("scale_path", lambda: moved(factor), o_path, quick=2200, shards=2, thorough=20000, rule="two or more flights compared"),
]
