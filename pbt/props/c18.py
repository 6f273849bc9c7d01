"""C18: ray sources produce the documented bundles and probe rays stop at first contact."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow
from .c05 import snapshot, differences

RULE = "Every argument of the sources is drawn; probe rays run over generated scenes."


def image_case(s):
    c = {"y_center": s.weighted((1, 0), (3, lambda s: s.num(-500, 500))), "x_res": s.int(1, 7), "z_res": s.int(1, 7), "angle_res": s.int(1, 6)}
    if s.bool(0.05):  # one fine scan
        c[s.pick(["x_res", "z_res", "angle_res"])] = s.weighted((3, lambda s: s.int(8, 120)), (1, lambda s: s.int(120, 600)))
    if s.bool(0.9):
        c["size"] = s.pos(0.1, 100)
    if s.bool(0.9):
        c["angle"] = s.weighted((4, lambda s: s.lattice(0, 1.5)), (1, lambda s: s.lattice(-1.5, 0)), (1, lambda s: s.lattice(1.5, 3.1)))
    if s.bool(0.9):
        c["pattern_d"] = s.pos(0.05, 150)
    for k in ("x_res", "z_res", "angle_res"):
        if s.bool(0.04):
            c[k] = s.pick([0, -1, -5])
        elif s.bool(0.04):
            del c[k]
    return c


def axis(n, half):
    return [0.0] if n == 1 else [half * (2 * i / (n - 1) - 1) for i in range(n)]


def o_image(c):
    kw = {k: v for k, v in c.items() if k != "y_center"}
    xr, zr, ar = c.get("x_res", 11), c.get("z_res", 11), c.get("angle_res", 3)
    size, angle, pd = c.get("size", 10), c.get("angle", 0.2), c.get("pattern_d", 5)
    if min(xr, zr, ar) < 1:
        try:
            build.go.image_rays(c["y_center"], **kw)
        except ValueError:
            return ["nt", "rejected"]
        require(False, "resolutions %r %r %r were accepted", xr, zr, ar)
    res = build.go.image_rays(c["y_center"], **kw)
    require(len(res) == 3, "image_rays returned %d things", len(res))
    origins, dirs, waves = res
    n = xr * zr * ar
    require(len(origins) == len(dirs) == len(waves) == n, "%d origins, %d directions, %d wavelengths; expected %d each", len(origins), len(dirs), len(waves), n)
    xs, zs, an = axis(xr, size / 2), axis(zr, size / 2), axis(ar, angle)
    seen = set()

    def find(vals, v, what):
        k = min(range(len(vals)), key=lambda i: abs(vals[i] - v))
        require(abs(vals[k] - v) <= 1e-9 * (1 + abs(v)), "%s %r is not one of %s", what, v, vals)
        return k
    for o, d, w in zip(origins, dirs, waves):
        o, d = build.vec(o, "origin"), build.vec(d, "direction")
        require(abs(o[1] - c["y_center"]) <= 1e-9 * (1 + abs(o[1])), "origin %s is not at distance %r", o, c["y_center"])
        require(abs(ref.norm(d) - 1) < 1e-12, "direction of length %r", ref.norm(d))
        require(abs(d[0]) < 1e-12, "direction %s leaves the fan plane", d)
        i, j = find(xs, o[0], "x"), find(zs, o[2], "z")
        k = find(an, math.atan2(d[2], d[1]), "angle") if angle else None
        seen.add((i, j, k))
        r2 = o[0] ** 2 + o[2] ** 2
        lim = pd * pd / 4
        if abs(r2 - lim) > 1e-9 * (1 + lim):
            want = 680.0 if r2 < lim else 450.0
            require(w == want, "a point %s %s the central disc has wavelength %r", o, "inside" if r2 < lim else "outside", w)
        elif r2 == lim and o[0] == round(o[0]) and o[2] == round(o[2]):  # a disc has its edge
            require(w == 680.0, "a point %s on the edge of the central disc has wavelength %r", o, w)
        else:
            require(w in (680.0, 450.0), "wavelength %r", w)
    if angle:
        require(len(seen) == n, "%d different rays out of %d: some grid points or angles are missing", len(seen), n)
    else:
        require(len(seen) == xr * zr, "%d different points out of %d", len(seen), xr * zr)
    # every one of them makes a ray
    r = build.o3d.Ray(origins[-1], dirs[-1], waves[-1])
    r.run(5.0)
    return ["nt"] if n > 1 else []


def faerie_case(s):
    c = gen.big_vec(s)
    if s.bool(0.1):
        return {"n": s.int(0, 40), "R": s.log(1e-6, 1e-2) * max([1.0] + [abs(x) for x in c]), "c": c, "seed": s.u24(), "before": s.int(0, 4), "kw": s.bool()}
    return {"n": s.weighted((6, lambda s: s.int(0, 40)), (1, lambda s: s.int(100, 300)), (0.25, lambda s: s.int(4000, 14000))), "R": s.weighted((8, lambda s: s.pos(1e-2, 2000)), (1, lambda s: s.log(2000, 1e6))), "c": c, "seed": s.u24(),
            "before": s.int(0, 4), "kw": s.bool()}


def o_faerie(c):
    np.random.seed(c["seed"])
    lst = [build.ray({"pos": [0, 0, k], "dir": [0, 0, 1]}) for k in range(c["before"])]
    for k in range(c["before"]):
        if k % 2:
            lst[k].blocked = True
    if c["before"] > 2:
        lst[-1] = lst[0]  # the same ray twice
    first = list(lst)
    cen = build.arr(c["c"])
    keep = cen.copy()
    out = build.o3d.add_faerie_fire_rays(lst, c["R"], cen, N=c["n"])
    require(np.array_equal(cen, keep), "the centre was changed to %s", cen)
    for l in (out, lst):  # returned, and appended in place
        require(len(l) == c["before"] + c["n"], "the list has %d rays, expected %d", len(l), c["before"] + c["n"])
        require(all(a is b for a, b in zip(l, first)), "the rays already in the list were replaced")
    sc = c["R"] + max(abs(x) for x in c["c"])
    pts = []
    for r in out[c["before"]:]:
        p, d = build.vec(r.position), build.direction(r)
        v = ref.sub(p, ref.V(c["c"]))
        require(abs(ref.norm(v) - c["R"]) <= 1e-12 * sc, "a probe ray starts %r from the centre, the radius is %r", ref.norm(v), c["R"])
        require(abs(ref.norm(d) - 1) < 1e-12, "direction of length %r", ref.norm(d))
        q = ref.along(p, d, c["R"])
        require(ref.dist(q, ref.V(c["c"])) <= 1e-12 * sc * 10 + 1e-12 * c["R"], "a probe ray aimed from %s along %s misses the centre %s", p, d, c["c"])
        h = build.history(r)
        require(len(h) == 1 and h[0] == p, "a new probe ray has the history %s", h)
        require(not r.blocked and r.type == "faerie_fire", "a new probe ray is %s, blocked %s", r.type, r.blocked)
        pts.append(p)
    if c["n"] > 1:
        require(len(set(pts)) == c["n"], "probe rays start at the same points: %d different of %d", len(set(pts)), c["n"])
    m = min(c["n"], 20)
    again = [build.vec(r.position) for r in build.o3d.add_faerie_fire_rays([], c["R"], cen, N=m)]
    require(not set(again) & set(pts), "asked again, the source repeats its rays: %s", sorted(set(again) & set(pts))[:3])
    if c["n"] >= 60:  # all over the sphere: every octant has probability 1/8
        oct_ = {tuple(x > y for x, y in zip(p, c["c"])) for p in pts}
        require(len(oct_) >= 6, "%d probe rays cover only %d octants", c["n"], len(oct_))
    return ["nt"] if c["n"] >= 2 else []


def o_probe(case):
    optics = build.scene(case["scene"])
    before = [snapshot(o) for o in optics]
    # ordinary rays first, so that detectors have records to lose
    plain = build.ray({k: v for k, v in case["ray"].items() if k != "probe"})
    build.run(plain, case["distance"], optics)
    for e, o in zip(case["scene"], optics):
        if e["k"] == "detector":
            build.run(build.ray({"pos": list(ref.along(ref.V(e["pos"]), ref.unit(ref.V(e["n"])), 1.0)), "dir": [-x for x in e["n"]]}), 2.0, [o])
    records = [build.hits(o) if e["k"] == "detector" else None for e, o in zip(case["scene"], optics)]
    r = build.ray(case["ray"])
    d = build.direction(r)
    build.run(r, case["distance"], optics)
    require(ref.dist(build.direction(r), d) < 1e-12, "a probe ray was turned from %s to %s", d, r.direction)
    res = follow(case["scene"], case["ray"], case["distance"], r)
    require(len(build.history(r)) == (2 if case["distance"] > 0 else 1), "a probe ray made %d flights", len(build.history(r)) - 1)
    for e, o, b, rec in zip(case["scene"], optics, before, records):
        if e["k"] == "detector":
            require(build.hits(o) == rec, "a probe ray changed a detector's records from %s to %s", rec, o.hit_data)
        diff = differences(b, snapshot(o))
        require(not diff, "a probe ray changed a %s: %s", e["k"], diff)
    h = build.history(r)
    stopped = bool(r.blocked)
    build.run(r, 50.0, optics)
    if stopped:
        require(len(build.history(r)) == len(h), "a stopped probe ray moved on")
    return ["nt"] if res["n"] == 1 else []


def o_survey(case):
    """A probe bundle around a scene, as used to make its surfaces visible: each ray stops at the first surface."""
    optics = build.scene(case["scene"])
    np.random.seed(case["seed"])
    rays = build.o3d.add_faerie_fire_rays([], case["R"], build.arr(case["c"]), N=case["n"])
    n = 0
    for r in rays:
        p, d = build.vec(r.position), build.direction(r)
        spec = {"pos": list(p), "dir": list(d), "probe": True, "wavelength": 532}
        r.run(max_distance=2 * case["R"], optic_list=optics)
        n += follow(case["scene"], spec, 2 * case["R"], r)["n"]
    return ["nt"] if n else []


def survey_case(s):
    scene = [gen.element(s, 10, ["ball", "compound", "flat", "detector", "convex", "ideal", "concave", "grating", "rect", "window"], 20) for _ in range(s.int(1, 4))]
    return {"scene": scene, "R": s.num(40, 200), "c": gen.vec(s, 5), "n": s.int(5, 30), "seed": s.u24()}


SUBS = [
    Sub("image_rays", lambda: gen.decoded(image_case, 60), o_image, quick=4000, shards=3, thorough=60000,
        rule="more than one ray, or a rejected resolution"),
    Sub("faerie_fire", lambda: gen.decoded(faerie_case, 50), o_faerie, quick=1500, shards=2, thorough=20000, rule="two or more rays added"),
    Sub("probe", lambda: st.one_of(gen.chain(4, probe=True), gen.box(6, probe=True)), o_probe, quick=3000, shards=2, thorough=50000,
        rule="the probe ray meets something"),
    Sub("survey", lambda: gen.decoded(survey_case, 500), o_survey, quick=600, shards=1, thorough=10000, rule="some probe ray meets something"),
]
