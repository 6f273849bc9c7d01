"""C03: several runs equal one run; interaction-limited stepping equals an unlimited run; blocked rays stay put."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Scenes as for C01/C02; splits and step limits are drawn with them."


def launch(case, shift=0.0):
    spec = case["ray"]
    if shift:
        d = ref.unit(ref.V(spec["dir"]))
        u = ref.any_perp(d)
        v = ref.cross(d, u)
        sc = max(1.0, max(abs(c) for c in spec["pos"]))
        spec = dict(spec, pos=list(ref.add(ref.V(spec["pos"]), ref.mul(u, shift * sc))),
                    dir=list(ref.add(d, ref.mul(v, shift))))
    return build.ray(spec), build.scene(case["scene"])


def tolerances(case, h):
    """How far rounding may carry each vertex: measured by nudging the launch by 1e-9."""
    r, optics = launch(case, 1e-9)
    build.run(r, case["distance"], optics)
    g = build.history(r)
    sc = scale_of(h)
    out = []
    for k in range(len(h)):
        if k >= len(g):
            break
        delta = ref.dist(h[k], g[k])
        if delta > 1e-3 * sc:
            break
        out.append(1e-9 * sc + delta)
    return out  # vertices beyond the end of this list are not comparable


def clear_distances(case, steps=300):
    """Cumulative distances of the interactions as the reference sees them (no ties, no edges)."""
    try:
        h, absorbed = ref.trace(case["scene"], case["ray"], case["distance"], steps)
    except ref.Ambiguous as a:
        raise Skip(str(a))
    cum, out = 0.0, []
    for a, b in zip(h, h[1:]):
        cum += ref.dist(a[0], b[0])
        if b[2] is not None:
            out.append(cum)
    return out, absorbed


def records(optics, scene):
    return [build.hits(o) if e["k"] == "detector" else None for o, e in zip(optics, scene)]


def same_records(a, b, tol, what):
    for i, (x, y) in enumerate(zip(a, b)):
        if x is None:
            continue
        require(len(x) == len(y), "%s: detector %d has %d records, one run gives %d", what, i, len(y), len(x))
        for u, v in zip(x, y):
            require(ref.dist(u[:3], v[:3]) <= tol and u[3] == v[3], "%s: detector %d record %s, one run gives %s", what, i, v, u)


def o_split(case):
    base, cuts = case["base"], case["cuts"]
    D = base["distance"]
    cum, absorbed = clear_distances(base)
    pts = sorted({round(c * D, 9) for c in cuts if 0 < c < 1})
    for c in pts:
        if any(abs(c - x) < 1e-5 * (1 + x) for x in cum):
            raise Skip("a split on a surface")
    parts = [b - a for a, b in zip([0.0] + pts, pts + [D])]
    if any(x < 1e-6 for x in parts):
        raise Skip("empty part")
    one, o1 = launch(base)
    build.run(one, D, o1)
    h = build.history(one)
    tol = tolerances(base, h)
    if len(tol) < len(h):
        raise Skip("too sensitive to rounding")
    if any(abs(c - x) < 20 * max(tol) for c in pts for x in cum + [D]):
        raise Skip("a split next to a vertex, for the rounding here")
    many, o2 = launch(base)
    for x in parts:
        build.run(many, x, o2)
    g = build.history(many)
    sc = scale_of(h)
    # every vertex of the single run appears in order; the rest lie on its segments
    k = 0
    for q in g:
        if k < len(h) and ref.dist(q, h[k]) <= tol[k] * 10:
            k += 1
            continue
        require(0 < k < len(h), "split run goes to %s, off the single run's path", q)
        a, b = h[k - 1], h[k]
        seg = ref.unit(ref.sub(b, a))
        t = ref.dot(ref.sub(q, a), seg)
        off = ref.dist(q, ref.along(a, seg, t))
        require(off <= 10 * (tol[k] + tol[k - 1]) + 1e-8 * sc and -tol[k] <= t <= ref.dist(a, b) + tol[k],
                "split at %s: the split run goes to %s, off the single run's path from %s to %s", pts, q, a, b)
    require(k == len(h), "split at %s: the split run misses the single run's vertex %s", pts, h[k] if k < len(h) else None)
    require(bool(many.blocked) == bool(one.blocked), "blocked %s, one run gives %s", many.blocked, one.blocked)
    require(ref.dist(build.direction(many), build.direction(one)) <= 1e-6 + 100 * tol[-1] / sc, "direction %s, one run gives %s",
            many.direction, one.direction)
    require(ref.dist(build.vec(many.position), build.vec(one.position)) <= 10 * tol[-1], "position %s, one run gives %s",
            many.position, one.position)
    same_records(records(o1, base["scene"]), records(o2, base["scene"]), 10 * tol[-1], "split at %s" % pts)
    tags = []
    if cum and pts:
        tags.append("nt")
        if any(x > pts[0] for x in cum):
            tags.append("interaction after a split")
    return tags


def o_steps(case):
    base, limits = case["base"], case["limits"]
    clear_distances(base)
    D = base["distance"]
    one, o1 = launch(base)
    build.run(one, D, o1)
    h = build.history(one)
    tol = tolerances(base, h)
    if len(tol) < len(h):
        raise Skip("too sensitive to rounding")
    step, o2 = launch(base)
    left, i, runs = D, 0, 0
    while left > 1e-9 * (1 + D) and not step.blocked:
        n0 = len(step.point_history)
        lim = limits[i % len(limits)]
        i += 1
        build.run(step, left, o2, lim)
        g = build.history(step)
        new = len(g) - n0
        require(new <= lim, "a run limited to %d interactions made %d flights", lim, new)
        if lim:
            require(new >= 1, "a run limited to %d interactions with %r to go did not move", lim, left)
        left -= math.fsum(ref.dist(a, b) for a, b in zip(g[n0 - 1:], g[n0:]))
        runs += 1
        if runs > 2000:
            raise Skip("very many runs")
    g = build.history(step)
    for k, (a, b) in enumerate(zip(h, g)):
        require(ref.dist(a, b) <= 10 * tol[k], "stepping: vertex %d is %s, one run gives %s", k, b, a)
    require(len(g) == len(h), "stepping gives %d vertices, one run %d", len(g), len(h))
    require(bool(step.blocked) == bool(one.blocked), "blocked %s, one run gives %s", step.blocked, one.blocked)
    require(ref.dist(build.direction(step), build.direction(one)) <= 1e-6 + 100 * tol[-1] / scale_of(h),
            "direction %s, one run gives %s", step.direction, one.direction)
    same_records(records(o1, base["scene"]), records(o2, base["scene"]), 10 * tol[-1], "stepping")
    return ["nt"] if runs >= 3 and len(h) >= 3 else []


def o_blocked(case):
    base, again = case["base"], case["again"]
    r, optics = launch(base)
    build.run(r, base["distance"], optics)
    if not r.blocked:
        raise Skip("not absorbed")
    h, d, rec = build.history(r), build.direction(r), records(optics, base["scene"])
    others = build.scene(base["scene"])
    for x, lim, fresh in again:
        build.run(r, x, others if fresh else optics, lim)
        require(build.history(r) == h, "a blocked ray moved to %s", r.position)
        require(build.direction(r) == d and r.blocked, "a blocked ray turned or came free")
        require(records(optics, base["scene"]) == rec, "a blocked ray was recorded again")
        require(all(not x for x in records(others, base["scene"])), "a blocked ray was recorded elsewhere")
    return ["nt"] if again else []


def exact_case(s):
    """Everything on a line along a coordinate axis, in whole numbers, so that distances are free of
    rounding and a run can end exactly on a surface."""
    a, sign = s.below(3), s.pick([1, -1])
    axis = [0, 0, 0]
    axis[a] = sign
    p = [s.sint(40) for _ in range(3)]
    scene, at = [], set()
    for _ in range(s.int(1, 4)):
        kind = s.pick(["flat", "rect", "detector", "ideal", "focus", "grating", "flat"])
        z = s.int(-30, 30)
        if z == 0 or z in at:
            continue
        at.add(z)
        pos = list(p)
        pos[a] += z
        flip = s.pick([1, -1])
        n = [flip * c for c in axis]
        e = {"k": kind, "pos": pos, "n": n}
        if kind in gen.RECTS:
            e.update(w=s.int(4, 30), h=s.int(4, 30), roll=s.pick([0, 90, 180, 270]))
            for k in range(3):
                if k != a:
                    e["pos"][k] += s.sint(1)
        else:
            e["D"] = s.int(4, 30)
            if kind in ("ideal", "focus"):
                e["f"] = s.int(1, 50)
        if kind == "grating":
            e["G"] = 600
        scene.append(e)
    D = s.int(1, 160)
    whole = {c for c in (s.below(D + 1) for _ in range(s.int(1, 6))) if 0 < c < D}
    marks = sorted({abs(z) for z in at})
    for z in marks:  # often exactly at the elements
        if s.bool(0.6) and 0 < z < D:
            whole.add(z)
    if s.bool(0.3) and marks:
        D = marks[-1]
    hairs = [z + s.pick([-1, -1, 1]) * s.log(4e-9, 1e-3) for z in marks if s.bool(0.3) and 0 < z < D]
    if hairs and s.bool(0.5):  # or by a hair short of them, or past them; then never exactly on one again, as distances are rounded now
        whole = {c + 0.37 if c > min(hairs) else c for c in whole} | set(hairs)
        whole = {c for c in whole if all(c in hairs or abs(c - z) > 1e-2 for z in marks)}
        D += 0.37
    return {"scene": scene, "ray": {"pos": p, "dir": axis, "wavelength": 532, "order": 0}, "distance": D,
            "cuts": sorted(c for c in whole if 0 < c < D), "limit": s.pick([None, None, 1, 2])}


def o_exact(case):
    D, cuts = case["distance"], case["cuts"]
    if any(e["k"] in gen.RECTS and min(e["w"], e["h"]) < 3 for e in case["scene"]):
        raise Skip("size")
    one, o1 = launch(case)
    build.run(one, D, o1)
    h = build.history(one)
    many, o2 = launch(case)
    for a, b in zip([0] + cuts, cuts + [D]):
        left = b - a
        while left > 1e-11 and not many.blocked:
            n0 = len(many.point_history)
            build.run(many, left, o2, case["limit"])
            g = build.history(many)
            flown = sum(ref.dist(x, y) for x, y in zip(g[n0 - 1:], g[n0:]))
            require(flown > 0, "a run of %r with a limit of %s did not move", left, case["limit"])
            if case["limit"] is None:
                break
            left -= flown
    g = build.history(many)
    what = "split at %s of %s" % (cuts, D)
    k = 0
    for q in g:
        if k < len(h) and ref.dist(q, h[k]) < 1e-9:
            k += 1
    require(k == len(h), "%s: the vertices %s do not include those of one run, %s", what, g, h)
    require(ref.dist(g[-1], h[-1]) < 1e-9, "%s ends at %s, one run at %s", what, g[-1], h[-1])
    require(ref.dist(build.direction(one), build.direction(many)) < 1e-9, "%s: direction %s, one run gives %s", what, many.direction,
            one.direction)
    require(bool(one.blocked) == bool(many.blocked), "%s: blocked %s, one run gives %s", what, many.blocked, one.blocked)
    same_records(records(o1, case["scene"]), records(o2, case["scene"]), 1e-9, what)
    return ["nt"] if len(h) > 2 and cuts else []


def lists(lo, hi, s):
    return st.lists(s, min_size=lo, max_size=hi)


scenes = lambda: st.one_of(gen.chain(6), gen.chain(6), gen.box(8), gen.cavity(600))
ends = ["flat", "rect", "ideal", "concave", "convex", "ball", "compound", "detector", "detector", "detector", "grating"]

SUBS = [
    Sub("split", lambda: st.builds(lambda b, c: {"base": b, "cuts": c}, scenes(),
                                   lists(1, 5, st.integers(1, 9999).map(lambda i: i / 10000))), o_split,
        quick=4000, shards=3, thorough=60000, rule="at least one interaction and one split"),
    Sub("steps", lambda: st.builds(lambda b, c: {"base": b, "limits": c}, scenes(),
                                   lists(1, 4, st.integers(0, 5)).filter(any)), o_steps,
        quick=4000, shards=3, thorough=60000, rule="three or more limited runs, three or more vertices"),
    Sub("exact", lambda: gen.decoded(exact_case, 120), o_exact, quick=2500, shards=1, thorough=40000,
        rule="an interaction and a split, in whole-number geometry where splits fall exactly on surfaces"),
    Sub("blocked", lambda: st.builds(lambda b, c: {"base": b, "again": c},
                                     st.one_of(gen.chain(4, ends), gen.chain(3, ["detector", "grating"])),
                                     lists(1, 4, st.tuples(st.integers(1, 500).map(float),
                                                           st.sampled_from([None, 1, 3]), st.booleans()).map(list))),
        o_blocked, quick=2500, shards=1, thorough=30000, rule="an absorbed ray run again"),
]
