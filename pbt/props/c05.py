"""C05: tracing is repeatable; nothing but the ray and detector records changes; parameter edits take effect."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Histories of operations over one shared scene, decoded from drawn bytes; the model is a scene built afresh."

EDITS = {"ideal": ["f"], "focus": ["f"], "ball": ["index"], "compound": ["index", "surface_behavior"], "grating": ["G"]}


def snapshot(o, depth=0):
    """Values of every array, number and flag an object carries (not detector records)."""
    out = {}
    for k, v in sorted(vars(o).items()):
        if k == "hit_data" or k.startswith("_"):
            continue
        if isinstance(v, np.ndarray):
            out[k] = (v.dtype.str, v.tobytes())
        elif isinstance(v, (int, float, str, bool, type(None))):
            out[k] = v
        elif isinstance(v, list) and depth < 4:
            out[k] = [snapshot(x, depth + 1) for x in v if hasattr(x, "__dict__")]
        elif isinstance(v, build.go.BinaryTree):
            out[k] = tree_snapshot(v, depth + 1)
        elif hasattr(v, "__dict__") and depth < 4:
            out[k] = snapshot(v, depth + 1)
    return out


def tree_snapshot(t, depth):
    if t is None:
        return None
    v = t.getRootVal()
    return [v if isinstance(v, str) else snapshot(v, depth), tree_snapshot(t.getLeftChild(), depth + 1),
            tree_snapshot(t.getRightChild(), depth + 1)]


def differences(a, b, path=""):
    """Keys present in `a` whose values changed (new attributes are nobody's business)."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in a:
            if k not in b:
                out.append(path + "." + k + " vanished")
            else:
                out += differences(a[k], b[k], path + "." + k)
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and not isinstance(a, str):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += differences(x, y, "%s[%d]" % (path, i))
        return out
    return [] if a == b or (a != a and b != b) else [path]


class Shared:
    """Builds elements out of caller-owned arrays, remembering each array and its bytes."""

    def __init__(self):
        self.arrays = []
        self.pool = {}

    def arr(self, v):
        key = tuple((type(x), x) for x in v)
        if key not in self.pool:  # equal vectors share one array object, as callers do
            a = np.array([x for x in v]) if all(isinstance(x, int) for x in v) else np.array([float(x) for x in v])
            self.pool[key] = a
            self.arrays.append((a, a.dtype.str, a.tobytes()))
        return self.pool[key]

    def check(self, what):
        for a, dt, b in self.arrays:
            require(a.dtype.str == dt and a.tobytes() == b, "%s changed an array the caller passed in: %s, was %s", what, a,
                    np.frombuffer(b, dt))


def with_shared(sh, fn, *args):
    old, old_t = build.arr, build.tangent_arr
    build.arr = lambda v, as_int=False: sh.arr(v)
    build.tangent_arr = lambda e: sh.arr(old_t(e).tolist())
    try:
        return fn(*args)
    finally:
        build.arr, build.tangent_arr = old, old_t


def apply_edit(e, attr, val):
    e = dict(e)
    e["behavior" if attr == "surface_behavior" else attr] = val
    return e


KEPT = ("wavelength", "order", "type", "print_trajectory")


def go(r, *args):
    """build.run, which leaves the kind of light as it is"""
    before = [getattr(r, k) for k in KEPT]
    build.run(r, *args)
    for k, v in zip(KEPT, before):
        require(getattr(r, k) == v, "tracing changed the ray's %s from %r to %r", k, v, getattr(r, k))
    return r


def fresh_path(specs, rayspec, distance, limit=None):
    r = build.ray(rayspec)
    go(r, distance, build.scene(specs), limit)
    return r


def same(a, b, what):
    ha, hb = build.history(a), build.history(b)
    require(len(ha) == len(hb), "%s: %d vertices, expected %d", what, len(ha), len(hb))
    sc = scale_of(hb)
    for k, (x, y) in enumerate(zip(ha, hb)):
        require(ref.dist(x, y) <= 1e-12 * sc, "%s: vertex %d is %s, expected %s", what, k, x, y)
    require(ref.dist(build.direction(a), build.direction(b)) <= 1e-12 and bool(a.blocked) == bool(b.blocked),
            "%s: ends with direction %s blocked %s, expected %s %s", what, a.direction, a.blocked, b.direction, b.blocked)


def o_history(case):
    sh = Shared()
    specs = [dict(e) for e in case["scene"]]
    optics = with_shared(sh, build.scene, specs)
    base = [snapshot(o) for o in optics]
    counts = [0] * len(optics)
    stepping = []  # [ray, its spec, remaining, flights so far]
    traced = edited = edits_seen = 0

    def check(what):
        sh.check(what)
        for i, o in enumerate(optics):
            diff = differences(base[i], snapshot(o))
            require(not diff, "%s changed element %d (%s): %s", what, i, specs[i]["k"], diff)
            if specs[i]["k"] == "detector":
                require(len(o.hit_data) == counts[i], "%s: detector %d has %d records, expected %d", what, i, len(o.hit_data),
                        counts[i])

    def expect_records(specs, rayspec, distance):
        f = build.scene(specs)
        r = build.ray(rayspec)
        go(r, distance, f)
        for i, o in enumerate(f):
            if specs[i]["k"] == "detector":
                counts[i] += len(o.hit_data)
        return r

    for op in case["ops"]:
        kind = op[0]
        if kind == "trace":
            _, rayspec, distance, times = op
            want = None
            for _ in range(times):
                want = expect_records(specs, rayspec, distance)
                r = with_shared(sh, build.ray, rayspec)
                go(r, distance, optics)
                same(r, want, "retracing the ray")
                traced += len(r.point_history) > 2
            if edited:
                edits_seen += 1
        elif kind == "back":  # a ray sent back over the very points another one has just passed
            _, rayspec, distance, at = op
            h = build.history(expect_records(specs, rayspec, distance))
            r = with_shared(sh, build.ray, rayspec)
            go(r, distance, optics)
            k = at % (len(h) - 1)
            if h[k] == h[k + 1]:
                continue
            back = dict(rayspec, pos=[(a + b) / 2 for a, b in zip(h[k], h[k + 1])], dir=[a - b for a, b in zip(h[k], h[k + 1])])
            want = expect_records(specs, back, distance)
            r = with_shared(sh, build.ray, back)
            go(r, distance, optics)
            same(r, want, "sending a ray back")
            traced += len(r.point_history) > 2
        elif kind == "bundle":  # several rays made first, then traced, then each compared
            _, rays, distance = op
            made = [with_shared(sh, build.ray, q) for q in rays]
            for r in made:
                go(r, distance, optics)
            for r, q in zip(made, rays):
                same(r, expect_records(specs, q, distance), "one ray of a bundle")
                traced += len(r.point_history) > 2
        elif kind == "interleave":  # rays advance in turns, one interaction each
            _, rays, distance, order = op
            made = [[with_shared(sh, build.ray, q), q, distance] for q in rays]
            for i in order:
                m = made[i % len(made)]
                if m[2] > 0 and not m[0].blocked:
                    p = build.vec(m[0].position)
                    go(m[0], m[2], optics, 1)
                    m[2] -= ref.dist(p, build.vec(m[0].position))
                    if m[2] < 1e-9:
                        m[2] = 0.0
            for m in made:
                alone = build.ray(m[1])
                f = build.scene(specs)
                left = distance
                for _ in range(len(m[0].point_history) - 1):
                    p = build.vec(alone.position)
                    go(alone, left, f, 1)
                    left -= ref.dist(p, build.vec(alone.position))
                    if left < 1e-9:
                        left = 0.0
                same(m[0], alone, "an interleaved ray")
                for i, o in enumerate(f):
                    if specs[i]["k"] == "detector":
                        counts[i] += len(o.hit_data)
                traced += len(m[0].point_history) > 2
        elif kind == "edit":
            _, which, val = op
            i = which % len(specs)
            attrs = EDITS.get(specs[i]["k"])
            if not attrs:
                continue
            attr = attrs[which // len(specs) % len(attrs)]
            v = {"f": 1 + 199 * val, "index": 1 + 3 * val, "G": float(round(2400 * val)),
                 "surface_behavior": "refract" if val > 0.5 else "reflect"}[attr]
            setattr(optics[i], attr, v)
            specs[i] = apply_edit(specs[i], attr, v)
            base[i] = snapshot(optics[i])
            edited += 1
        elif kind == "query":
            _, p, rayspec = op
            a = sh.arr(p)
            got = build.o3d.get_index_at_point(optics, a)
            want = build.o3d.get_index_at_point(build.scene(specs), a)
            require(got == want, "index at %s is %r, a fresh scene gives %r", p, got, want)
            for i, o in enumerate(optics):
                if specs[i]["k"] in ref.TRANSPARENT:
                    continue
                r = with_shared(sh, build.ray, rayspec)
                before = snapshot(r)
                x = o.test_intersect(r)
                y = o.test_intersect(r)
                require(not differences(before, snapshot(r)) and len(r.point_history) == 1, "testing for a hit changed the ray")
                require(bool(x[0]) == bool(y[0]) and (not x[0] or np.array_equal(x[1], y[1])), "testing twice for a hit gives %s then %s",
                        x, y)
        elif kind == "plot":  # looking at a path changes nothing, also after very short runs
            _, rayspec, steps = op
            r = with_shared(sh, build.ray, rayspec)
            for x in steps:
                r.run(max_distance=x, optic_list=[])
            want = build.history(r)
            for _ in range(2):
                got = [ref.V(q) for q in r.get_plot_repr()]
                require(got == want, "the plot data %s are not the path %s", got, want)
                require(build.history(r) == want, "asking for plot data changed the path to %s", r.point_history)
        elif kind == "make":
            _, p, n = op
            a, d = sh.arr(p), sh.arr(n)
            s = build.shapes
            for sp in (s.Sphere(a, R=2), s.InfiniteCylinder(a, d, R=2), s.Circle(a, d, R=2), s.Plane(a, d)):
                r = build.o3d.Ray(sh.arr([1, 2, 3]), d)
                sp.test_intersect(r)
                if hasattr(sp, "test_point"):
                    sp.test_point(a)
            build.go.rotation_matrix(d, a if np.any(a) else d)
            build.go.rotation_matrix2(d, d)
            build.go.rotation_matrix_axis_angle(d, 0.3)
            build.go.unit_vector(d), build.go.project_onto_plane(a, d), build.go.angle_between(d, d)
        check(kind)
    tags = []
    if traced >= 2:
        tags.append("nt")
    if edits_seen:
        tags.append("traced after an edit")
    return tags


def rays_near(s, specs):
    e = specs[s.below(len(specs))]
    c = e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"]
    start = gen.vec(s, 60)
    d = [a + s.lattice(-2, 2) - b for a, b in zip(c, start)]
    if max(abs(x) for x in d) < 1e-3:
        d = [0, 0, 1]
    r = {"pos": start, "dir": d, "wavelength": gen.wavelength(s), "order": gen.order(s)}
    if s.bool(0.1):
        r["probe"] = True
    return r


def decode_ops(base, ops):
    specs = base["scene"]
    out = []
    for b in ops:
        s = gen.Src(b)
        k = s.weighted((4, "trace"), (3, "edit"), (2, "bundle"), (2, "interleave"), (2, "query"), (1, "make"), (1, "plot"), (2, "back"))
        ray = lambda s: base["ray"] if s.bool(0.5) else rays_near(s, specs)
        if k == "trace":
            out.append([k, ray(s), base["distance"], s.int(1, 3)])
        elif k == "back":
            out.append([k, ray(s), base["distance"], s.byte()])
        elif k == "bundle":
            out.append([k, [ray(s) for _ in range(s.int(2, 4))], base["distance"]])
        elif k == "interleave":
            out.append([k, [ray(s) for _ in range(s.int(2, 3))], base["distance"], [s.below(3) for _ in range(s.int(2, 14))]])
        elif k == "edit":
            out.append([k, s.u16(), s.lattice(0, 1)])
        elif k == "query":
            e = specs[s.below(len(specs))]
            c = e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"]
            p = [a + s.lattice(-3, 3) for a in c]
            if s.bool(0.3):
                p = [0 if s.bool(0.6) else a for a in p]
            out.append([k, p, ray(s)])
        elif k == "plot":
            out.append([k, rays_near(s, specs), [s.log(1e-12, 10) for _ in range(s.int(1, 6))]])
        else:
            out.append([k, gen.vec(s, 30), gen.direction(s)])
    return {"scene": specs, "ops": out}


def o_twice(case):
    """The same ray through the same list, many times, between other rays."""
    optics = build.scene(case["scene"])
    first = build.ray(case["ray"])
    go(first, case["distance"], optics)
    sh = Shared()
    for k in range(3):
        other = build.ray(dict(case["ray"], dir=[-x for x in case["ray"]["dir"]], wavelength=700.0 + k, order=k % 2))
        go(other, case["distance"], optics)
        r = with_shared(sh, build.ray, case["ray"])
        go(r, case["distance"], optics)
        same(r, first, "trace number %d of the ray" % (k + 2))
        sh.check("tracing")
    return ["nt"] if len(first.point_history) > 2 else []


def numbers(x, path=()):
    """Every number in a case, as (path, value)."""
    if isinstance(x, dict):
        for k in sorted(x):
            yield from numbers(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from numbers(v, path + (i,))
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        yield path, x


def put(x, path, v):
    if not path:
        return v
    if isinstance(x, dict):
        return dict(x, **{path[0]: put(x[path[0]], path[1:], v)})
    return x[:path[0]] + [put(x[path[0]], path[1:], v)] + x[path[0] + 1:]


POSITIVE = {"D", "w", "h", "f", "R", "index", "wavelength", "G", "tl"}


def nudged(s, run):
    """The same run again but for one or two numbers, which may differ by very little."""
    for _ in range(s.weighted((3, 1), (1, 2))):
        spots = [(p, v) for p, v in numbers(run) if p[0] != "distance"]
        p, v = spots[s.below(len(spots))]
        if p[-1] == "order":
            v = s.pick([0, 1, -1, 2])
        else:
            v = s.weighted((5, lambda s: v + (abs(v) + 1) * 10.0 ** -s.int(3, 12) * s.pick([1, -1])), (1, lambda s: v * s.pick([2.0, 1.5])),
                           (1, lambda s: -v), (1, lambda s: v + s.pick([1, -1])))
            key = next((k for k in reversed(p) if isinstance(k, str)), "")
            if key in POSITIVE:
                v = abs(v) or 1.0
        new = put(run, p, v)
        new["scene"] = [legal(e) for e in new["scene"]]
        if any(new["ray"]["dir"]):
            run = new
    return run


def legal(e):
    """Directions other than zero, concave mirrors no wider than their sphere."""
    e = dict(e)
    for k in ("n", "dn"):
        if k in e and not any(e[k]):
            e[k] = [0, 0, 1]
    if e["k"] == "concave":
        e["f"] = max(e["f"], e["D"])
    if "tree" in e:
        def fix(t):
            if "op" in t:
                return dict(t, a=fix(t["a"]), b=fix(t["b"]))
            return dict(t, d=[0, 0, 1]) if "d" in t and not any(t["d"]) else t
        e["tree"] = fix(e["tree"])
    return e


def decode_apart(base, more, ctl):
    s = gen.Src(ctl)
    base["ray"].pop("verbose", None)
    runs = [base]
    for _ in range(s.int(1, 3)):
        k = s.weighted((6, "nudge"), (1, "same"), (1, "other"))
        runs.append(nudged(s, runs[s.below(len(runs))]) if k == "nudge" else dict(runs[0]) if k == "same" else more)
    return {"runs": runs, "keep": s.bool(0.5)}


def outcome(run):
    optics = build.scene(run["scene"])
    r = build.ray(run["ray"])
    go(r, run["distance"], optics)
    where = [build.o3d.get_index_at_point(optics, p) for p in r.point_history[:3]]
    return optics, (build.history(r), build.direction(r), bool(r.blocked), [build.hits(o) for o in optics if hasattr(o, "hit_data")],
                    where)


def o_apart(case):
    """Runs in one process, one after another, come out exactly as each does in a process of its own."""
    kept, got = [], []
    with build.fresh_world():
        for run in case["runs"]:
            optics, x = outcome(run)
            got.append(x)
            if case["keep"]:
                kept.append(optics)
    kept = optics = None
    hit = 0
    for k, run in enumerate(case["runs"]):
        with build.fresh_world():
            _, want = outcome(run)
        for what, x, y in zip(("path", "direction", "blocked flag", "detector records", "index along the path"), got[k], want):
            require(x == y, "run %d of %d: its %s is %s after the others, %s alone", k + 1, len(got), what, x, y)
        hit += len(want[0]) > 2
    return ["nt"] if hit and any(a != b for a, b in zip(case["runs"], case["runs"][1:])) else []


edit_kinds = ["ideal", "focus", "ball", "compound", "grating", "detector", "flat", "ball", "compound", "concave"]

SUBS = [
    Sub("history", lambda: st.builds(decode_ops, gen.sized(st.one_of(gen.chain(5), gen.chain(4, edit_kinds), gen.box(5, edit_kinds))),
                                     st.lists(st.binary(min_size=60, max_size=60), min_size=2, max_size=9)), o_history,
        quick=2400, shards=5, thorough=40000, rule="two or more traces with an interaction, compared with fresh scenes"),
    Sub("twice", lambda: gen.any_scene(), o_twice, quick=1500, shards=2, thorough=20000, rule="the ray meets something"),
    Sub("apart", lambda: st.builds(decode_apart, gen.any_scene(4), gen.any_scene(3), st.binary(min_size=60, max_size=60)), o_apart,
        quick=3000, shards=4, thorough=40000, rule="a run meets something, and the runs are not all the same"),
]
