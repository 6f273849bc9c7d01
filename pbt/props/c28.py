"""C28: drawings show elements where they are, with equal axes."""
import math

import numpy as np

from .. import build, gen, ref
from ..core import Sub, Skip, require
from .c05 import snapshot, differences

RULE = "Elements of every kind, place, size and orientation (along and opposite the plotting axis included) are drawn on 3D axes and their artists read back."


def axes():
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    fig = Figure(figsize=(1.5, 1.5), dpi=50)
    FigureCanvasAgg(fig)
    return fig, fig.add_subplot(111, projection="3d")


def curve(verts, codes, steps=8):
    """Points along a path in space: (vertices on it, samples of it)"""
    V = [tuple(float(x) for x in v) for v in verts]
    if codes is None:
        return V, lines(V + V[:1], steps)
    on, samples, i, start = [], [], 0, None
    while i < len(codes):
        k = int(codes[i])
        if k == 1:
            start = V[i]
            on.append(V[i])
            i += 1
        elif k == 2:
            samples += lines([on[-1], V[i]], steps)
            on.append(V[i])
            i += 1
        elif k in (3, 4):
            n = k - 1  # control points that follow
            P = [on[-1]] + V[i:i + n]
            for s in range(1, steps + 1):
                t = s / steps
                Q = P
                while len(Q) > 1:
                    Q = [ref.add(ref.mul(a, 1 - t), ref.mul(b, t)) for a, b in zip(Q, Q[1:])]
                samples.append(Q[0])
            on.append(P[-1])
            i += n
        elif k == 79:
            if start is not None:
                samples += lines([on[-1], start], steps)
            i += 1
        else:
            i += 1
    return on, samples


def lines(pts, steps):
    return [ref.add(ref.mul(a, 1 - s / steps), ref.mul(b, s / steps)) for a, b in zip(pts, pts[1:]) for s in range(steps + 1)]


def outlines(artists):
    """[(vertices, samples)] of everything flat that was drawn"""
    out = []
    for a in artists:
        n = type(a).__name__
        if hasattr(a, "_segment3d"):
            out.append(curve(np.asarray(a._segment3d, dtype=float), getattr(a, "_code3d", None)))
        elif hasattr(a, "_faces") or hasattr(a, "_vec"):
            if hasattr(a, "_faces"):
                bad = np.broadcast_to(np.asarray(getattr(a, "_invalid_vertices", False)), np.shape(a._faces)[:2])
                faces = [np.asarray(f, dtype=float)[~b] for f, b in zip(a._faces, bad)]
            else:
                V = np.asarray(a._vec, dtype=float)[:3].T
                faces = [V[sl] for sl in a._segslices]
            for f in faces:
                out.append(curve(f, None))
        elif hasattr(a, "_verts3d"):
            P = np.array([np.asarray(v, dtype=float) for v in a._verts3d]).T
            out.append(([tuple(p) for p in P], lines([tuple(p) for p in P], 8)))
        else:
            require(False, "an artist this check cannot read: %s", n)
    return [o for o in out if len(o[0]) >= 3]


def draw(e, el, c):
    fig, ax = axes()
    old = set(map(id, ax.get_children()))
    v = c.get("view")
    if v:
        el.draw(ax, view=v)
    else:
        el.draw(ax)
    return fig, ax, [a for a in ax.get_children() if id(a) not in old]


def turn(s):
    k = s.byte()
    if k < 60:
        return list(s.pick(gen.AXES))
    if k < 100:
        a = [float(x) for x in s.pick([[0, 0, 1], [0, 0, -1]])]
        a[s.below(2)] += 10.0 ** -s.int(1, 17) * s.pick([1, -1, 3])
        return a
    return gen.direction(s)


KINDS = ["flat", "rect", "concave", "ideal", "collimate", "focus", "grating", "detector", "dmd", "dmd_rect", "convex", "ball"]


def elem_case(s):
    k = s.pick(KINDS)
    e = {"k": k, "pos": gen.big_vec(s)}
    if k in ("convex", "ball"):
        e.update(D=s.weighted((3, lambda s: s.pos(0.01, 1000)), (1, lambda s: s.int(1, 50))), index=1.5)
    else:
        e["n"] = turn(s)
        if k in gen.RECTS:
            e.update(w=s.pos(0.01, 1000), h=s.pos(0.01, 1000), roll=gen.roll(s))
        else:
            e["D"] = s.weighted((3, lambda s: s.pos(0.01, 1000)), (1, lambda s: s.int(1, 50)))
        e.update(dn=[0.1, 0.2, 1], G=600)
        e["f"] = s.pos(1, 500) if k != "concave" else e["D"] * s.weighted((1, lambda s: s.lattice(1, 5)), (1, lambda s: s.log(0.251, 50)))
    return {"e": e, "view": s.pick(["3d", "xyz", None]), "render": s.bool(0.15)}


def o_elem(c):
    e = c["e"]
    el = build.element(e)
    snap = snapshot(el)
    fig, ax, arts = draw(e, el, c)
    require(arts, "drawing a %s adds nothing", e["k"])
    pos = ref.V(e["pos"])
    m = max(abs(x) for x in pos)
    k = e["k"]
    if k in ("convex", "ball"):
        P = [p for o in outlines(arts) for p in o[0]]
        R = e["D"] / 2
        require(len(P) > 50, "the ball is drawn with %d points", len(P))
        tol = 1e-9 * (R + m)
        for p in P:
            require(abs(ref.dist(p, pos) - R) < tol, "a point of the drawn ball is %r from its centre %s, the radius is %r", ref.dist(p, pos), pos, R)
        if R > 1e-6 * m:
            for d in [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if x or y or z]:
                q = ref.along(pos, ref.unit(d), R)
                near = min(ref.dist(p, q) for p in P)
                require(near < 0.3 * R, "the drawn ball is open towards %s: the nearest point is %r away", d, near)
    else:
        n = ref.unit(ref.V(e["n"]))
        obs = outlines(arts)
        require(obs, "drawing a %s leaves no outline", k)
        size = e.get("D") or max(e["w"], e["h"])
        tol = 1e-7 * size + 1e-12 * m
        for on, samples in obs:
            for p in on + samples:
                off = ref.dot(ref.sub(p, pos), n)
                require(abs(off) < tol, "the outline of a %s at %s leaves its plane (normal %s) by %r", k, pos, n, off)
        on = [p for o in obs for p in o[0]]
        smp = [p for o in obs for p in o[1]]
        if k in gen.RECTS:
            t = ref.unit(ref.tangent_of(e))
            acc = ref.cross(n, t)
            want = [ref.add(pos, ref.add(ref.mul(t, a * e["h"] / 2), ref.mul(acc, b * e["w"] / 2))) for a in (1, -1) for b in (1, -1)]
            for q in want:
                require(min(ref.dist(p, q) for p in on) < tol, "the outline of a %s at %s has no corner at %s: %s", k, pos, q, on)
            for p in on + smp:
                r = ref.sub(p, pos)
                a, b = abs(ref.dot(r, t)) - e["h"] / 2, abs(ref.dot(r, acc)) - e["w"] / 2
                require(max(a, b) < tol and max(a, b) > -tol, "the outline of a %s at %s passes %s, not on its edge", k, pos, p)
        else:
            R = e["D"] / 2
            for p in on:
                require(abs(ref.dist(p, pos) - R) < 1e-3 * R + tol, "the outline of a %s at %s is %r from its centre, the edge is at %r", k, pos, ref.dist(p, pos), R)
            for p in smp:
                require(R * 0.98 - tol < ref.dist(p, pos) < R * 1.001 + tol, "the outline of a %s at %s is %r from its centre, the edge is at %r", k, pos,
                        ref.dist(p, pos), R)
            u = ref.any_perp(n)
            v = ref.cross(n, u)
            ang = sorted(math.atan2(ref.dot(ref.sub(p, pos), v), ref.dot(ref.sub(p, pos), u)) for p in on + smp)
            gap = max(b - a for a, b in zip(ang, ang[1:] + [ang[0] + 2 * math.pi]))
            require(gap < 0.5, "the outline of a %s is open over %r radians", k, gap)
    if c["render"]:
        fig.canvas.draw()
    d = differences(snap, snapshot(el))
    require(not d, "drawing changed a %s: %s", k, d)
    return ["nt", k] + (["rendered"] if c["render"] else [])


# ---------------------------------------------------------------- flat patches
def patch_case(s):
    p = {"kind": s.pick(["circle", "rectangle", "polygon", "ellipse", "wedge"]), "xy": [s.num(-20, 20), s.num(-20, 20)], "a": s.num(0.1, 30), "b": s.num(0.1, 30),
         "ang": s.lattice(0, 360, 10)}
    return {"p": p, "n": s.weighted((2, lambda s: s.pick(["x", "y", "z"])), (4, turn)), "z": s.weighted((2, None), (3, lambda s: s.num(-20, 20))),
            "moves": [gen.big_vec(s) for _ in range(s.below(3))], "how": s.below(3), "render": s.bool(0.15)}


def o_patch(c):
    from matplotlib import patches
    p = c["p"]
    mk = {"circle": lambda: patches.Circle(p["xy"], p["a"]), "rectangle": lambda: patches.Rectangle(p["xy"], p["a"], p["b"], angle=p["ang"]),
          "polygon": lambda: patches.Polygon([p["xy"], [p["a"], 0], [p["a"], p["b"]], [-1, p["b"]]]),
          "ellipse": lambda: patches.Ellipse(p["xy"], p["a"], p["b"], angle=p["ang"]), "wedge": lambda: patches.Wedge(p["xy"], p["a"], 10, 200)}[p["kind"]]
    flat = mk()
    path = flat.get_patch_transform().transform_path(flat.get_path())
    want2 = np.asarray(path.vertices, dtype=float)
    fig, ax = axes()
    a = mk()
    ax.add_patch(a)
    z = c["z"] or 0
    name = isinstance(c["n"], str)
    n = ref.V({"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}[c["n"]]) if name else ref.unit(ref.V(c["n"]))
    kw = {} if c["z"] is None else {"z": c["z"]}
    arg = c["n"] if name else tuple(c["n"]) if c["how"] == 1 else build.arr(c["n"])
    keep = list(arg)
    if name and c["n"] == "z" and c["how"] == 2:
        build.go.pathpatch_2d_to_3d(a, **kw)
    else:
        build.go.pathpatch_2d_to_3d(a, normal=arg, **kw)
    require(list(arg) == keep, "the normal was changed from %s to %s", keep, arg)
    origin = (0.0, 0.0, float(z))
    for mv in c["moves"]:
        d = tuple(mv) if c["how"] else build.arr(mv)
        build.go.pathpatch_translate(a, d)
        origin = ref.add(origin, ref.V(mv))
    got = np.asarray(a._segment3d, dtype=float)
    require(got.shape == (len(want2), 3), "%d vertices became %s", len(want2), got.shape)
    codes = getattr(a, "_code3d", None)
    require((codes is None) == (path.codes is None) and (codes is None or list(codes) == list(path.codes)), "the path codes changed")
    m = float(np.max(np.abs(got))) + float(np.max(np.abs(want2)))
    tol = 1e-9 * m
    rel = [ref.sub(tuple(g), origin) for g in got]
    for g in rel:
        require(abs(ref.dot(g, n)) < tol, "a patch placed with normal %s leaves its plane by %r", c["n"], ref.dot(g, n))
    # the same figure: lengths, inner products and handedness about the normal
    for i in range(len(rel)):
        for j in range(i, len(rel)):
            w = want2[i][0] * want2[j][0] + want2[i][1] * want2[j][1]
            require(abs(ref.dot(rel[i], rel[j]) - w) < tol * m, "the patch is distorted: vertices %s, %s became %s, %s", want2[i], want2[j], rel[i], rel[j])
            x = want2[i][0] * want2[j][1] - want2[i][1] * want2[j][0]
            require(abs(ref.dot(ref.cross(rel[i], rel[j]), n) - x) < tol * m, "the patch is mirrored about the normal %s", c["n"])
    if c["render"]:
        fig.canvas.draw()
    return ["nt", "by name" if name else "by normal"]


# ---------------------------------------------------------------- axes
def equal_case(s):
    lim = []
    for _ in range(3):
        a = s.num(-1000, 1000)
        w = s.pos(1e-3, 2000)
        lim.append([a, a + w] if s.bool(0.85) else [a + w, a])
    return {"lim": lim, "plot": [gen.big_vec(s) for _ in range(s.below(4))], "r": s.pos(1e-2, 1e3), "o": gen.big_vec(s)}


def o_equal(c):
    fig, ax = axes()
    if len(c["plot"]) > 1:
        P = np.array(c["plot"], dtype=float)
        ax.plot(P[:, 0], P[:, 1], P[:, 2])
    else:
        for f, l in zip((ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d), c["lim"]):
            f(l)
    get = [ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d]
    old = [tuple(float(x) for x in g()) for g in get]
    span = max(abs(b - a) for a, b in old)
    build.gen_.set_axes_equal(ax)
    tol = 1e-9 * (span + max(abs(x) for l in old for x in l))
    for o, g, name in zip(old, get, "xyz"):
        a, b = (float(x) for x in g())
        require(abs(abs(b - a) - span) < tol, "the %s axis spans %r after equalising, the largest span was %r", name, b - a, span)
        require(abs((a + b) / 2 - (o[0] + o[1]) / 2) < tol, "the centre of the %s axis moved from %r to %r", name, (o[0] + o[1]) / 2, (a + b) / 2)
    build.gen_.set_axes_equal(ax)
    for o, g in zip(old, get):
        a, b = (float(x) for x in g())
        require(abs(abs(b - a) - span) < tol and abs(a + b - o[0] - o[1]) < 2 * tol, "equalising twice moves an axis to %s", (a, b))
    build.gen_.set_axes_radius(ax, build.arr(c["o"]), c["r"])
    for o, g, name in zip(c["o"], get, "xyz"):
        a, b = (float(x) for x in g())
        t = 1e-9 * (c["r"] + abs(o))
        require(abs(a - (o - c["r"])) < t and abs(b - (o + c["r"])) < t, "the %s axis is %r..%r for radius %r around %r", name, a, b, c["r"], o)
    return ["nt"] if max(abs(b - a) for a, b in old) > 1.001 * min(abs(b - a) for a, b in old) else []


# ---------------------------------------------------------------- drawing and tracing
def o_scene(c):
    optics = build.scene(c["scene"])

    def trace():
        r = build.ray(c["ray"])
        build.run(r, c["distance"], optics)
        return build.history(r), build.direction(r), bool(r.blocked)
    before = trace()
    for e, o in zip(c["scene"], optics):
        if e["k"] == "detector":
            o.hit_data.clear()
    snaps = [snapshot(o) for o in optics]
    fig, ax = axes()
    for o in optics:
        o.draw(ax)
    r = build.ray(c["ray"])
    build.run(r, c["distance"], [])
    P = np.asarray(r.get_plot_repr(), dtype=float)
    h = build.history(r)
    require(P.shape == (len(h), 3) and all(ref.dist(tuple(p), q) == 0 for p, q in zip(P, h)), "the plotted trajectory is %s, the history %s", P.tolist(), h)
    ax.plot(P[:, 0], P[:, 1], P[:, 2])
    build.gen_.set_axes_equal(ax)
    if len(c["scene"]) % 3 == 0:
        fig.canvas.draw()
    for e, o, s in zip(c["scene"], optics, snaps):
        d = differences(s, snapshot(o))
        require(not d, "drawing changed a %s: %s", e["k"], d)
    after = trace()
    require(before == after, "the ray traces %s before drawing and %s after", before, after)
    return ["nt"] if len(before[0]) > 2 else []


def scene_strategy():
    return gen.chain(5)


def view_case(s):
    k = s.pick(["flat", "flat", "dmd"])
    e = {"k": k, "pos": gen.big_vec(s), "n": turn(s), "D": s.pos(0.01, 1000), "dn": [0.1, 0.2, 1]}
    return {"e": e, "view": s.pick(["xy", "tangential", "xz", "sagittal"]), "render": s.bool(0.1)}


def o_view(c):
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    el = build.element(c["e"])
    snap = snapshot(el)
    fig = Figure(figsize=(1.5, 1.5), dpi=50)
    FigureCanvasAgg(fig)
    ax = fig.add_subplot(111)
    el.draw(ax, view=c["view"])
    pts = [tuple(map(float, q)) for ln in ax.lines for q in np.asarray(ln.get_xydata()).reshape(-1, 2)]
    pts += [tuple(map(float, q)) for co in ax.collections for q in np.asarray(co.get_offsets()).reshape(-1, 2)]
    require(pts, "nothing is marked in the %s view", c["view"])
    x = ref.V(c["e"]["pos"])
    w = (x[0], x[1]) if c["view"] in ("xy", "tangential") else (x[0], x[2])
    g = [sum(q[i] for q in pts) / len(pts) for i in (0, 1)]
    require(max(abs(g[i] - w[i]) for i in (0, 1)) <= 1e-9 * (1 + max(map(abs, w))), "the %s view marks the mirror at %s, it is at %s",
            c["view"], g, x)
    require(not differences(snap, snapshot(el)), "drawing changed the element")
    if c["render"]:
        fig.canvas.draw()
    return ["nt"]


SUBS = [
    Sub("elements", lambda: gen.decoded(elem_case, 60), o_elem, quick=2000, shards=6, thorough=40000, rule="every element"),
    Sub("patches", lambda: gen.decoded(patch_case, 70), o_patch, quick=1200, shards=4, thorough=30000, rule="every patch"),
    Sub("flat_views", lambda: gen.decoded(view_case, 60), o_view, quick=200, shards=1, thorough=4000, rule="every view"),
    Sub("axes", lambda: gen.decoded(equal_case, 70), o_equal, quick=600, shards=2, thorough=10000, rule="the axes are not equal already"),
    Sub("scene", scene_strategy, o_scene, quick=500, shards=3, thorough=8000, rule="the ray meets something"),
]
