"""C01: the recorded path is contiguous, straight, finite and spends exactly its budget."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Scenes are decoded from drawn bytes: element chains placed in the ray's way, random boxes of elements, and cavities."


def check_state(r, what):
    d = build.direction(r)
    require(abs(ref.norm(d) - 1) < 1e-9, "%s: the direction has length %r", what, ref.norm(d))
    p = build.vec(r.position, "position")
    h = build.history(r)
    require(ref.dist(p, h[-1]) <= 1e-12 * scale_of(h), "%s: position %s is not the last history point %s", what, p, h[-1])
    plot = r.get_plot_repr()
    require(len(plot) == len(h) and all(ref.dist(ref.V(a), b) <= 1e-12 * scale_of(h) for a, b in zip(plot, h)),
            "%s: the path for plotting has %d points, the history has %d, or they differ", what, len(plot), len(h))
    return p, d, h


def path_length(h):
    return math.fsum(ref.dist(a, b) for a, b in zip(h, h[1:]))


def on_surface(scene, p, what):
    gap = ref.gap_to_surfaces(scene, p)
    require(gap <= 1e-8 * max(1.0, max(abs(c) for c in p)), "%s: the path ends at %s, %r from any surface", what, p, gap)


def o_budget(case):
    base, limit, verbose = case["base"], case["limit"], case["verbose"]
    optics = build.scene(base["scene"])
    r = build.ray(base["ray"])
    if verbose:
        r.print_trajectory = True
    start = ref.V(base["ray"]["pos"])
    D = base["distance"]
    build.run(r, D, optics, limit)
    p, d, h = check_state(r, "after the run")
    require(ref.dist(h[0], start) <= 1e-12 * scale_of([start]), "the path starts at %s, not at %s", h[0], start)
    flown = path_length(h)
    tol = 1e-9 * scale_of(h) * max(1, len(h)) + 1e-12 * D
    flights = len(h) - 1
    require(flown <= D + tol, "the path is %r long, only %r was allowed", flown, D)
    if r.blocked:
        require(flights >= 1, "blocked without flying")
        on_surface(base["scene"], p, "blocked ray")
    elif abs(flown - D) > tol:
        require(limit is not None and flights == limit, "the path is %r long of %r, with %d of %s interactions and not blocked",
                flown, D, flights, limit)
        if flights:
            on_surface(base["scene"], p, "ray out of interactions")
    if limit is not None:
        require(flights <= limit, "%d flights with at most %d interactions allowed", flights, limit)
    for k, q in enumerate(h[1:-1]):
        if k < 60:
            on_surface(base["scene"], q, "vertex %d" % (k + 1))
    tags = []
    if flights >= 2:
        tags.append("nt")
    if flights >= 50:
        tags.append("50+ flights")
    if r.blocked:
        tags.append("blocked")
    return tags


def o_steps(case):
    """One interaction at a time: each new point straight ahead along the direction held before."""
    base = case["base"]
    optics = build.scene(base["scene"])
    r = build.ray(base["ray"])
    left = base["distance"]
    p, d, h = check_state(r, "at launch")
    require(len(h) == 1, "a new ray has %d history points", len(h))
    require(ref.dist(d, ref.unit(ref.V(base["ray"]["dir"]))) < 1e-12, "launch direction %s", d)
    n = 0
    while left > 1e-9 * (1 + base["distance"]) and not r.blocked and n < 40:
        build.run(r, left, optics, 1)
        p2, d2, h2 = check_state(r, "step %d" % n)
        require(len(h2) == len(h) + 1, "one flight added %d points to the history", len(h2) - len(h))
        sc = scale_of(h2)
        require(all(a == b for a, b in zip(h, h2)), "earlier history points changed")
        t = ref.dist(p, p2)
        ahead = ref.along(p, d, t)
        require(ref.dist(ahead, p2) <= 1e-9 * sc, "the flight from %s goes to %s, which is not ahead along %s", p, p2, d)
        require(t > 0, "a flight of length %r", t)
        left -= t
        p, d, h = p2, d2, h2
        n += 1
    return ["nt"] if n >= 2 else []


def o_free(case):
    """Free flight, fly(), and runs that may not move."""
    r = build.ray(case["ray"])
    p, d = ref.V(case["ray"]["pos"]), ref.unit(ref.V(case["ray"]["dir"]))
    pts = [p]
    for op, x in case["ops"]:
        if op == "run":
            r.run(x)
            moved = x > 0
        elif op == "run_empty":
            r.run(max_distance=x, optic_list=[])
            moved = x > 0
        elif op == "run_transparent":
            r.run(max_distance=x, optic_list=[build.element({"k": k, "pos": list(ref.along(p, d, 0.5 * x)), "n": case["ray"]["dir"]})
                                             for k in ref.TRANSPARENT])
            moved = x > 0
        elif op == "run_zero":
            r.run(max_distance=x, optic_list=[], max_interactions=0)
            moved = False
        elif op == "fly":
            r.fly(distance=x)
            moved = True
        elif op == "fly_none":
            try:
                r.fly()
            except ValueError:
                pass
            else:
                require(False, "flying no distance was accepted")
            moved = False
        if moved:
            p = ref.along(p, d, x)
            pts.append(p)
        got, gd, h = check_state(r, op)
        require(len(h) == len(pts), "after %s %r the history has %d points, expected %d", op, x, len(h), len(pts))
        require(all(ref.dist(a, b) <= 1e-10 * scale_of(pts) for a, b in zip(h, pts)), "after %s %r the path is %s, expected %s",
                op, x, h, pts)
        require(ref.dist(gd, d) < 1e-12, "free flight changed the direction to %s", gd)
        require(not r.blocked, "free flight blocked the ray")
        require(r.get_plot_repr().shape == (len(pts), 3), "plot data has shape %s", r.get_plot_repr().shape)
        require(all(ref.dist(ref.V(a), b) <= 1e-10 * scale_of(pts) for a, b in zip(r.get_plot_repr(), pts)),
                "plot data differs from the path")
    return ["nt"] if len(pts) >= 3 else []


def o_again(case):
    """Several runs of one ray, each with its own budget and interaction limit: each keeps to its own."""
    base = case["base"]
    optics = build.scene(base["scene"])
    r = build.ray(base["ray"])
    flew = 0
    for n, (x, limit) in enumerate(case["runs"]):
        p, d, h = check_state(r, "before run %d" % n)
        blocked = r.blocked
        build.run(r, x, optics, limit)
        p2, d2, g = check_state(r, "after run %d" % n)
        require(g[:len(h)] == h, "run %d changed earlier history points", n)
        flown, flights = path_length(g[len(h) - 1:]), len(g) - len(h)
        tol = 1e-9 * scale_of(g) * max(1, len(g)) + 1e-12 * x
        if blocked:
            require(flights == 0 and r.blocked, "run %d moved a blocked ray", n)
            return ["nt"] if flew >= 2 else []
        require(flown <= x + tol, "run %d of %r flew %r", n, x, flown)
        if limit is not None:
            require(flights <= limit, "run %d: %d flights with at most %d interactions allowed", n, flights, limit)
        if not r.blocked and abs(flown - x) > tol:
            require(limit is not None and flights == limit, "run %d flew %r of %r, with %d of %s interactions and not blocked", n, flown, x,
                    flights, limit)
            if flights:
                on_surface(base["scene"], p2, "ray out of interactions")
        flew += flights > 0
    return ["nt"] if flew >= 2 else []


def o_tail(case):
    """A budget that ends a hair beyond an interaction is still spent to its end."""
    base = case["base"]
    r = build.ray(base["ray"])
    build.run(r, base["distance"], build.scene(base["scene"]), 25)
    h = build.history(r)
    if len(h) < 3:
        raise Skip("nothing is met")
    k = 1 + case["at"] % (len(h) - 2)
    tol = 1e-9 * scale_of(h) * len(h)
    D = path_length(h[:k + 1]) + max(case["beyond"], 50 * tol)
    r = build.ray(base["ray"])
    build.run(r, D, build.scene(base["scene"]))
    p, d, g = check_state(r, "after the run")
    if r.blocked:
        return []
    require(abs(path_length(g) - D) <= tol, "the path is %r long of %r allowed, %r beyond interaction %d", path_length(g), D,
            case["beyond"], k)
    return ["nt"]


def free_ops(s):
    ops = []
    for _ in range(s.int(1, 8)):
        op = s.pick(["run", "run_empty", "run_transparent", "run_zero", "fly", "fly_none"])
        x = s.weighted((4, lambda s: s.pos(1e-3, 1e4)), (1, 0.0), (1, lambda s: float(s.int(1, 50))))
        if op == "fly":
            x = max(x, 1e-3)
        if op.startswith("run") and s.bool(0.1):
            x = -x
        ops.append([op, x])
    return {"ray": {"pos": gen.big_vec(s), "dir": gen.direction(s), "wavelength": gen.wavelength(s)}, "ops": ops}


def limited(base):
    return st.builds(lambda b, k, v: {"base": b, "limit": None if k % 3 else k // 3, "verbose": v == 0}, base,
                     st.integers(0, 60), st.integers(0, 9))


SUBS = [
    Sub("again", lambda: st.builds(lambda b, q: {"base": b, "runs": [[round(b["distance"] * x, 6), k] for x, k in q]},
                                   gen.sized(st.one_of(gen.any_scene(), gen.cavity(5000))),
                                   st.lists(st.tuples(st.integers(1, 1500).map(lambda i: i / 1000),
                                                      st.sampled_from([None, 0, 1, 2, 3, 4, 5, 7])), min_size=2, max_size=6)), o_again,
        quick=2500, shards=2, thorough=40000, rule="two or more of the runs moved"),
    Sub("budget", lambda: limited(gen.sized(st.one_of(gen.any_scene(), gen.cavity(20000)))), o_budget, quick=5000, shards=4,
        thorough=80000, rule="two or more flights"),
    Sub("steps", lambda: st.builds(lambda b: {"base": b}, gen.sized(gen.any_scene())), o_steps, quick=2500, shards=2,
        thorough=40000, rule="two or more flights"),
    Sub("tail", lambda: st.builds(lambda b, k, e: {"base": b, "at": k, "beyond": float("%.3g" % 10 ** (-e / 10))},
                                  gen.sized(gen.any_scene()), st.integers(0, 30), st.integers(0, 70)), o_tail,
        quick=1500, shards=1, thorough=20000, rule="the budget ends just beyond an interaction"),
    Sub("free", lambda: gen.decoded(free_ops, 110), o_free, quick=2500, shards=1, thorough=40000,
        rule="three or more path points"),
]
