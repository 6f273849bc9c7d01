"""Checks one traced ray of the real code against the reference model, one flight at a time.

The model is re-synchronised to the real ray at every vertex, so its predictions stay sharp after
hundreds of bounces: each step is predicted from the real vertex before it. Where rounding decides
(edges, ties, tangencies) following stops and what came before counts."""
import math

from . import ref, build
from .core import require, Violation


def scale_of(h):
    return max(1.0, max(abs(c) for p in h for c in p))


def follow(scene, rayspec, distance, r, max_interactions=None, max_check=600):
    """-> dict(n=interactions verified, done=followed to the end, kinds=set, why=..., hits={index: [records]})"""
    h = build.history(r)
    p = ref.V(rayspec["pos"])
    d = ref.unit(ref.V(rayspec["dir"]))
    require(ref.dist(h[0], p) <= 1e-12 * scale_of([p]), "the path starts at %s, not at the launch point %s", h[0], p)
    left = float(distance)
    out = {"n": 0, "done": False, "kinds": [], "why": None, "hits": {}}
    k = blind = 0
    last = len(h) - 1
    while True:
        if left <= 0 or (max_interactions is not None and out["n"] >= max_interactions):
            require(k == last, "the ray flew on for %d flights after its distance or interactions ran out", last - k)
            require(not r.blocked, "a ray that only ran out is blocked")
            out["done"] = True
            break
        if k >= max_check:
            out["why"] = "checked long enough"
            return out
        sc = max(1.0, max(abs(c) for c in p))
        tol = 1e-6 * (1 + sc / 100)
        try:
            hit = ref.first_hit(scene, p, d, left, tol, 1e-6)
            if hit is not None:
                i, t, x, n, info = hit
                if abs(ref.dot(d, n)) < 1e-4:
                    raise ref.Ambiguous("grazing hit")
                nd, absorbed = ref.element_act(scene[i], p, d, x, n, info, rayspec)
        except ref.Ambiguous as a:
            out["why"] = str(a)
            return out
        require(k < last, "the ray stopped at %s with %r to go; expected %s", p, left,
                "element %d (%s) at %s" % (hit[0], scene[hit[0]]["k"], hit[2]) if hit else "free flight")
        q = h[k + 1]
        ptol = 2e-6 * max(1.0, max(abs(c) for c in q), sc)
        if hit is None:
            end = ref.along(p, d, left)
            require(ref.dist(end, q) <= ptol, "from %s along %s the way is free for %r to %s, the ray went to %s",
                    p, d, left, end, q)
            require(k + 1 == last, "the ray flew on after its distance was used up")
            require(not r.blocked, "a ray that met nothing is blocked")
            out["done"] = True
            k += 1
            p = q
            break
        require(ref.dist(x, q) <= ptol,
                "from %s along %s the nearest surface is element %d (%s) at %s (distance %r), the ray went to %s (distance %r)",
                p, d, i, scene[i]["k"], x, t, q, ref.dist(p, q))
        out["n"] += 1
        out["kinds"].append(scene[i]["k"])
        left -= ref.dist(p, q)
        k += 1
        p = q
        if absorbed:
            require(k == last, "the ray flew on after being absorbed by element %d (%s)", i, scene[i]["k"])
            require(bool(r.blocked), "the ray is not blocked after element %d (%s)", i, scene[i]["k"])
            if scene[i]["k"] == "detector" and not rayspec.get("probe"):
                out["hits"].setdefault(i, []).append(q)
            out["done"] = True
            d = None if nd is None else nd
            break
        # direction after the interaction: seen on the next flight, or kept by the ray if it was the last
        seen = None
        if k < last:
            seg = ref.sub(h[k + 1], p)
            L = ref.norm(seg)
            # short flights show the direction less exactly, but a direction carried along from bounce to bounce loses accuracy too
            if L > (1e-5 if blind < 3 else 1e-7) * sc:
                seen = ref.unit(seg)
            elif blind >= 3:
                out["why"] = "a series of tiny flights"
                return out
            blind = 0 if seen is not None else blind + 1
        else:
            require(not r.blocked, "the ray was absorbed by element %d (%s)", i, scene[i]["k"])
            seen = build.direction(r)
        if seen is not None:
            require(ref.dist(seen, nd) <= 1e-5, "at %s element %d (%s) turns direction %s to %s, expected %s", q, i,
                    scene[i]["k"], d, seen, nd)
            d = ref.unit(seen)
        else:
            d = nd
    if out["done"] and d is not None and not (r.blocked and rayspec.get("probe")):
        if out["kinds"] and out["kinds"][-1] == "detector" and r.blocked:
            pass
        fd = build.direction(r)
        require(ref.dist(fd, d) <= 1e-5, "the final direction is %s, expected %s", fd, d)
    if out["done"]:
        require(ref.dist(build.vec(r.position, "position"), h[-1]) <= 1e-12 * scale_of(h),
                "position %s is not the last history point %s", r.position, h[-1])
    return out
