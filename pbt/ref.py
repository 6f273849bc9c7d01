"""Reference model: ray/surface geometry and element behaviour, written from optics and
geometry alone (pure Python tuples, no code shared with the repository).

Everything that is decided also reports how clear the decision was: `Ambiguous` is raised when a
ray passes within `tol` of an edge, a tangency, a tie or a distance limit, where rounding decides.
"""
import math


class Ambiguous(Exception):
    pass


# ---------------------------------------------------------------- vectors
def V(a):
    return (float(a[0]), float(a[1]), float(a[2]))


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def mul(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def along(p, d, t):
    return (p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    m = max(abs(a[0]), abs(a[1]), abs(a[2]))
    if m == 0 or m != m or m == math.inf:
        return m
    return m * math.sqrt((a[0] / m) ** 2 + (a[1] / m) ** 2 + (a[2] / m) ** 2)


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def dist(a, b):
    return norm(sub(a, b))


def neg(a):
    return (-a[0], -a[1], -a[2])


def finite(a):
    return all(math.isfinite(x) for x in a)


def any_perp(n):
    """A unit vector perpendicular to n."""
    i = min(range(3), key=lambda k: abs(n[k]))
    e = [0.0, 0.0, 0.0]
    e[i] = 1.0
    return unit(cross(n, tuple(e)))


def perp_dist_line(p, c, d):
    """Distance of point p from the line through c along unit d."""
    return norm(cross(sub(p, c), d))


def angle(a, b):
    """Unsigned angle between two vectors, accurate everywhere."""
    a, b = unit(a), unit(b)
    return 2 * math.atan2(norm(sub(a, b)), norm(add(a, b)))


# ---------------------------------------------------------------- surfaces
def plane_t(p, d, c, n):
    """Signed distance along unit d to the plane, None when parallel."""
    den = dot(d, n)
    if den == 0:
        return None
    return dot(sub(c, p), n) / den


def sphere_ts(p, d, c, R, tol):
    """Sorted signed distances along unit d to the sphere ([] when missed)."""
    q = sub(c, p)
    b = dot(q, d)
    perp = norm(sub(q, mul(d, b)))
    if abs(perp - R) < tol:
        raise Ambiguous("tangent")
    if perp > R:
        return []
    h = math.sqrt((R - perp) * (R + perp))
    return [b - h, b + h]


def cyl_ts(p, d, c, axis, R, tol):
    """Sorted signed distances to the infinite cylinder around unit axis."""
    q = sub(p, c)
    qp = sub(q, mul(axis, dot(q, axis)))
    dp = sub(d, mul(axis, dot(d, axis)))
    s = norm(dp)
    if s < 3e-8:
        if s < 1e-13:
            return []
        raise Ambiguous("nearly parallel to a cylinder")
    e = mul(dp, 1 / s)
    b = -dot(qp, e)
    perp = norm(add(qp, mul(e, b)))
    if abs(perp - R) < tol:
        raise Ambiguous("tangent")
    if perp > R:
        return []
    h = math.sqrt((R - perp) * (R + perp))
    return [(b - h) / s, (b + h) / s]


# ---------------------------------------------------------------- solids (trees)
def leaves(t):
    if "op" in t:
        return leaves(t["a"]) + leaves(t["b"])
    return [t]


def leaf_depth(leaf, p):
    """Distance of p from the leaf's surface, positive inside."""
    if leaf["s"] == "sphere":
        return leaf["R"] - dist(p, V(leaf["c"]))
    return leaf["R"] - perp_dist_line(p, V(leaf["c"]), unit(V(leaf["d"])))


def inside(t, p):
    if "op" in t:
        a, b = inside(t["a"], p), inside(t["b"], p)
        return {"union": a or b, "intersect": a and b, "difference": a and not b}[t["op"]]
    return leaf_depth(t, p) > 0


def leaf_normal(leaf, p):
    """Unit normal towards the inside of the primitive."""
    if leaf["s"] == "sphere":
        return unit(sub(V(leaf["c"]), p))
    ax = unit(V(leaf["d"]))
    q = sub(V(leaf["c"]), p)
    return unit(sub(q, mul(ax, dot(q, ax))))


def leaf_ts(leaf, p, d, tol):
    if leaf["s"] == "sphere":
        return sphere_ts(p, d, V(leaf["c"]), leaf["R"], tol)
    return cyl_ts(p, d, V(leaf["c"]), unit(V(leaf["d"])), leaf["R"], tol)


def solid_crossings(t, p, d, tol, start_tol):
    """All boundary crossings of the solid ahead: [(t, leaf, entering)], first first.
    Crossings within start_tol of the start are the surface the ray stands on."""
    ts = []
    for leaf in leaves(t):
        for x in leaf_ts(leaf, p, d, tol):
            if x > start_tol:
                ts.append((x, leaf))
            elif x > -start_tol:
                if abs(x) > 1e-3 * start_tol:
                    raise Ambiguous("starts next to a surface")
    ts.sort(key=lambda e: e[0])
    for (x, la), (y, lb) in zip(ts, ts[1:]):
        if y - x < tol and la is not lb:
            raise Ambiguous("two parts' surfaces coincide")
    out = []
    for k, (x, leaf) in enumerate(ts):
        before = (ts[k - 1][0] if k else 0.0)
        after = ts[k + 1][0] if k + 1 < len(ts) else x + 1.0
        i0 = inside(t, along(p, d, (before + x) / 2))
        i1 = inside(t, along(p, d, (x + after) / 2))
        if i0 != i1:
            out.append((x, leaf, i1))
    return out


# ---------------------------------------------------------------- bending
def reflect(d, n):
    n = unit(n)
    return unit(sub(d, mul(n, 2 * dot(d, n))))


def refract(d, n, n1, n2):
    """-> (direction, 'tir' or 'through'); n of any sign or length."""
    n = unit(n)
    c = -dot(d, n)
    if c < 0:
        n, c = neg(n), -c
    s2 = (n1 / n2) ** 2 * max(0.0, norm(cross(d, n)) ** 2)
    if abs(s2 - 1) < 1e-7:
        raise Ambiguous("at the critical angle")
    if s2 > 1:
        return reflect(d, n), "tir"
    tang = add(d, mul(n, c))
    return unit(sub(mul(tang, n1 / n2), mul(n, math.sqrt(1 - s2)))), "through"


def grating_out(d, n, t, G, m, wavelength):
    """Front side. -> direction, or None when the order is evanescent."""
    n, t = unit(n), unit(t)
    dt = dot(d, t)
    dp = sub(d, mul(t, dt))
    lp = norm(dp)
    back = neg(mul(dp, 1 / lp))            # towards where the light came from
    ca = dot(back, n)
    side = sub(back, mul(n, ca))
    sa = norm(side)
    if ca <= 1e-6:
        raise Ambiguous("light meets the grating from behind or grazing")
    if sa < 1e-9:
        raise Ambiguous("normal incidence has no incident side")
    s = mul(side, 1 / sa)
    sb = G * 1e-6 * m * wavelength - sa
    if abs(abs(sb) - 1) < 1e-7:
        raise Ambiguous("order at grazing exit")
    if abs(sb) > 1:
        return None
    out = add(mul(n, math.sqrt(1 - sb * sb)), mul(s, sb))
    return unit(add(mul(t, dt), mul(out, lp)))


def thin_lens(d, n, r, f):
    n = unit(n)
    dn = dot(d, n)
    if dn < 0:
        n, dn = neg(n), -dn
    if dn < 1e-6:
        raise Ambiguous("grazes a lens")
    return unit(sub(mul(d, 1 / dn), mul(r, 1 / f)))


# ---------------------------------------------------------------- elements
TRANSPARENT = ("annotation", "filter", "window")


def tangent_of(e):
    """In-plane direction of a rectangular element: `t` if given, else `roll` degrees about the normal."""
    n = unit(V(e["n"]))
    if "t" in e:
        t = V(e["t"])
        return unit(sub(t, mul(n, dot(t, n))))
    i = min(range(3), key=lambda k: abs(n[k]))
    ax = [0.0, 0.0, 0.0]
    ax[i] = 1.0
    u = unit(cross(n, tuple(ax)))
    v = cross(n, u)
    r = e.get("roll", 0) % 360
    table = {0: (1.0, 0.0), 90: (0.0, 1.0), 180: (-1.0, 0.0), 270: (0.0, -1.0)}
    c, s = table.get(r) or (math.cos(math.radians(r)), math.sin(math.radians(r)))
    return unit(add(mul(u, c), mul(v, s)))


def flat_hit(e, p, d, tol, start_tol):
    """Crossing with a disc or rectangle: [(t, point)] or []."""
    n = unit(V(e["n"]))
    c = V(e["pos"])
    den = dot(d, n)
    if abs(den) < 1e-11:  # parallel, also when it lies in the plane
        return []
    if abs(den) < 1e-6:
        if abs(dot(sub(c, p), n)) / abs(den) > 1e5 * (1 + norm(sub(c, p))):
            return []  # crosses the plane far outside the aperture
        raise Ambiguous("grazing a flat surface")
    t = dot(sub(c, p), n) / den
    x = along(p, d, t)
    r = sub(x, c)
    if "w" in e and e.get("w") is not None:
        tt = tangent_of(e)
        ss = cross(n, tt)
        a, b = abs(dot(r, tt)) - e["h"] / 2, abs(dot(r, ss)) - e["w"] / 2
        edge = max(a, b)
    else:
        edge = norm(r) - e["D"] / 2
    if t < -start_tol or (edge > tol):
        return []
    if abs(edge) < tol:
        raise Ambiguous("at an edge")
    if t < start_tol:
        if abs(t) > 1e-3 * start_tol:
            raise Ambiguous("starts next to a surface")
        return []
    return [(t, x)]


def cap_edge(e, n, x):
    """How far x, on the sphere of a concave mirror, is outside its cap (negative: on it)."""
    r = sub(x, V(e["pos"]))
    z = dot(r, n)
    return max(norm(sub(r, mul(n, z))) - e["D"] / 2, z - 2 * e["f"])


def element_hit(e, p, d, tol, start_tol):
    """First interaction of the ray with one element: None or (t, point, normal, info)."""
    k = e["k"]
    if k in TRANSPARENT:
        return None
    if k in ("flat", "rect", "dmd", "dmd_rect", "ideal", "collimate", "focus", "grating", "detector"):
        h = flat_hit(e, p, d, tol, start_tol)
        if not h:
            return None
        return h[0][0], h[0][1], unit(V(e["n"])), None
    if k == "concave":
        n = unit(V(e["n"]))
        R = 2 * e["f"]
        c = along(V(e["pos"]), n, R)
        ts = sphere_ts(p, d, c, R, tol)
        for t in ts:
            if start_tol > abs(t) > 1e-3 * start_tol:
                raise Ambiguous("starts next to a surface")
        for t in ts:
            if t <= start_tol:
                continue
            x = along(p, d, t)
            edge = cap_edge(e, n, x)
            if abs(edge) < tol * max(1.0, 1 / max(abs(dot(d, sub(x, c))) / R, 1e-3)):
                raise Ambiguous("at an edge")
            if edge < 0:
                return t, x, unit(sub(c, x)), None
        return None
    if k in ("convex", "ball"):
        c, R = V(e["pos"]), e["D"] / 2
        ts = sphere_ts(p, d, c, R, tol)
        for t in ts:
            if start_tol > abs(t) > 1e-3 * start_tol:
                raise Ambiguous("starts next to a surface")
        ahead = [t for t in ts if t > start_tol]
        if not ahead:
            return None
        x = along(p, d, ahead[0])
        return ahead[0], x, unit(sub(x, c)), {"entering": len(ahead) == 2}
    if k == "compound":
        xs = solid_crossings(e["tree"], p, d, tol, start_tol)
        if not xs:
            return None
        t, leaf, entering = xs[0]
        x = along(p, d, t)
        return t, x, leaf_normal(leaf, x), {"entering": entering}
    raise ValueError(k)


def element_act(e, p, d, x, n, info, ray):
    """-> (new direction, absorbed)"""
    nd, absorbed = raw_act(e, p, d, x, n, info, ray)
    if nd is not None and not absorbed:
        # rounding in the vertex, seen along a grazing departure, may put the same surface ahead of the ray again
        big = max(abs(c) for v in (p, x) for c in v)
        if abs(dot(nd, unit(n))) < max(1e-5, 2e-6 * big):
            raise Ambiguous("leaves along the surface")
    return nd, absorbed


def raw_act(e, p, d, x, n, info, ray):
    k = e["k"]
    if ray.get("probe"):
        return d, True
    if k in ("flat", "rect", "concave", "convex"):
        return reflect(d, n), False
    if k in ("dmd", "dmd_rect"):
        return reflect(d, V(e["dn"])), False
    if k == "detector":
        return d, True
    if k == "grating":
        m = ray.get("order", 0)
        if m == 0:
            return reflect(d, n), False
        out = grating_out(d, n, tangent_of(e), e["G"], m, ray["wavelength"])
        if out is None:
            return None, True
        return out, False
    if k == "ideal":
        return thin_lens(d, n, sub(x, V(e["pos"])), e["f"]), False
    if k == "collimate":
        n = unit(V(e["n"]))
        if abs(dot(n, d)) < 1e-6:
            raise Ambiguous("grazes a lens")
        return (n if dot(n, d) > 0 else neg(n)), False
    if k == "focus":
        n = unit(V(e["n"]))
        if abs(dot(n, d)) < 1e-6:
            raise Ambiguous("grazes a lens")
        n = n if dot(n, d) > 0 else neg(n)
        return unit(sub(along(V(e["pos"]), n, e["f"]), x)), False
    if k == "ball" or (k == "compound" and e.get("behavior") == "refract"):
        n1, n2 = (1.0, e["index"]) if info["entering"] else (e["index"], 1.0)
        return refract(d, n, n1, n2)[0], False
    if k == "compound":
        return reflect(d, n), False
    raise ValueError(k)


def first_hit(scene, p, d, remaining, tol=1e-6, start_tol=1e-6):
    """Nearest interaction within `remaining`: None or (index, t, point, normal, info).
    Raises Ambiguous when something nearby cannot be decided and could matter."""
    hits, unclear = [], []
    for i, e in enumerate(scene):
        try:
            h = element_hit(e, p, d, tol, start_tol)
        except Ambiguous as a:
            unclear.append(a)
            continue
        if h is not None:
            hits.append((h[0], i, h))
    if unclear:
        raise unclear[0]
    hits.sort(key=lambda h: h[0])
    if not hits:
        return None
    t, i, h = hits[0]
    if len(hits) > 1 and hits[1][0] - t < tol:
        raise Ambiguous("two elements tie")
    if abs(t - remaining) < tol:
        raise Ambiguous("surface at the distance limit")
    if t > remaining:
        return None
    return i, h[0], h[1], h[2], h[3]


def trace(scene, ray, distance, max_steps=10000, tol=1e-6):
    """Full reference trace; used to build scenes and predict histories.
    -> list of (point, direction after, element index or None), absorbed"""
    p, d = V(ray["pos"]), unit(V(ray["dir"]))
    out = [(p, d, None)]
    left = distance
    for _ in range(max_steps):
        if left <= 0:
            return out, False
        h = first_hit(scene, p, d, left, tol)
        if h is None:
            out.append((along(p, d, left), d, None))
            return out, False
        i, t, x, n, info = h
        nd, absorbed = element_act(scene[i], p, d, x, n, info, ray)
        left -= t
        out.append((x, nd, i))
        if absorbed:
            return out, True
        p, d = x, nd
    return out, False


def surface_distance(e, p):
    """Distance of a point from the element's active surface (or a lower bound of it)."""
    k = e["k"]
    if k in TRANSPARENT:
        return math.inf
    if k in ("convex", "ball"):
        return abs(dist(p, V(e["pos"])) - e["D"] / 2)
    if k == "compound":
        return min(abs(leaf_depth(l, p)) for l in leaves(e["tree"]))
    n = unit(V(e["n"]))
    r = sub(p, V(e["pos"]))
    if k == "concave":
        R = 2 * e["f"]
        return max(abs(dist(p, along(V(e["pos"]), n, R)) - R), cap_edge(e, n, p))
    off = abs(dot(r, n))
    if e.get("w") is not None:
        t = tangent_of(e)
        return max(off, abs(dot(r, t)) - e["h"] / 2, abs(dot(r, cross(n, t))) - e["w"] / 2)
    return max(off, norm(r) - e["D"] / 2)


def gap_to_surfaces(scene, p):
    return min([surface_distance(e, p) for e in scene] or [math.inf])


def mat_vec(M, v):
    return tuple(dot(row, v) for row in M)


def rotation(axis, angle):
    """Rodrigues: counter-clockwise by angle about axis."""
    a = unit(axis)
    c, s = math.cos(angle), math.sin(angle)
    cols = []
    for e in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)):
        v = add(add(mul(e, c), mul(cross(a, e), s)), mul(a, dot(a, e) * (1 - c)))
        cols.append(v)
    return tuple(tuple(cols[j][i] for j in range(3)) for i in range(3))
