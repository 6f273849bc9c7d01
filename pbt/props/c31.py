"""C31: light paths are reversible."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of
from .c11 import o_retrace

RULE = "Scenes of mirrors, ideal and ball lenses, solids and gratings; the ray is sent back along its last direction."

KINDS = ["flat", "rect", "dmd", "dmd_rect", "concave", "convex", "ball", "compound", "compound", "ideal", "ideal", "annotation", "filter", "window", "grating"]


def zero_order(case):
    case["ray"]["order"] = 0
    case["ray"].pop("verbose", None)
    return case


def graze(d, n):
    return abs(ref.dot(d, ref.unit(n))) < 0.05


def o_grating(case):
    """Through orders of gratings: the way back needs the order seen from the other side."""
    scene, ray = case["scene"], case["ray"]
    r, optics = build.ray(ray), build.scene(scene)
    try:
        want, absorbed = ref.trace(scene, ray, case["distance"], 30)
        back_order = None
        n = 0
        for (p, d, _), (x, nd, i) in zip(want, want[1:]):
            if i is None:
                continue
            n += 1
            e = scene[i]
            h = ref.element_hit(e, p, d, 1e-6, 1e-6)
            if nd is None:
                raise ref.Ambiguous("an order that cannot leave")
            if h is None or graze(d, h[2]) or graze(nd, h[2]):
                raise ref.Ambiguous("grazing")
            if ref.dist(p, x) < 1e-2:
                raise ref.Ambiguous("very short flight")
            if e["k"] == "grating":
                g, t = ref.unit(ref.V(e["n"])), ref.tangent_of(e)
                w = ref.cross(g, t)
                a, b = -ref.dot(d, w), ref.dot(nd, w)   # where it came from, and where it goes
                if min(abs(a), abs(b)) < 1e-4:
                    raise ref.Ambiguous("along the normal")
                m = ray["order"] if a * b > 0 else -ray["order"]
                if back_order not in (None, m):
                    raise ref.Ambiguous("two gratings need two orders")
                back_order = m
    except ref.Ambiguous as a:
        raise Skip(str(a))
    if absorbed or back_order is None:
        return []
    build.run(r, case["distance"], optics)
    h = build.history(r)
    require(not r.blocked and len(h) == len(want), "the way out has %d points, expected %d", len(h), len(want))
    flown = math.fsum(ref.dist(a, b) for a, b in zip(h, h[1:]))
    back = {"pos": list(h[-1]), "dir": list(ref.neg(build.direction(r))), "wavelength": ray["wavelength"], "order": back_order}
    try:
        bt, _ = ref.trace(scene, back, flown, 60)
        for (p, d, _), (x, nd, i) in zip(bt, bt[1:]):
            if i is not None and ref.dist(p, x) < 1e-3:
                raise ref.Ambiguous("very short flight")
    except ref.Ambiguous as a:
        raise Skip("back: " + str(a))
    b = build.ray(back)
    build.run(b, flown, build.scene(scene))
    hb = build.history(b)
    sc = scale_of(h)
    tol = 1e-7 * sc * 10 ** min(n, 4)
    require(len(hb) == len(h), "%d points on the way out, %d on the way back: %s and %s", len(h), len(hb), h, hb)
    for k, (x, y) in enumerate(zip(h, reversed(hb))):
        require(ref.dist(x, y) <= tol, "the way back passes %s instead of %s (point %d of %d)", y, x, k, len(h))
    return ["nt"] + (["several elements"] if n > 1 else [])


def decode_grating(base):
    """Fine gratings and long waves send no light into the orders: scale both down."""
    ray = base["ray"]
    if ray.get("order", 0) == 0:
        ray["order"] = 1
    ray.pop("verbose", None)
    while ray["wavelength"] * abs(ray["order"]) > 1200:
        ray["wavelength"] = ray["wavelength"] / 2
    for e in base["scene"]:
        if e["k"] == "grating" and e["G"] > 700:
            e["G"] = e["G"] / 2
    return base


SUBS = [
    Sub("scenes", lambda: gen.sized(st.one_of(gen.chain(5, KINDS, extra=1), gen.box(6, KINDS))).map(zero_order), o_retrace, quick=5000, shards=4, thorough=80000,
        rule="at least one interaction, retraced"),
    Sub("gratings", lambda: st.one_of(gen.chain(1, ["grating"], extra=0), gen.chain(4, ["grating", "grating", "flat", "rect", "window"], extra=1)).map(decode_grating), o_grating, quick=4000, shards=2, thorough=60000,
        rule="an order of a grating, retraced"),
]
