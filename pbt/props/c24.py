"""C24: wavelength-to-colour mapping is bounded, clamped and continuous."""
import math

import numpy as np

from .. import build, gen
from ..core import Sub, require

RULE = "Wavelengths from 1 to 1e5 nm with the band limits and their neighbourhoods over-represented; gamma 0.05..5; floors and ceilings anywhere."
RGB = build.gen_.wavelength_to_rgb
LIMITS = [380, 440, 490, 510, 580, 645, 750]


def wave(s, lo=1.0, hi=1e5):
    k = s.byte()
    if k < 110:
        w = s.lattice(370, 760)
    elif k < 140:
        w = float(s.pick(LIMITS))
    elif k < 200:
        w = s.pick(LIMITS) + s.pick([-1, 1]) * 10.0 ** -s.int(0, 13) * s.lattice(0, 5)
    elif k < 230:
        w = s.real(300, 900)
    else:
        w = s.log(1, 1e5)
    return min(max(w, lo), hi)


def gamma(s):
    return s.weighted((2, 0.8), (1, 1), (4, lambda s: s.log(0.05, 5)))


def colour(c, w, **kw):
    t = RGB(w, **kw)
    require(len(t) == 3, "the colour of %r is %r", w, t)
    t = [float(x) for x in t]
    require(all(math.isfinite(x) and 0 <= x <= 1 for x in t), "the colour of %r (%s) is %s", w, kw, t)
    return t


def range_case(s):
    c = {"w": wave(s), "as": s.pick(["float", "int", "np"])}
    if s.bool(0.7):
        c["gamma"] = gamma(s)
    if s.bool(0.5):
        c["floor_wave"] = s.weighted((2, lambda s: s.int(1, 1200)), (2, wave))
    if s.bool(0.5):
        lo = c.get("floor_wave", 380)
        c["ceiling_wave"] = max(lo, s.weighted((2, lambda s: s.int(1, 1500)), (2, wave)))
    if "floor_wave" in c and "ceiling_wave" not in c and c["floor_wave"] > 750:
        c["ceiling_wave"] = c["floor_wave"] + 10
    return c


def o_range(c):
    kw = {k: c[k] for k in ("gamma", "floor_wave", "ceiling_wave") if k in c}
    w = c["w"]
    if c["as"] == "int":
        w = int(round(w))
    given = np.float64(w) if c["as"] == "np" else w
    got = colour(c, given, **kw)
    require(got == colour(c, given, **kw), "two different colours for %r", w)
    lo, hi = c.get("floor_wave", 380), c.get("ceiling_wave", 750)
    out = w < lo or w > hi
    if out:
        edge = colour(c, lo if w < lo else hi, **kw)
        require(got == edge, "%r outside %r..%r has the colour %s, the limit has %s", w, lo, hi, got, edge)
    else:  # inside, the limits do not matter
        free = colour(c, w, **dict({k: v for k, v in kw.items() if k == "gamma"}, floor_wave=-1e9, ceiling_wave=1e9))
        require(got == free, "%r within %r..%r has the colour %s, without limits %s", w, lo, hi, got, free)
    if "gamma" not in c:
        require(got == colour(c, given, **dict(kw, gamma=0.8)), "gamma is not 0.8 when left out")
    if "floor_wave" not in c and "ceiling_wave" not in c:
        require(got == colour(c, given, **dict(kw, floor_wave=380, ceiling_wave=750)), "the default limits are not 380 and 750")
    return ["nt", "clamped"] if out else ["nt"]


def cont_case(s):
    a = min(max(wave(s), 380.0), 750.0)
    k = s.byte()
    if k < 60:
        b = min(max(wave(s), 380.0), 750.0)
    else:
        b = a + s.pick([-1, 1]) * 10.0 ** -s.int(0, 12) * s.lattice(0, 3)
    if s.bool(0.4):  # either side of a limit
        m = s.pick(LIMITS[1:-1])
        a, b = m - 10.0 ** -s.int(0, 13) * s.lattice(0, 3), m + 10.0 ** -s.int(0, 13) * s.lattice(0, 3)
    return {"a": a, "b": min(max(b, 380.0), 750.0), "gamma": gamma(s)}


def o_cont(c):
    """No jumps. The steepest band spans 20 nm, so the part that gamma is applied to changes by at most 1/20 per nm; around the two ends
    an intensity factor adds at most 0.7/60 per nm: 0.065 per nm in all."""
    a, b, g = c["a"], c["b"], c["gamma"]
    ca, cb = colour(c, a, gamma=g), colour(c, b, gamma=g)
    d = abs(a - b)
    bound = (0.065 * d) ** g if g <= 1 else g * 0.065 * d
    bound += 1e-12 + 4 * 1.2e-15 ** min(g, 1)  # the band limits are met to rounding: (1e-15)**gamma
    for x, y, n in zip(ca, cb, "RGB"):
        # across several bands: the parts add up
        require(abs(x - y) <= bound * (1 if d < 20 else 7), "%s jumps from %r at %r nm to %r at %r nm (gamma %r)", n, x, a, y, b, g)
    return ["nt"] if a != b else []


def hue_case(s):
    return {"w": min(max(wave(s), 380.0), 750.0), "w2": min(max(wave(s), 380.0), 750.0), "gamma": gamma(s)}


def o_hue(c):
    w, g = c["w"], c["gamma"]
    R, G, B = colour(c, w, gamma=g)
    eps = 1e-12
    if 440 <= w <= 510:
        require(R <= eps, "red is %r at %r nm", R, w)
    if w <= 440:
        require(G <= eps, "green is %r at %r nm", G, w)
    if 380 <= w <= 490:
        require(B >= max(R, G) - eps, "blue does not dominate at %r nm: %s", w, (R, G, B))
    if 490 <= w <= 580:
        require(G >= max(R, B) - eps, "green does not dominate at %r nm: %s", w, (R, G, B))
    if 580 <= w:
        require(R >= max(G, B) - eps, "red does not dominate at %r nm: %s", w, (R, G, B))
    if w >= 645:
        require(G <= eps and B <= eps and R > 0, "%r nm has the colour %s", w, (R, G, B))
    top = max(R, G, B)
    require(top > 0, "black at %r nm", w)
    if 440 <= w <= 645:
        require(abs(top - 1) < 1e-9, "the brightest component is %r at %r nm", top, w)
    # tapering towards the ends
    w2 = c["w2"]
    t2 = max(colour(c, w2, gamma=g))
    if max(w, w2) <= 440 and w2 >= w:
        require(t2 >= top - eps, "brighter at %r nm than at %r nm: %r, %r", w, w2, top, t2)
        if w2 - w > 5:
            require(t2 > top, "no taper from %r to %r nm", w2, w)
    if min(w, w2) >= 645 and w2 >= w:
        require(t2 <= top + eps, "darker at %r nm than at %r nm: %r, %r", w, w2, top, t2)
        if w2 - w > 5:
            require(t2 < top, "no taper from %r to %r nm", w, w2)
    # the colour of one wavelength at other gammas is a power of itself
    R1, G1, B1 = colour(c, w, gamma=1.0)
    for x, y, n in zip((R, G, B), (R1, G1, B1), "RGB"):
        require(abs(x - y ** g) < 1e-9, "%s at %r nm is %r with gamma %r but %r with gamma 1", n, w, x, g, y)
    return ["nt"]


SUBS = [
    Sub("range", lambda: gen.decoded(range_case, 40), o_range, quick=8000, shards=2, thorough=200000, rule="every wavelength"),
    Sub("continuous", lambda: gen.decoded(cont_case, 40), o_cont, quick=10000, shards=2, thorough=200000, rule="two different wavelengths"),
    Sub("hue", lambda: gen.decoded(hue_case, 40), o_hue, quick=8000, shards=2, thorough=200000, rule="every wavelength"),
]
