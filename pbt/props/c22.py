"""C22: elements accept valid descriptions, reject bad ones and can be printed."""
import itertools
import math
import re
from decimal import Decimal

import numpy as np

from .. import build, gen, ref
from ..core import Sub, Skip, require

RULE = "Combinations of present, absent, agreeing, conflicting and negative parameters over every shape and element; whole-number and float arrays."
S, O = build.shapes, build.o3d


def must_reject(what, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except ValueError:
        return
    require(False, "%s was accepted: %s", what, type(r).__name__)


def fl(x):
    return float(x)


# ---------------------------------------------------------------- round shapes
def round_case(s):
    c = {"shape": s.pick(["sphere", "circle", "circle_plain", "infinite", "cylinder"]), "pos": gen.big_vec(s), "n": gen.direction(s)}
    R = s.weighted((3, lambda s: s.num(0.01, 100)), (1, lambda s: s.int(1, 50)), (2, lambda s: s.log(1e-3, 1e4)))
    k = s.pick(["R", "D", "both", "both", "conflict", "conflict", "neither"])
    if k in ("R", "both"):
        c["R"] = R
    if k in ("D", "both"):
        c["D"] = R * 2
    if k == "conflict":
        c["R"] = R
        c["D"] = R * s.pick([1, 2.001, 1.999, 4, 0.5, 2.1, 3, -2, 0])
        if not c["D"] and s.bool():
            c["R"], c["D"] = 0, c["R"]
    c["k"] = k
    if c["shape"] == "cylinder" and s.bool(0.7):
        c["h"] = s.weighted((2, lambda s: s.log(1e-3, 1e4)), (1, lambda s: s.int(1, 50)))
    return c


def make_round(c):
    kw = {x: c[x] for x in ("R", "D") if x in c}
    pos, n = build.arr(c["pos"]), build.arr(c["n"])
    return {"sphere": lambda: S.Sphere(pos, **kw), "circle": lambda: S.Circle(pos, n, **kw), "circle_plain": lambda: S.Circle(pos, **kw),
            "infinite": lambda: S.InfiniteCylinder(pos, n, **kw), "cylinder": lambda: S.Cylinder(pos, **dict(kw, **{"h": c["h"]} if "h" in c else {}))}[c["shape"]]


def o_round(c):
    mk = make_round(c)
    if c["k"] == "neither":
        must_reject("a %s without radius or diameter" % c["shape"], mk)
        return ["nt", "neither"]
    if c["k"] == "conflict":
        if abs(c["D"] - 2 * c["R"]) < 1e-5 + 1e-5 * abs(c["D"]):
            raise Skip("too close to agreement to call a conflict")
        must_reject("a %s with radius %r and diameter %r" % (c["shape"], c["R"], c["D"]), mk)
        return ["nt", "conflict"]
    sh = mk()
    R = c["R"] if "R" in c else c["D"] / 2
    require(abs(fl(sh.R) - R) <= 1e-12 * R and abs(fl(sh.D) - 2 * R) <= 1e-12 * R, "%s given as %s has R %r and D %r", c["shape"],
            {k: c[k] for k in ("R", "D") if k in c}, sh.R, sh.D)
    require(ref.dist(build.vec(sh.center), ref.V(c["pos"])) == 0, "the centre is %s, given as %s", sh.center, c["pos"])
    if c["shape"] == "circle":
        check_unit(sh.normal, c["n"], "the disc's normal")
    if c["shape"] == "infinite":
        check_unit(sh.direction, c["n"], "the cylinder's direction")
    require(isinstance(repr(sh), str) and repr(sh) and isinstance(str(sh), str), "repr of a %s is %r", c["shape"], repr(sh))
    return ["nt", c["k"]]


def check_unit(got, given, what):
    g = build.vec(got, what)
    require(abs(ref.norm(g) - 1) < 1e-12, "%s has length %r", what, ref.norm(g))
    require(ref.dist(g, ref.unit(ref.V(given))) < 1e-12, "%s is %s, given as %s", what, g, given)


# ---------------------------------------------------------------- rectangles
def rect_case(s):
    n = gen.direction(s)
    e = {"n": n, "roll": gen.roll(s)}
    c = {"pos": gen.big_vec(s), "n": n, "t": list(ref.tangent_of({"n": n, "roll": e["roll"], "w": 1, "h": 1})),
         "tl": s.weighted((2, 1.0), (3, lambda s: s.log(1e-3, 1e3)), (1, lambda s: 1 + s.log(1e-10, 1e-1) * s.pick([1, -1]))), "el": s.pick(["shape", "shape", "mirror", "grating", "detector"])}
    c["w"], c["h"] = [s.weighted((3, lambda s: s.pos(0.01, 300)), (1, lambda s: s.int(1, 60))) for _ in range(2)]
    bad = s.pick([None, None, None, "no w", "no h", "no w no h", "neg w", "neg h", "neg w neg h", "skew", "skew"])
    if bad == "skew":
        c["skew"] = s.weighted((2, lambda s: s.lattice(-1, 1) or 1.0), (2, lambda s: s.log(2e-5, 1) * s.pick([1, -1])))
        if abs(c["skew"]) < 2e-5:
            c["skew"] = 2e-5
    c["bad"] = bad
    if bad and "neg" in bad and s.bool(0.5):
        c["w"], c["h"] = [s.log(1e-6, 1e-1) if "neg " + x in bad else c[x] for x in "wh"]
    return c


def o_rect(c):
    t = ref.mul(ref.V(c["t"]), c["tl"])
    if c["bad"] == "skew":
        # a tangent leaning towards the normal; by a fifty-thousandth or more
        t = ref.mul(ref.add(ref.unit(ref.V(c["t"])), ref.mul(ref.unit(ref.V(c["n"])), c["skew"])), c["tl"])
    kw = {"w": c["w"], "h": c["h"]}
    if c["bad"] in ("no w", "no w no h"):
        del kw["w"]
    if c["bad"] in ("no h", "no w no h"):
        del kw["h"]
    if c["bad"] in ("neg w", "neg w neg h"):
        kw["w"] = -kw["w"]
    if c["bad"] in ("neg h", "neg w neg h"):
        kw["h"] = -kw["h"]
    pos, n, t_ = build.arr(c["pos"]), build.arr(c["n"]), np.array(t)
    k3 = [x.copy() for x in (pos, n, t_)]
    mk = {"shape": lambda: S.Rectangle(pos, n, t_, **kw), "mirror": lambda: O.Mirror(pos, shape="rectangular_flat", normal=n, tangent=t_, **kw),
          "grating": lambda: O.Grating(pos, n, t_, G=600, **kw), "detector": lambda: O.Detector(pos, n, t_, **kw)}[c["el"]]
    if c["bad"]:
        must_reject("a rectangular %s with %s (normal %s, tangent %s, %s)" % (c["el"], c["bad"], c["n"], t, kw), mk)
        return ["nt", c["bad"]]
    el = mk()
    r = el if c["el"] == "shape" else el.surfaces[0]
    nu, tu = ref.unit(ref.V(c["n"])), ref.unit(t)
    acc = ref.cross(nu, tu)
    want = [ref.add(ref.V(c["pos"]), ref.add(ref.mul(tu, a * c["h"] / 2), ref.mul(acc, b * c["w"] / 2))) for a, b in itertools.product((1, -1), (1, -1))]
    B = np.asarray(r.bounds, dtype=float)
    require(B.shape == (4, 3), "the corners have shape %s", B.shape)
    tol = 1e-12 * (1 + max(abs(x) for x in c["pos"]) + c["w"] + c["h"])
    got = [tuple(float(x) for x in row) for row in B]
    for p in want:
        require(min(ref.dist(p, q) for q in got) < tol, "no corner at %s: the corners are %s", p, got)
    for q in got:
        require(min(ref.dist(p, q) for p in want) < tol, "a corner at %s, expected one of %s", q, want)
    # around the edge: neighbours differ by a side
    for q, q2 in zip(got, got[1:] + got[:1]):
        require(ref.dist(q, q2) < max(c["w"], c["h"]) + tol, "the corners are not listed around the edge: %s", got)
    check_unit(r.normal, c["n"], "the rectangle's normal")
    check_unit(r.tangent, t, "the rectangle's tangent")
    if c["el"] != "shape":
        check_unit(el.normal, c["n"], "the element's normal")
    require(fl(r.w) == c["w"] and fl(r.h) == c["h"], "sides %r, %r were stored as %r, %r", c["w"], c["h"], r.w, r.h)
    require(all(np.array_equal(a, b) for a, b in zip(k3, (pos, n, t_))), "building changed its arguments")
    return ["nt", "accepted"]


# ---------------------------------------------------------------- unknown kinds
JUNK = ["", "flat", "circular", "rectangular", "Circular_flat", "circular_flat ", "sphere", "CIRCULAR_FLAT", "rectangular_convex", "hexagonal", "xyz",
        "cylindrical", "biconvex", "circular_concave", "circular_convex"]
GOOD = {"mirror": ["circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical"],
        "lens": ["spherical_biconvex", "spherical"], "grating": ["rectangular_flat"], "detector": ["rectangular_flat"]}


def unknown_case(s):
    k = s.pick(["mirror", "lens", "grating", "detector", "compound", "reflect", "refract"])
    junk = s.weighted((3, lambda s: s.pick(JUNK)), (1, lambda s: "".join(s.pick("abcdefg_") for _ in range(s.int(1, 12)))),
                      (2, lambda s: s.pick(GOOD["mirror"] + GOOD["lens"])))
    n = gen.direction(s)
    return {"k": k, "shape": junk, "pos": gen.vec(s), "n": n, "t": list(ref.tangent_of({"n": n, "roll": gen.roll(s), "w": 1, "h": 1})), "D": s.num(1, 40),
            "f": s.num(50, 90), "probe": s.bool(0.2)}


def o_unknown(c):
    pos, n, t = build.arr(c["pos"]), build.arr(c["n"]), np.array(c["t"])
    k, sh = c["k"], c["shape"]
    kw = dict(D=c["D"], w=c["D"], h=c["D"], f=c["f"], tangent=t)
    if k in GOOD:
        if sh in GOOD[k]:
            raise Skip("a known shape")
        mk = {"mirror": lambda: O.Mirror(pos, shape=sh, normal=n, **kw), "lens": lambda: O.Lens(pos, normal=n, shape=sh, **kw),
              "grating": lambda: O.Grating(pos, n, t, shape=sh, w=c["D"], h=c["D"], G=600),
              "detector": lambda: O.Detector(pos, n, t, shape=sh, w=c["D"], h=c["D"])}[k]
        must_reject("a %s of shape %r" % (k, sh), mk)
    elif k == "compound":
        if sh in ("reflect", "refract"):
            raise Skip("a known behaviour")

        def use():
            o = O.Compound(build.go.BinaryTree(S.Sphere(pos, R=c["D"])), surface_behavior=sh, index=1.5)
            r = O.Ray(pos + np.array([0.0, 0.0, 3 * c["D"]]), np.array([0.0, 0.0, -1.0]))
            r.run(5 * c["D"], [o])
            return r
        must_reject("a compound behaving as %r" % sh, use)
    elif k == "reflect":
        must_reject("reflecting as %r" % sh, lambda: O.Ray(pos, n).reflect(reflect_type=sh, normal=n, intersection_pt=pos))
    else:
        must_reject("refracting as %r" % sh, lambda: O.Ray(pos, n).refract(refract_type=sh, normal=n, intersection_pt=pos, eta1=1, eta2=1.5))
    return ["nt", k]


# ---------------------------------------------------------------- optional parameters
def optional_case(s):
    n = gen.direction(s)
    return {"k": s.pick(["flat", "rect", "concave", "convex", "thin", "ball", "grating", "detector", "compound", "ray", "annotation", "filter", "window"]),
            "pos": gen.big_vec(s), "n": n, "t": list(ref.tangent_of({"n": n, "roll": gen.roll(s), "w": 1, "h": 1})), "D": s.pos(0.1, 100),
            "with": s.below(65536)}


def o_optional(c):
    """each optional parameter given or left out, at random; the element works either way"""
    pos, n, t = build.arr(c["pos"]), build.arr(c["n"]), np.array(c["t"])
    D = c["D"]
    bits = iter([(c["with"] >> i) & 1 for i in range(16)])

    def opt(**kw):
        return {k: v for k, v in kw.items() if next(bits)}
    k = c["k"]
    if k == "flat":
        el = O.Mirror(pos, normal=n, D=D, **opt(shape="circular_flat", thickness=5, type="normal", dmd_normal=n, w=None, h=None, f=None, tangent=t))
    elif k == "rect":
        el = O.Mirror(pos, shape="rectangular_flat", normal=n, tangent=t, w=D, h=D, **opt(thickness=1, type="normal", dmd_normal=n, D=None, f=3.0))
    elif k == "concave":
        el = O.Mirror(pos, shape="circular_concave_spherical", normal=n, D=D, f=2 * D, **opt(thickness=1, type="normal", dmd_normal=n, w=1, tangent=t))
    elif k == "convex":
        el = O.Mirror(pos, shape="circular_convex_spherical", D=D, **opt(normal=n, thickness=1, type="normal", dmd_normal=n, f=2 * D))
    elif k == "thin":
        el = O.Lens(pos, normal=n, D=D, f=D, type="ideal", **opt(shape="spherical_biconvex", w=None, h=None, tangent=t, index=1.6))
    elif k == "ball":
        el = O.Lens(pos, shape="spherical", D=D, **opt(normal=n, index=1.6, type="normal", f=3.0, w=None, tangent=t))
    elif k == "grating":
        el = O.Grating(pos, n, t, w=D, h=D, G=600, **opt(shape="rectangular_flat", order=1))
    elif k == "detector":
        el = O.Detector(pos, n, t, w=D, h=D, **opt(shape="rectangular_flat"))
    elif k == "compound":
        el = O.Compound(build.go.BinaryTree(S.Sphere(pos, D=D)), **opt(surface_behavior="refract", index=2))
    elif k == "ray":
        el = O.Ray(pos, n, **opt(wavelength=633, order=1, print_trajectory=True, type="normal"))
        require(not el.blocked, "a new ray is blocked")
        require(build.history(el) == [ref.V(c["pos"])], "a new ray has the history %s", el.point_history)
        check_unit(el.direction, c["n"], "the ray's direction")
        return ["nt", k]
    else:
        el = {"annotation": O.Annotation, "filter": O.Filter, "window": O.Window}[k](pos, n, "circular_flat")
    if k in ("flat", "rect", "concave", "thin", "grating", "detector", "annotation", "filter", "window"):
        check_unit(el.normal, c["n"], "the %s's normal" % k)
    # it works in a scene
    r = O.Ray(pos + 3 * D * np.array(ref.unit(ref.V(c["n"]))) + np.array(c["t"]) * D * 0.01, -n)
    build.run(r, 10 * D, [el])
    met = len(build.history(r)) > 2 or r.blocked
    if k in ("annotation", "filter", "window"):
        require(not met, "a %s turned a ray", k)
    else:
        require(met, "a ray straight at a %s does not meet it", k)
    require(repr(el), "an empty text")
    return ["nt", k]


# ---------------------------------------------------------------- texts
NUM = re.compile(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?")


def repr_case(s):
    big = s.pick([1, 1, 1, 1e-3, 1e3, 1e5, 1e-6])
    k = s.pick(["ray", "element", "element", "element", "flown", "annotation", "filter", "window", "optic", "block", "shape"])
    c = {"k": k, "pos": [x * big for x in gen.big_vec(s)], "n": gen.direction(s), "kind": s.pick([x for x in gen.KINDS if x not in ("annotation", "filter", "window")])}
    if s.bool(0.3):  # about to round up, or exactly halfway
        c["pos"][s.below(3)] = s.pick([1, -1]) * s.pick([9.99996, 99999.4, 99999.6, 0.99999501, 123455.0, 0.000999996, 1e-3, 99.9995, 0.01, 0.0099999]) * s.pick([1, 10, 0.1])
    c["roll"], c["D"], c["f"] = gen.roll(s), s.num(1, 40), s.num(50, 100)
    return c


def check_text(txt, vals, what):
    require(isinstance(txt, str), "%s prints as %r", what, txt)
    toks = NUM.findall(re.sub(r"^[A-Za-z_]+", "", txt))
    require(len(toks) == len(vals), "%s prints as %r, with %d numbers; it has %d", what, txt, len(toks), len(vals))
    for t, v in zip(toks, vals):
        x = Decimal(t)
        d = Decimal(v)
        if d == 0:
            require(x == 0, "%s prints as %r: %s for %r", what, txt, t, v)
            continue
        unit = Decimal(10) ** (d.adjusted() - 4)
        require(abs(x - d) <= unit * Decimal("0.5000001"), "%s prints as %r: %s for %r", what, txt, t, v)
        digits = re.sub(r"[eE].*", "", t).lstrip("+-").replace(".", "").lstrip("0")
        require(len(digits) == 5, "%s prints as %r: %s for %r has not five significant digits", what, txt, t, v)


def o_repr(c):
    pos, n = build.arr(c["pos"]), build.arr(c["n"])
    P = [float(x) for x in c["pos"]]
    N = [float(x) for x in n / np.linalg.norm(n)]
    k = c["k"]
    if k == "ray":
        r = O.Ray(pos, n)
        check_text(repr(r), P + list(build.direction(r)), "a ray")
        check_text(str(r), P + list(build.direction(r)), "a ray")
        return ["nt", k]
    if k == "flown":
        r = O.Ray(pos, n)
        r.fly(c["D"])
        r.reflect(normal=np.array([0.3, -0.2, 1.0]))
        check_text(repr(r), list(build.vec(r.position)) + list(build.direction(r)), "a ray")
        return ["nt", k]
    if k == "shape":
        nn = list(ref.tangent_of({"n": c["n"], "roll": 0, "w": 1, "h": 1}))
        for sh in (S.Plane(pos, n), S.Circle(pos, n, D=c["D"]), S.Circle(pos, D=c["D"]), S.Sphere(pos, D=c["D"]), S.InfiniteCylinder(pos, n, R=c["D"]),
                   S.Cylinder(pos, R=c["D"], h=2), S.Rectangle(pos, n, np.array(nn), w=1, h=2), S.Shape(pos)):
            require(isinstance(repr(sh), str) and repr(sh) and str(sh), "%s prints as %r", type(sh).__name__, repr(sh))
        return ["nt", k]
    if k in ("annotation", "filter", "window", "optic", "block"):
        el = {"annotation": O.Annotation, "filter": O.Filter, "window": O.Window, "optic": O.Optic, "block": O.Block}[k](pos, n, "circular_flat")
    else:
        e = {"k": c["kind"], "pos": c["pos"], "n": c["n"], "D": c["D"], "w": c["D"], "h": c["D"] + 1, "roll": c["roll"], "f": c["f"], "index": 1.5, "G": 600,
             "dn": c["n"]}
        if c["kind"] == "compound":
            e = {"k": "compound", "tree": {"s": "sphere", "c": c["pos"], "R": c["D"]}}
        el = build.element(e)
        if c["kind"] == "compound":
            require(isinstance(repr(el), str) and repr(el), "a compound prints as %r", repr(el))
            return ["nt", "compound"]
        k = c["kind"]
    has_dir = getattr(el, "normal", None) is not None
    check_text(repr(el), P + (list(build.vec(el.normal)) if has_dir else []), "a %s" % k)
    require(has_dir == (k not in ("convex", "ball")), "a %s %s a direction", k, "has" if has_dir else "has not")
    return ["nt", k]


SUBS = [
    Sub("round", lambda: gen.decoded(round_case, 50), o_round, quick=6000, shards=2, rule="every combination"),
    Sub("rectangle", lambda: gen.decoded(rect_case, 60), o_rect, quick=6000, shards=2, rule="every combination"),
    Sub("unknown", lambda: gen.decoded(unknown_case, 60), o_unknown, quick=4000, shards=1, rule="every unknown kind"),
    Sub("optional", lambda: gen.decoded(optional_case, 50), o_optional, quick=4000, shards=2, rule="every combination"),
    Sub("text", lambda: gen.decoded(repr_case, 60), o_repr, quick=6000, shards=2, rule="every element"),
]
