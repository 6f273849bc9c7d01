"""Generators. A case is decoded from a byte string that Hypothesis draws and shrinks (one draw
per element instead of one per number, so that thousands of scenes per second can be made; and
the same decoders can be fed by a coverage-guided fuzzer). Zero bytes decode to the simplest
value everywhere, so shrinking bytes shrinks cases.

Numbers are mostly on a 1/1000 lattice (readable counterexamples), with whole numbers (which
become integer arrays, as in the demo scripts) and full-precision floats mixed in.
"""
import math

from . import consts, env, ref
from hypothesis import strategies as st


class Src:
    """Structured values out of bytes; runs out into zeros."""

    def __init__(self, data):
        self.d = data
        self.i = 0

    def byte(self):
        i = self.i
        self.i = i + 1
        return self.d[i] if i < len(self.d) else 0

    def u16(self):
        return self.byte() << 8 | self.byte()

    def u24(self):
        return self.byte() << 16 | self.byte() << 8 | self.byte()

    def below(self, n):
        if n <= 256:
            return self.byte() % n
        return (self.u16() if n <= 65536 else self.u24()) % n

    def int(self, lo, hi):
        n = hi - lo + 1
        if n > 256:
            return lo + self.below(n)
        b = self.byte()
        if consts.NEW_COUNTS and b % 9 == 8:
            near = [x for x in consts.NEW_COUNTS if lo <= x <= hi]
            if near:
                return near[b // 9 % len(near)]
        return lo + b % n

    def sint(self, lim):
        """-lim..lim, simplest 0"""
        v = self.below(2 * lim + 1)
        return (v + 1) // 2 if v & 1 else -(v // 2)

    def bool(self, p=0.5):
        return self.byte() >= 256 * (1 - p)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, *pairs):
        """pairs of (weight, value or function of self)"""
        total = sum(w for w, _ in pairs)
        k = self.byte() * total // 256
        for w, v in pairs:
            if k < w:
                return v(self) if callable(v) else v
            k -= w
        raise AssertionError

    def frac(self):
        return self.u24() / 16777216.0

    def _mentioned(self, n, lo, hi):
        """Now and then, a number the code mentions (see consts)."""
        k = n % 61
        if k == 60 or (k % 10 == 9 and consts.NEW):
            new, old = consts.within(lo, hi)
            pool = new if new and (k != 60 or not old) else old if k == 60 else None
            if pool:
                return pool[n // 61 % len(pool)]
        return None

    def _between(self, lo, hi):
        n = self.u24()
        self.exact = self._mentioned(n, lo, hi)
        if self.exact is not None:
            return self.exact
        a = min(max(0.0, lo), hi)
        if lo < a < hi:
            m = (n >> 1) / 8388608.0
            return a - (a - lo) * m if n & 1 else a + (hi - a) * m
        return lo + (hi - lo) * (n / 16777216.0)

    def lattice(self, lo, hi, step=1000):
        v = self._between(lo, hi)
        if self.exact is not None:
            return v
        v = round(v * step) / step
        return min(max(v, lo), hi)

    def real(self, lo, hi):
        v = self._between(lo, hi)
        return min(max(v * (1 + self.byte() * 1.2345678e-9), lo), hi)

    def num(self, lo, hi):
        k = self.byte()
        if k < 40 and math.floor(hi) >= math.ceil(lo):
            return float(min(max(round(self._between(lo, hi)), math.ceil(lo)), math.floor(hi)))
        if k < 215:
            return self.lattice(lo, hi)
        return self.real(lo, hi)

    def log(self, lo, hi):
        """Positive, uniform over decades, four digits."""
        n = self.u24()
        v = self._mentioned(n, lo, hi)
        if v is not None:
            return v
        v = float("%.4g" % (lo * (hi / lo) ** (n / 16777216.0)))
        return min(max(v, lo), hi)

    def pos(self, lo, hi):
        return self.log(lo, hi) if self.bool(0.6) else self.num(lo, hi)


AXES = [[0, 0, 1], [0, 0, -1], [0, 1, 0], [0, -1, 0], [1, 0, 0], [-1, 0, 0]]


# ---------------------------------------------------------------- vectors
def vec(s, lim=50):
    k = s.byte()
    if k < 70:
        n = int(max(1, lim))
        return [s.sint(n) for _ in range(3)]
    if k < 215:
        return [s.lattice(-lim, lim) for _ in range(3)]
    return [s.real(-lim, lim) for _ in range(3)]


def big_vec(s):
    """Positions at very different distances from the origin."""
    return vec(s, s.weighted((1, 1), (4, 50), (2, 1000), (1, 5000)))


def _general(s):
    v = [s.lattice(-1, 1) for _ in range(3)]
    return v if max(abs(x) for x in v) > 1e-3 else [0, 0, 1]


def direction(s):
    """Any non-zero 3-vector, not normalised; axis-aligned, nearly axis-aligned, or general."""
    k = s.byte()
    if k < 45:
        return list(s.pick(AXES))
    if k < 85:
        v = [s.sint(5) for _ in range(3)]
        return v if any(v) else [0, 0, 1]
    if k < 185:
        return _general(s)
    if k < 215:  # a hair off an axis
        a = [float(x) for x in s.pick(AXES)]
        eps = 10.0 ** -s.int(1, 9)
        free = [n for n in range(3) if a[n] == 0]
        a[free[0]] += eps * s.lattice(-1, 1)
        a[free[1]] += eps * s.lattice(-1, 1)
        return a
    f = s.pick([1e-3, 1e-2, 10.0, 1e3])
    return [x * f for x in _general(s)]


def unit_direction(s):
    return list(ref.unit(ref.V(direction(s))))


def roll(s):
    return s.weighted((2, lambda s: s.pick([0, 90, 180, 270])), (3, lambda s: s.lattice(0, 360, 10)))


def wavelength(s):
    return s.weighted((2, lambda s: s.pick([532, 400.0, 550.0, 633.0, 680.0])), (3, lambda s: s.lattice(200, 2000, 10)))


def order(s):
    return s.pick([0, 1, -1, 1, -1, 2, -2, 3, -3])


def index(s):
    return s.weighted((4, lambda s: s.pick([1.5, 1.33, 2.4])), (2, 1.0), (7, lambda s: s.lattice(1, 4)),
                      (2, lambda s: s.lattice(0.3, 1)), (1, lambda s: s.lattice(4, 12)))


def tilt(n, a, b):
    """n turned away from itself by tan angles a, b along two perpendicular directions."""
    n = ref.unit(n)
    u = ref.any_perp(n)
    v = ref.cross(n, u)
    return ref.unit(ref.add(n, ref.add(ref.mul(u, a), ref.mul(v, b))))


# ---------------------------------------------------------------- solids
OPS = ["union", "intersect", "difference"]


def sphere_leaf(s, lim=8):
    e = {"s": "sphere", "c": vec(s, lim), "R": s.num(0.5, 10)}
    if s.bool(0.3):
        e["useD"] = True
    return e


def cyl_leaf(s, lim=8):
    return {"s": "cyl", "c": vec(s, lim), "d": direction(s), "R": s.num(0.5, 6)}


def leaf(s, lim=8, cyls=True):
    return cyl_leaf(s, lim) if cyls and s.bool(0.25) else sphere_leaf(s, lim)


def solid(s, max_depth=3, cyls=True, lim=8, exact=False):
    d = max_depth if exact else s.weighted((1, 0), (3, 1), (6, lambda s: s.int(1, max_depth)))

    def level(d):
        if d == 0:
            return leaf(s, lim, cyls)
        op = s.pick(OPS)
        # one side full depth, the other anything up to it
        other = s.below(d)
        if s.bool():
            return {"op": op, "a": level(d - 1), "b": level(other)}
        return {"op": op, "a": level(other), "b": level(d - 1)}
    return level(d)


def shift_tree(t, c):
    if "op" in t:
        return {"op": t["op"], "a": shift_tree(t["a"], c), "b": shift_tree(t["b"], c)}
    out = dict(t)
    out["c"] = [a + b for a, b in zip(t["c"], c)]
    return out


def depth(t):
    return 1 + max(depth(t["a"]), depth(t["b"])) if "op" in t else 0


LENS_KINDS = ["biconvex", "meniscus", "shell", "pair", "plug", "drilled", "film"]


def lens_tree(kind, ax, R1, R2, th, off):
    """Lens-like solids around the origin with axis ax."""
    ax = ref.unit(ref.V(ax))

    def sp(c, R):
        return {"s": "sphere", "c": list(ref.mul(ax, c)), "R": R}
    if kind == "biconvex":
        return {"op": "intersect", "a": sp(R1 - th / 2, R1), "b": sp(-(R2 - th / 2), R2)}
    if kind == "meniscus":
        return {"op": "difference", "a": sp(0.0, R1), "b": sp(R1 + R2 - th, R2)}
    if kind == "shell":
        return {"op": "difference", "a": sp(0.0, R1), "b": sp(off * R1 * 0.3, R1 * 0.5)}
    if kind == "pair":
        return {"op": "union", "a": sp(0.0, R1), "b": sp(R1 * 0.8, R2)}
    if kind == "plug":
        return {"op": "intersect", "a": sp(0.0, R1),
                "b": {"s": "cyl", "c": [0.0, 0.0, 0.0], "d": list(ax), "R": R1 * 0.6}}
    if kind == "drilled":
        return {"op": "difference", "a": sp(0.0, R1),
                "b": {"s": "cyl", "c": [0.0, 0.0, 0.0], "d": list(ref.any_perp(ax)), "R": R1 * 0.4}}
    if kind == "film":  # a thin hollow ball, or a thin coat on one side
        return {"op": "difference", "a": sp(0.0, R1), "b": sp(0.0 if off < 0 else 1e-3 * R1, R1 - 0.003 * R1 * th)}
    raise ValueError(kind)


def lens_solid(s):
    return lens_tree(s.pick(LENS_KINDS), direction(s), s.lattice(2, 20), s.lattice(2, 20), s.lattice(0.5, 3),
                     s.lattice(-1, 1))


# ---------------------------------------------------------------- elements anywhere
KINDS = ["flat", "rect", "dmd", "dmd_rect", "concave", "convex", "ideal", "collimate", "focus", "ball", "grating",
         "detector", "compound", "annotation", "filter", "window"]
RECTS = ("rect", "dmd_rect", "grating", "detector")
ELEMENT_BYTES = 110


def element(s, lim=50, kinds=None, big=60):
    kind = s.pick(kinds or KINDS)
    e = {"k": kind}
    pos = vec(s, lim)
    if kind == "compound":
        beh = s.pick(["reflect", "refract"])
        ind = index(s)
        tr = solid(s, 2) if s.bool() else lens_solid(s)
        e.update(tree=shift_tree(tr, pos), behavior=beh, index=ind)
        return e
    e["pos"] = pos
    if kind in ("convex", "ball"):
        e["D"] = s.num(1, big)
        if kind == "ball":
            e["index"] = index(s)
        return e
    e["n"] = direction(s)
    if kind in RECTS:
        e.update(w=s.num(1, big), h=s.num(1, big), roll=roll(s))
        if s.bool(0.25):
            e["h"] = e["w"]
        if s.bool(0.2):
            e["tl"] = s.pick([2, 0.5, 30, 1e-3])
    elif kind not in ref.TRANSPARENT:
        e["D"] = s.num(1, big)
    if kind in ("dmd", "dmd_rect"):
        e["dn"] = direction(s)
    if kind == "concave":
        e["f"] = max(s.pos(1, 200), e["D"] * s.pick([1, 1, 0.5, 0.26]))  # up to nearly half of its sphere
    if kind in ("ideal", "collimate", "focus"):
        e["f"] = s.pos(1, 200)
    if kind == "grating":
        e["G"] = s.pick([300, 0, 100.0, 600, 1200, 2400])
    return e


# ---------------------------------------------------------------- moved and scaled
def map_tree(t, pt, vc, s):
    if "op" in t:
        return {"op": t["op"], "a": map_tree(t["a"], pt, vc, s), "b": map_tree(t["b"], pt, vc, s)}
    out = dict(t, c=list(pt(t["c"])), R=t["R"] * s)
    if "d" in t:
        out["d"] = list(vc(t["d"]))
    return out


def map_element(e, pt, vc, s):
    out = dict(e)
    if e["k"] == "compound":
        out["tree"] = map_tree(e["tree"], pt, vc, s)
        return out
    out["pos"] = list(pt(e["pos"]))
    if e["k"] in RECTS:
        out["t"] = list(vc(ref.tangent_of(e)))
    for k in ("n", "dn"):
        if k in e:
            out[k] = list(vc(e[k]))
    for k in ("D", "w", "h", "f"):
        if k in e:
            out[k] = e[k] * s
    return out


def resize(case, k):
    """The same scene, ray and distance, k times as large."""
    size = lambda p: [x * k for x in p]
    out = dict(case, scene=[map_element(e, size, lambda v: v, k) for e in case["scene"]], ray=dict(case["ray"], pos=size(case["ray"]["pos"])),
               distance=case["distance"] * k)
    return out


SIZES = [0.05, 10.0, 100.0, 250.0]


def sized(base):
    """One case in eight at another size."""
    return st.builds(lambda c, n: resize(c, SIZES[n // 8 % len(SIZES)]) if n % 8 == 7 else c, base, st.integers(0, 63))


# ---------------------------------------------------------------- scenes that get hit
def place(s, kind, x, d):
    """An element that a ray along d meets at (about) x."""
    a, b = s.lattice(-1.5, 1.5), s.lattice(-1.5, 1.5)
    size = s.num(1, 40)
    n = tilt(ref.neg(d), a, b)
    whole = s.bool(0.4)
    if kind == "compound":
        beh = s.pick(["refract", "reflect", "refract"])
        ind = index(s)
        tr = lens_solid(s) if s.bool(0.6) else solid(s, 3)
        return {"k": kind, "tree": shift_tree(tr, list(ref.along(x, d, size / 4))), "behavior": beh, "index": ind}
    if kind in ("convex", "ball"):
        e = {"k": kind, "pos": list(ref.sub(x, ref.mul(n, size / 2))), "D": size}
        if kind == "ball":
            e["index"] = index(s)
        return e
    if s.bool(0.3) and kind != "grating":
        n = ref.neg(n)
    if whole:
        n = tuple(float(round(c, 3)) for c in n)
    u, v = s.lattice(-1, 1), s.lattice(-1, 1)
    nu = ref.unit(n)
    p1 = ref.any_perp(nu)
    p2 = ref.cross(nu, p1)
    reach = size * s.weighted((3, 0.3), (1, 0.5))  # now and then out to the edge and just beyond
    c = ref.sub(x, ref.add(ref.mul(p1, u * reach), ref.mul(p2, v * reach)))
    if whole:
        c = tuple(float(round(q, 3)) for q in c)
    e = {"k": kind, "pos": list(c), "n": list(n)}
    if kind in RECTS:
        e.update(w=size, h=size * (1 + abs(u)) if s.bool(0.75) else size, roll=roll(s))
        if s.bool(0.2):
            e["tl"] = s.pick([2, 0.5, 30, 1e-3])
    elif kind not in ref.TRANSPARENT:
        e["D"] = size
    if kind in ("dmd", "dmd_rect"):
        e["dn"] = list(tilt(n, s.lattice(-0.4, 0.4), s.lattice(-0.4, 0.4)))
    if kind == "concave":
        e["f"] = max(s.pos(2, 200), size * s.pick([1, 1, 0.5, 0.26]))
    if kind in ("ideal", "collimate", "focus"):
        e["f"] = s.pos(2, 200)
    if kind == "grating":
        e["G"] = s.pick([300, 100.0, 600, 1200, 2400])
    return e


def through(e, p, d, ray):
    """Follow the ray through this one element: ([(point, dir)], absorbed) or (None, False)."""
    out = []
    for _ in range(6):
        h = ref.element_hit(e, p, d, 1e-6, 1e-6)
        if h is None:
            break
        t, x, n, info = h
        nd, absorbed = ref.element_act(e, p, d, x, n, info, dict(ray, probe=False))
        out.append((x, nd))
        if absorbed:
            return out, True
        p, d = x, nd
    return (out or None), False


CHAIN_WEIGHTS = {"detector": 1, "annotation": 1, "filter": 1, "window": 1, "compound": 4, "ball": 4}


def crowd(s, scene):
    """When the code newly mentions a small number: that many elements, most of them out of the way."""
    k = s.byte()
    if not consts.NEW_COUNTS or k % 8 != 7:
        return scene
    n = consts.NEW_COUNTS[k // 8 % len(consts.NEW_COUNTS)]
    scene = list(scene)
    for i in range(max(0, n - len(scene))):
        e = {"k": "flat" if i % 2 else "window", "pos": [9000 + 3.5 * i, -9000 + 7 * (i % 5), 9000 - i], "n": [0, 0.6, 0.8]}
        if i % 2:
            e["D"] = 2
        scene.insert((i * 7) % (len(scene) + 1), e)
    return scene


def chain_scene(head, items, extras, kinds=None, probe=False, extra_lim=60):
    """Each item is placed in the way of the ray, as the reference model predicts it."""
    s = Src(head)
    ks = [k for k in (kinds or KINDS) for _ in range(CHAIN_WEIGHTS.get(k, 2))]
    ray = {"pos": vec(s, 30), "dir": direction(s), "wavelength": wavelength(s), "order": order(s)}
    if probe:
        ray["probe"] = True
    slack = s.num(-200, 400)
    shuffle = s.u16()
    p, dd = ref.V(ray["pos"]), ref.unit(ref.V(ray["dir"]))
    scene, total = [], 0.0
    for b in items:
        si = Src(b)
        kind = si.pick(ks)
        x = ref.along(p, dd, si.num(0.5, 80))
        e = place(si, kind, x, dd)
        scene.append(e)
        try:
            hist, absorbed = through(e, p, dd, ray)
        except ref.Ambiguous:
            break
        if hist is None:
            continue
        pts = [p] + [h[0] for h in hist]
        total += sum(ref.dist(a, c) for a, c in zip(pts, pts[1:]))
        if absorbed:
            break
        p, dd = hist[-1]
        if max(abs(c) for c in p) > 2000:
            break
    scene += [element(Src(b), extra_lim, kinds) for b in extras]
    if kinds is None:
        scene = crowd(s, scene)
    if shuffle:
        order_ = sorted(range(len(scene)), key=lambda i: (shuffle * (i + 1) * 7919) % 104729)
        scene = [scene[i] for i in order_]
    return {"scene": scene, "ray": ray, "distance": round(total * (1 if slack >= 0 else 0.6) + abs(slack) + 1, 3)}


HEAD_BYTES = 60


def _bin(n):
    return st.binary(min_size=n, max_size=n)


def _bins(n, lo, hi):
    return st.lists(_bin(n), min_size=lo, max_size=hi)


def chain(max_items=8, kinds=None, extra=2, probe=False, min_items=1):
    return st.builds(lambda h, i, x: chain_scene(h, i, x, kinds, probe), _bin(HEAD_BYTES),
                     _bins(ELEMENT_BYTES, min_items, max_items), _bins(ELEMENT_BYTES, 0, extra))


def box_scene(head, items, kinds=None, probe=False, lim=40):
    """Elements anywhere, ray aimed near one of them."""
    s = Src(head)
    elements = [element(Src(b), lim, kinds) for b in items]
    for b in range(s.weighted((10, 0), (2, 1), (1, 2))):  # the same element again, elsewhere
        e = elements[s.below(len(elements))]
        if s.bool(0.3):  # or another one about the same centre
            o = element(s, lim, kinds)
            if "pos" in o and "pos" in e:
                elements.insert(s.below(len(elements) + 1), dict(o, pos=list(e["pos"])))
                continue
        elements.insert(s.below(len(elements) + 1), shifted(e, vec(s, s.pick([3, 10, 40]))))
    e = elements[s.below(len(elements))]
    c = e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"]
    start = vec(s, lim * 1.5)
    d = [a + s.lattice(-2, 2) - b for a, b in zip(c, start)]
    if max(abs(x) for x in d) < 1e-3:
        d = [0, 0, 1]
    ray = {"pos": start, "dir": d, "wavelength": wavelength(s), "order": order(s)}
    if probe:
        ray["probe"] = True
    distance = s.weighted((8, lambda s: s.int(100, 2000)), (4, lambda s: s.lattice(50, 400)),
                          (2, lambda s: s.lattice(0, 30)), (1, lambda s: s.log(1e3, 1e6)))
    if s.bool(0.12):  # start just before or just past a surface
        off = s.log(1e-5, 1) * s.pick([1, -1])
        near_surface(elements, ray, off)
    if s.bool(0.04):
        ray["verbose"] = True
    if kinds is None:
        elements = crowd(s, elements)
    return {"scene": elements, "ray": ray, "distance": distance}


def shifted(e, v):
    e = dict(e)
    if "tree" in e:
        e["tree"] = shift_tree(e["tree"], v)
    else:
        e["pos"] = [a + b for a, b in zip(e["pos"], v)]
    return e


def near_surface(elements, ray, off):
    p, d = ref.V(ray["pos"]), ref.unit(ref.V(ray["dir"]))
    try:
        h = ref.first_hit(elements, p, d, 1e6)
    except ref.Ambiguous:
        return
    if h is not None:
        ray["pos"] = list(ref.along(p, d, h[1] - off))


def box(max_items=10, kinds=None, probe=False, min_items=1, lim=40):
    return st.builds(lambda h, i: box_scene(h, i, kinds, probe, lim), _bin(HEAD_BYTES),
                     _bins(ELEMENT_BYTES, min_items, max_items))


def _tiny(s):
    return s.weighted((2, 0.0), (3, lambda s: s.lattice(-0.02, 0.02, 10000)))


def cavity_scene(data, max_distance):
    """Two mirrors facing each other, the ray bouncing between them."""
    s = Src(data)
    c = big_vec(s)
    ax = ref.unit(ref.V(direction(s)))
    L = s.num(5, 60)
    u = ref.any_perp(ax)
    v = ref.cross(ax, u)
    scene = []
    for sgn in (1, -1):
        k = s.pick(["flat", "rect", "concave"])
        n = ref.unit(ref.add(ref.mul(ax, sgn), ref.mul(u, _tiny(s))))
        e = {"k": k, "pos": list(ref.add(ref.V(c), ref.mul(ax, -sgn * L / 2))), "n": list(n)}
        size = s.num(5, 60)
        if k == "rect":
            e.update(w=size, h=size, roll=roll(s))
        else:
            e["D"] = size
        if k == "concave":
            e["f"] = max(s.pos(10, 300), size)
        scene.append(e)
    for _ in range(s.weighted((3, 0), (2, 1), (1, 2))):
        k = s.pick(["ball", "ideal", "annotation", "window", "compound"])
        pos = list(ref.add(ref.V(c), ref.mul(ax, s.lattice(-0.8, 0.8) * L / 2)))
        D = s.num(1, 5)
        if k == "ball":
            scene.append({"k": "ball", "pos": pos, "D": min(D, L / 4), "index": index(s)})
        elif k == "ideal":
            scene.append({"k": "ideal", "pos": pos, "n": list(ax), "D": D * 3, "f": L * s.lattice(1, 3)})
        elif k == "compound":
            scene.append({"k": "compound", "tree": shift_tree(lens_tree("biconvex", ax, D * 4, D * 4, min(1.0, L / 20), 0),
                                                              pos), "behavior": "refract", "index": index(s)})
        else:
            scene.append({"k": k, "pos": pos, "n": list(ax)})
    p = ref.add(ref.V(c), ref.add(ref.mul(ax, s.lattice(-1, 1) * L / 3),
                                  ref.add(ref.mul(u, s.lattice(-1, 1)), ref.mul(v, s.lattice(-1, 1)))))
    d = ref.add(ax, ref.add(ref.mul(u, _tiny(s)), ref.mul(v, _tiny(s))))
    return {"scene": scene, "ray": {"pos": list(p), "dir": list(d), "wavelength": wavelength(s), "order": 0},
            "distance": s.num(100, max_distance)}


def cavity(max_distance=3000):
    return _bin(160).map(lambda b: cavity_scene(b, max_distance))


def any_scene(max_items=8, max_distance=2000, kinds=None):
    return st.one_of(chain(max_items, kinds), chain(max_items, kinds), box(max_items + 2, kinds),
                     *([cavity(max_distance)] if kinds is None else []))


def decoded(fn, nbytes):
    """Strategy for fn(Src)."""
    return _bin(nbytes).map(lambda b: fn(Src(b)))
