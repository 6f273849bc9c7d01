"""Turns JSON cases into the repository's objects, and reads results back."""
import contextlib
import math
import os
import sys

import numpy as np

from . import env, ref
from .core import Violation, Skip, require

o3d, go, gen_, shapes = env.load()


_shared = None  # the arrays of the scene being built


def arr(v, as_int=False):
    """A caller's array: integer when every entry is an int (as the demo scripts write them)."""
    if _shared is not None:
        key = (tuple(v), tuple(type(x) for x in v))
        if key not in _shared:
            _shared[key] = _arr(v)
        return _shared[key]
    return _arr(v)


def _arr(v):
    if all(isinstance(x, int) for x in v):
        return np.array(v)
    return np.array([float(x) for x in v])


def tangent_arr(e):
    t = ref.mul(ref.tangent_of(e), e.get("tl", 1))  # its length does not matter
    ti = [round(x) for x in t]
    if all(abs(a - b) < 1e-15 for a, b in zip(t, ti)):
        return np.array(ti)
    return np.array(t)


def tree(t):
    if "op" in t:
        n = go.BinaryTree(t["op"])
        # attach finished subtrees the way the tree class allows: insert, then graft
        n.insertLeft(None)
        n.insertRight(None)
        n.leftChild = tree(t["a"])
        n.rightChild = tree(t["b"])
        return n
    return go.BinaryTree(leaf(t))


def tree_by_insertion(t):
    """As tree(), using only insertLeft/insertRight/setRootVal."""
    def fill(node, t):
        if "op" in t:
            node.setRootVal(t["op"])
            node.insertLeft("?")
            node.insertRight("?")
            fill(node.getLeftChild(), t["a"])
            fill(node.getRightChild(), t["b"])
        else:
            node.setRootVal(leaf(t))
    root = go.BinaryTree("?")
    fill(root, t)
    return root


def whole(v):
    """A caller's number: most whole ones written as integers (D=10), as the demo scripts do."""
    if isinstance(v, float) and v.is_integer() and abs(v) < 1e9 and int(v) % 3:
        return int(v)
    return v


def leaf(t):
    kw = {"D": whole(t["R"] * 2)} if t.get("useD") else {"R": whole(t["R"])}
    if t["s"] == "sphere":
        return shapes.Sphere(arr(t["c"]), **kw)
    return shapes.InfiniteCylinder(arr(t["c"]), arr(t["d"]), **kw)


def element(e):
    k = e["k"]
    if k == "compound":
        return o3d.Compound(tree_by_insertion(e["tree"]), surface_behavior=e.get("behavior", "reflect"),
                            index=whole(e.get("index", 1.5)))
    pos = arr(e["pos"])
    if k == "convex":
        return o3d.Mirror(pos, shape="circular_convex_spherical", D=whole(e["D"]))
    if k == "ball":
        return o3d.Lens(pos, shape="spherical", D=whole(e["D"]), index=whole(e["index"]))
    n = arr(e["n"])
    if k == "flat":
        return o3d.Mirror(pos, normal=n, D=whole(e["D"]))
    if k == "rect":
        return o3d.Mirror(pos, shape="rectangular_flat", normal=n, tangent=tangent_arr(e), w=whole(e["w"]), h=whole(e["h"]))
    if k == "dmd":
        return o3d.Mirror(pos, normal=n, D=whole(e["D"]), type="dmd", dmd_normal=arr(e["dn"]))
    if k == "dmd_rect":
        return o3d.Mirror(pos, shape="rectangular_flat", normal=n, tangent=tangent_arr(e), w=whole(e["w"]), h=whole(e["h"]),
                          type="dmd", dmd_normal=arr(e["dn"]))
    if k == "concave":
        return o3d.Mirror(pos, normal=n, shape="circular_concave_spherical", D=whole(e["D"]), f=whole(e["f"]))
    if k in ("ideal", "collimate", "focus"):
        t = {"ideal": "ideal", "collimate": "ideal_collimate", "focus": "ideal_focus"}[k]
        return o3d.Lens(pos, normal=n, D=whole(e["D"]), f=whole(e["f"]), type=t)
    if k == "grating":
        return o3d.Grating(pos, n, tangent_arr(e), w=whole(e["w"]), h=whole(e["h"]), G=whole(e["G"]),
                           **({"order": e["own_order"]} if "own_order" in e else {}))
    if k == "detector":
        return o3d.Detector(pos, n, tangent_arr(e), w=whole(e["w"]), h=whole(e["h"]))
    if k in ref.TRANSPARENT:
        cls = {"annotation": o3d.Annotation, "filter": o3d.Filter, "window": o3d.Window}[k]
        if int(abs(float(pos[0]) + float(pos[2])) * 1000) % 3 == 1:  # a user's own kind of annotation, filter or window
            cls = type("My" + cls.__name__, (cls,), {})
        return cls(pos, n, "circular_flat")
    raise ValueError(k)


def scene(specs):
    """The elements; equal positions or normals are one and the same array, as when a user names a centre once."""
    global _shared
    _shared = {}
    try:
        return [element(e) for e in specs]
    finally:
        _shared = None


class Runaway(Exception):
    pass


MAX_FLIGHTS = 4000


def ray(r):
    """A Ray that refuses to fly forever (a count, not a clock)."""
    cls = _ray_class()
    kw = {}
    if r.get("probe"):
        kw["type"] = "faerie_fire"
    if r.get("verbose"):
        kw["print_trajectory"] = True
    return cls(arr(r["pos"]), arr(r["dir"]), wavelength=whole(r.get("wavelength", 532)), order=r.get("order", 0), **kw)


_cls = None


def _ray_class():
    global _cls
    if _cls is None:
        class GuardedRay(o3d.Ray):
            def fly(self, *a, **k):
                if len(self.point_history) > MAX_FLIGHTS:
                    raise Runaway()
                return super().fly(*a, **k)
        GuardedRay.__name__ = "Ray"
        _cls = GuardedRay
    return _cls


def run(r, distance, optics, max_interactions=None):
    distance = whole(distance)
    start = len(r.point_history) - 1  # what this run adds is counted, not the runs before it
    try:
        if max_interactions is None:
            r.run(max_distance=distance, optic_list=optics)
        else:
            r.run(max_distance=distance, optic_list=optics, max_interactions=max_interactions)
    except Runaway:
        h = history(r)
        recent = sum(ref.dist(a, b) for a, b in zip(h[-1001:], h[-1000:]))
        if recent < 1e-6 * max(1.0, ref.norm(h[-1])):
            raise Violation("the ray interacts forever without getting anywhere, at %s" % (h[-1],))
        total = sum(ref.dist(a, b) for a, b in zip(h[start:], h[start + 1:]))
        if total > distance * (1 + 1e-6) + 1e-6:
            raise Violation("the ray flew %r of an allowed %r and did not stop" % (total, distance))
        raise Skip("very many interactions")
    return r


def vec(x, what="vector"):
    a = np.asarray(x, dtype=float)
    require(a.shape == (3,), "%s has shape %s", what, a.shape)
    require(bool(np.all(np.isfinite(a))), "%s is not finite: %s", what, a)
    return (float(a[0]), float(a[1]), float(a[2]))


def history(r):
    return [vec(p, "a history point") for p in r.point_history]


def direction(r):
    return vec(r.direction, "the direction")


def hits(det):
    out = []
    for h in det.hit_data:
        a = np.asarray(h, dtype=float)
        require(a.shape == (4,), "a detector record has shape %s", a.shape)
        require(bool(np.all(np.isfinite(a))), "a detector record is not finite: %s", a)
        out.append(tuple(float(v) for v in a))
    return out


def shape_result3(res, what):
    """Unpack a plane/disc/rectangle answer -> (hit, point, normal)"""
    require(isinstance(res, tuple) and len(res) == 3, "%s answered %r", what, res)
    hit, p, n = res
    if not hit:
        require(p is None, "%s reports a miss with point %r", what, p)
        return False, None, None
    return True, vec(p, what + " point"), vec(n, what + " normal")


def shape_result6(res, what):
    """Unpack a sphere/cylinder answer -> (hit, [(point, normal)], count)"""
    require(isinstance(res, tuple) and len(res) == 6, "%s answered %r", what, res)
    hit, p1, p2, n1, n2, count = res
    if not hit:
        require(p1 is None and p2 is None, "%s reports a miss with points %r %r", what, p1, p2)
        return False, [], count
    require(p1 is not None, "%s reports a hit without a point", what)
    out = [(vec(p1, what + " point"), vec(n1, what + " normal"))]
    if p2 is not None:
        out.append((vec(p2, what + " point"), vec(n2, what + " normal")))
    return True, out, count


# ---------------------------------------------------------------- worlds apart
_code = {}


def _cached_loader():
    """Compiling each module once makes loading another copy of the code under test cheap."""
    import importlib.machinery as m
    if getattr(m.SourceFileLoader, "_pbt", False):
        return
    plain = m.SourceFileLoader.get_code

    def get_code(self, name):
        path = os.path.realpath(self.get_filename(name))
        if not path.startswith(os.path.realpath(env.REPO) + os.sep):
            return plain(self, name)
        if path not in _code:
            _code[path] = plain(self, name)
        return _code[path]
    m.SourceFileLoader.get_code = get_code
    m.SourceFileLoader._pbt = True


def _mine():
    roots = (env.REPO + os.sep, os.path.realpath(env.REPO) + os.sep)

    def home(m):
        return getattr(m, "__file__", None) or next(iter(getattr(m, "__path__", None) or [""]), "") + os.sep
    return {k: m for k, m in sys.modules.items() if m is not None and home(m).startswith(roots)}


@contextlib.contextmanager
def fresh_world():
    """Another copy of the modules under test, as a new process would have it."""
    global o3d, go, gen_, shapes, _cls
    _cached_loader()
    mine = _mine()
    for k in mine:
        del sys.modules[k]
    saved = o3d, go, gen_, shapes, _cls
    try:
        o3d, go, gen_, shapes = env.load()
        _cls = None
        yield
    finally:
        o3d, go, gen_, shapes, _cls = saved
        for k in _mine():
            del sys.modules[k]
        sys.modules.update(mine)
