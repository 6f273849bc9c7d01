"""C17: detectors record every ray that reaches them exactly once and absorb it."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of
from .c02 import limits, o_limit

RULE = "Histories: several rays, whole or in pieces, traced one after another over one scene with several detectors."

KINDS = ["detector", "flat", "detector", "ideal", "detector", "ball", "grating", "detector", "window", "rect", "compound", "detector"]


def ray_at(s, e):
    """A ray aimed at an element, or past it."""
    c = ref.V(e["pos"] if "pos" in e else ref.leaves(e["tree"])[0]["c"])
    p = gen.vec(s, 60)
    k = s.lattice(-3, 3)
    aim = ref.add(c, (s.lattice(-3, 3), k, s.lattice(-3, 3)))
    d = ref.sub(aim, ref.V(p))
    if ref.norm(d) < 1e-2:
        d = (0.0, 0.0, 1.0)
    return {"pos": p, "dir": list(d), "wavelength": gen.wavelength(s), "order": gen.order(s)}


def history_case(base, ops):
    specs = base["scene"]
    dets = [e for e in specs if e["k"] == "detector"] or specs
    steps = []
    for b in ops:
        s = gen.Src(b)
        ray = base["ray"] if s.bool(0.2) else ray_at(s, dets[s.below(len(dets))])
        if s.bool(0.06):
            ray = dict(ray, probe=True)
        dist_ = s.weighted((4, lambda s: float(s.int(100, 1000))), (2, lambda s: s.lattice(1, 120)))
        how = s.weighted((4, "whole"), (2, "pieces"), (1, "one by one"))
        cuts = [s.frac() for _ in range(s.int(1, 4))]
        steps.append({"ray": ray, "distance": dist_, "how": how, "cuts": cuts, "again": s.bool(0.3)})
    return {"scene": specs, "steps": steps}


def on_detector(e, q, sc):
    n = ref.unit(ref.V(e["n"]))
    t = ref.tangent_of(e)
    r = ref.sub(q, ref.V(e["pos"]))
    tol = 1e-8 * sc
    return abs(ref.dot(r, n)) <= tol and abs(ref.dot(r, t)) <= e["h"] / 2 + tol and abs(ref.dot(r, ref.cross(n, t))) <= e["w"] / 2 + tol


def o_history(case):
    specs = case["scene"]
    optics = build.scene(specs)
    dets = [i for i, e in enumerate(specs) if e["k"] == "detector"]
    known = {i: [] for i in dets}
    hits = misses = 0
    for st_ in case["steps"]:
        r = build.ray(st_["ray"])
        D = st_["distance"]
        if st_["how"] == "whole":
            build.run(r, D, optics)
        elif st_["how"] == "pieces":
            cuts = sorted(st_["cuts"])
            edges = [0.0] + [c * D for c in cuts] + [D]
            for a, b in zip(edges, edges[1:]):
                build.run(r, b - a, optics)
        else:
            left = D
            for _ in range(60):
                if left <= 1e-9 * D or r.blocked:
                    break
                p = build.vec(r.position)
                build.run(r, left, optics, 1)
                left -= ref.dist(p, build.vec(r.position))
            else:
                raise Skip("very many interactions")
        now = {i: build.hits(optics[i]) for i in dets}
        new = {i: now[i][len(known[i]):] for i in dets}
        for i in dets:
            require(now[i][:len(known[i])] == known[i], "earlier records of detector %d changed", i)
        total = sum(len(v) for v in new.values())
        require(total <= 1, "one ray left %d records: %s", total, new)
        h = build.history(r)
        sc = scale_of(h)
        if total:
            i = next(i for i in dets if new[i])
            rec = new[i][0]
            require(not st_["ray"].get("probe"), "a probe ray left a record %s", rec)
            require(bool(r.blocked), "the recorded ray is not absorbed")
            require(ref.dist(rec[:3], h[-1]) <= 1e-9 * sc, "the record %s is not where the ray ended, %s", rec, h[-1])
            require(on_detector(specs[i], rec[:3], sc), "the record %s is not on the surface of detector %d", rec, i)
            require(rec[3] == float(st_["ray"]["wavelength"]), "the record carries wavelength %r of a ray of %r", rec[3], st_["ray"]["wavelength"])
        # what should have happened, from the reference model
        if st_["how"] == "whole":
            res = follow(specs, st_["ray"], D, r)
            if res["done"]:
                want = next(iter(res["hits"]), None)
                require(total == (want is not None), "the ray left %d records, expected %s", total, "one on detector %s" % want if want is not None else "none")
                if want is not None:
                    require(len(new[want]) == 1, "detector %d should have the record: %s", want, new)
                    hits += 1
                else:
                    misses += 1
        else:
            try:
                path, absorbed = ref.trace(specs, st_["ray"], D, 40)
                last = path[-1][2]
                want = last if absorbed and specs[last]["k"] == "detector" and not st_["ray"].get("probe") else None
                if len(path) < 9 and scale_of(h) < 1e4:
                    require(total == (want is not None) and (want is None or new[want]), "run in pieces the ray left records %s, expected %s", new,
                            "one on detector %s" % want if want is not None else "none")
                    hits += want is not None
            except ref.Ambiguous:
                pass
        if st_["again"] and r.blocked:
            build.run(r, 100.0, optics)
            require({i: build.hits(optics[i]) for i in dets} == now, "running an absorbed ray again changed a record")
            require(len(build.history(r)) == len(h), "running an absorbed ray again moved it")
        known = now
    tags = []
    if hits:
        tags.append("nt")
    if hits >= 3:
        tags.append("3+ records")
    if hits and misses:
        tags.append("hits and misses")
    if sum(1 for i in dets if known[i]) >= 2:
        tags.append("several detectors hit")
    return tags


def o_wall(case):
    """A fan of rays onto a screen: as many records as rays that reach it, in order."""
    e = case["e"]
    det = build.element(e)
    n = ref.unit(ref.V(e["n"]))
    t = ref.tangent_of(e)
    w = ref.cross(n, t)
    want = []
    for k, q in enumerate(case["rays"]):
        x = ref.add(ref.V(e["pos"]), ref.add(ref.mul(t, q["u"] * e["h"] / 2), ref.mul(w, q["v"] * e["w"] / 2)))
        d = ref.unit(ref.add(ref.mul(n, 1 if q["back"] else -1), ref.add(ref.mul(t, q["ta"]), ref.mul(w, q["tb"]))))
        p = ref.along(x, d, -q["t"])
        r = build.ray({"pos": list(p), "dir": list(d), "wavelength": q["lam"], "order": q["m"]})
        reach = q["t"] * q["reach"]
        build.run(r, reach, [det])
        edge = max(abs(q["u"]), abs(q["v"]))
        if abs(edge - 1) < 1e-6:
            raise Skip("at the edge")
        hit = edge < 1 and q["reach"] > 1
        require(bool(r.blocked) == hit, "ray %d %s the screen, but blocked is %s", k, "reaches" if hit else "does not reach", r.blocked)
        if hit:
            want.append((x, q["lam"]))
    got = build.hits(det)
    require(len(got) == len(want), "%d rays reach the screen, it has %d records", len(want), len(got))
    for k, ((x, lam), rec) in enumerate(zip(want, got)):
        require(ref.dist(rec[:3], x) <= 1e-8 * max([1.0] + [abs(c) for c in x]) and rec[3] == lam, "record %d is %s, expected %s at %r nm", k, rec, x, lam)
    return ["nt"] if len(want) >= 2 else []


def wall_case(s):
    e = {"k": "detector", "pos": gen.vec(s, 200), "n": gen.direction(s), "roll": gen.roll(s), "w": s.pos(0.5, 100), "h": s.pos(0.5, 100)}
    rays = []
    for _ in range(s.int(2, 9)):
        rays.append({"u": s.lattice(-1.2, 1.2), "v": s.lattice(-1.2, 1.2), "ta": s.lattice(-2, 2), "tb": s.lattice(-2, 2), "t": s.pos(0.1, 200),
                     "reach": s.pick([1.5, 3.0, 1.0001, 0.999, 0.5]), "lam": gen.wavelength(s), "m": gen.order(s), "back": s.bool(0.3)})
    return {"e": e, "rays": rays}


def o_crowd(case):
    """Very many rays onto one screen."""
    e = case["e"]
    det = build.element(e)
    n, t = ref.unit(ref.V(e["n"])), ref.tangent_of(e)
    w = ref.cross(n, t)
    want = []
    for k in range(case["n"]):
        q = (k * case["step"] % 997) / 997.0 * 0.9
        x = ref.add(ref.V(e["pos"]), ref.add(ref.mul(t, q * e["h"] / 2), ref.mul(w, -q * e["w"] / 2)))
        r = build.ray({"pos": list(ref.along(x, n, case["t"])), "dir": list(ref.neg(n)), "wavelength": case["lam"] + k % case["colours"], "order": k % 3})
        build.run(r, 2 * case["t"], [det])
        require(bool(r.blocked), "ray %d is not absorbed", k)
        want.append((x, case["lam"] + k % case["colours"]))
        require(len(det.hit_data) == k + 1, "after %d rays the detector has %d records", k + 1, len(det.hit_data))
    got = build.hits(det)
    for k, ((x, lam), rec) in enumerate(zip(want, got)):
        require(ref.dist(rec[:3], x) <= 1e-8 * max([1.0] + [abs(c) for c in x]) and rec[3] == lam, "record %d is %s, expected %s at %r nm", k, rec, x, lam)
    return ["nt"]


def crowd_case(s):
    e = {"k": "detector", "pos": gen.vec(s, 200), "n": gen.direction(s), "roll": gen.roll(s), "w": s.pos(0.5, 100), "h": s.pos(0.5, 100)}
    return {"e": e, "n": s.weighted((3, lambda s: s.int(20, 150)), (1, lambda s: s.int(150, 1200))), "step": s.pick([0, 1, 7, 100]), "t": s.pos(0.1, 200), "lam": gen.wavelength(s), "colours": s.pick([1, 2, 50])}


SUBS = [
    Sub("history", lambda: st.builds(history_case, gen.sized(st.one_of(gen.chain(5, KINDS), gen.box(6, KINDS, min_items=2))),
                                     st.lists(st.binary(min_size=50, max_size=50), min_size=2, max_size=8)), o_history,
        quick=4000, shards=5, thorough=60000, rule="at least one ray predicted by the reference tracer to be recorded"),
    Sub("wall", lambda: gen.decoded(wall_case, 260), o_wall, quick=4000, shards=2, thorough=60000, rule="two or more rays reach the screen"),
    Sub("crowd", lambda: gen.decoded(crowd_case, 60), o_crowd, quick=100, shards=1, thorough=1500, rule="every case: 20 to 1200 rays"),
    Sub("limit", lambda: gen.decoded(limits, 40), o_limit, quick=400, shards=1, thorough=4000, rule="a screen exactly at the distance allowed"),
]
