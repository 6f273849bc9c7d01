"""C16: diffraction gratings obey the grating equation."""
import math

from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import scale_of

RULE = "Grating orientation, density, order, wavelength and front-side incidence (in and out of the dispersion plane, either side of the normal) are drawn."


def grating_case(s):
    e = {"k": "grating", "pos": gen.big_vec(s), "n": gen.direction(s), "roll": gen.roll(s), "w": s.pos(1, 100), "h": s.pos(1, 100),
         "G": s.weighted((3, lambda s: s.pick([300, 600, 1200, 100.0, 2400])), (3, lambda s: s.num(0, 2500)), (1, 0))}
    m = s.weighted((6, lambda s: s.pick([1, -1])), (3, lambda s: s.pick([2, -2, 3, -3])), (1, lambda s: s.pick([4, -4, 5, -5])))
    # incidence: angle from the normal across the grooves, and inclination along them
    a = s.weighted((5, lambda s: s.lattice(-80, 80)), (1, 0.0), (1, lambda s: s.pick([1, -1]) * s.log(1e-4, 1)), (1, lambda s: s.pick([1, -1]) * s.lattice(80, 88)))
    g = s.weighted((2, 0.0), (3, lambda s: s.lattice(-60, 60)))
    lam = gen.wavelength(s)
    if s.bool(0.15):  # what counts is the order the ray asks for
        e["own_order"] = s.pick([0, 1, -1, 2, -3])
    if s.bool(0.12):  # high orders of coarse gratings
        m = s.int(4, 20) * s.pick([1, -1])
        e["G"] = min(e["G"], s.num(0, 120))
    if s.bool(0.15) and e["G"] > 20:  # the order leaves close to grazing, on one side or the other of vanishing
        want = s.pick([1, -1]) * (1 + s.pick([1, -1, -1]) * s.log(2e-6, 1e-2))
        q = (want + abs(math.sin(math.radians(a)))) / (e["G"] * 1e-6 * m)
        lam = q if 50 < q < 5000 else lam
    return {"e": e, "m": m, "lam": lam, "a": a, "g": g, "u": s.lattice(-0.95, 0.95), "v": s.lattice(-0.95, 0.95),
            "t": s.pos(0.1, 300), "after": s.pos(0.1, 300)}


def axes(e):
    n = ref.unit(ref.V(e["n"]))
    t = ref.tangent_of(e)
    return n, t, ref.cross(n, t)


def launch(c):
    e = c["e"]
    n, t, w = axes(e)
    a, g = math.radians(c["a"]), math.radians(c["g"])
    across = ref.add(ref.mul(n, -math.cos(a)), ref.mul(w, -math.sin(a)))   # light arriving from the +w side for a > 0
    d = ref.unit(ref.add(ref.mul(across, math.cos(g)), ref.mul(t, math.sin(g))))
    x = ref.add(ref.V(e["pos"]), ref.add(ref.mul(t, c["u"] * e["h"] / 2), ref.mul(w, c["v"] * e["w"] / 2)))
    return d, x, ref.along(x, d, -c["t"])


def diffract(c, m, lam):
    """Through the real code: (direction or None when the ray ended, history, ray)"""
    d, x, p = launch(c)
    opt = build.element(c["e"])
    r = build.ray({"pos": list(p), "dir": list(d), "wavelength": lam, "order": m})
    build.run(r, c["t"] + c["after"], [opt], 1)
    h = build.history(r)
    sc = scale_of(h)
    cos = abs(ref.dot(d, axes(c["e"])[0]))
    require(len(h) == 2 and ref.dist(h[1], x) <= 1e-9 * sc / cos, "the grating is not met at %s: %s", x, h)
    return r, opt, d, h


def out_sine(out, e, sign):
    """sine of the angle from the normal, across the grooves, positive towards the incident side"""
    n, t, w = axes(e)
    q = ref.sub(out, ref.mul(t, ref.dot(out, t)))
    return sign * ref.dot(ref.unit(q), w), ref.dot(q, n)


def incident_sine(d, e):
    n, t, w = axes(e)
    back = ref.neg(d)
    q = ref.unit(ref.sub(back, ref.mul(t, ref.dot(back, t))))
    return ref.dot(q, w)


def o_equation(c):
    e, m = c["e"], c["m"]
    r, opt, d, h = diffract(c, m, c["lam"])
    n, t, w = axes(e)
    sa = incident_sine(d, e)
    gml = e["G"] * 1e-6 * m * c["lam"]
    sides = [1 if sa >= 0 else -1] if abs(sa) > 1e-7 else [1, -1]
    want = gml - abs(sa)
    if abs(abs(want) - 1) < 1e-6:
        raise Skip("at the edge of propagation")
    if abs(want) > 1:
        require(bool(r.blocked), "order %d has sin b = %r and cannot propagate, but the ray is not ended (direction %s)", m, want, r.direction)
        d2 = build.vec(r.direction, "direction of the ended ray")
        build.run(r, c["after"], [opt])
        h2 = build.history(r)
        require(len(h2) == 2, "the ended ray flew on: %s", h2)
        return ["nt", "evanescent"]
    require(not r.blocked, "order %d has sin b = %r and propagates, but the ray is ended", m, want)
    out = build.direction(r)
    require(abs(ref.norm(out) - 1) < 1e-9, "direction of length %r", ref.norm(out))
    require(abs(ref.dot(out, t) - ref.dot(d, t)) < 1e-8, "the direction along the grooves changed from %r to %r", ref.dot(d, t), ref.dot(out, t))
    got = []
    for sg in sides:
        sb, front = out_sine(out, e, sg)
        require(front > 0, "the diffracted ray %s goes into the grating", out)
        got.append(sb)
    require(any(abs(sb - want) < 1e-7 for sb in got), "G m lambda = %r, sin a = %r: sin b should be %r, it is %r", gml, abs(sa), want, got)
    # it leaves from the hit point and flies straight on
    build.run(r, c["after"], [opt])
    h = build.history(r)
    require(len(h) == 3 and ref.dist(h[2], ref.along(h[1], out, c["after"])) <= 1e-8 * scale_of(h), "after the grating the path is %s", h)
    tags = ["nt"] if e["G"] else []
    tags.append("from the far side" if sa < 0 else "from the near side" if sa > 0 else "normal incidence")
    if c["g"]:
        tags.append("inclined along the grooves")
    return tags


def disp_case(s):
    c = grating_case(s)
    if not c["e"]["G"]:
        c["e"]["G"] = 300
    c["m"] = s.pick([1, -1, 2, -2])
    c["lam2"] = round(c["lam"] + s.log(0.1, 300), 3)
    if abs(c["a"]) < 0.01:
        c["a"] = 10.0
    return c


def o_dispersion(c):
    """Longer wavelengths turn further from order zero; positive orders towards the incident side."""
    e, m = c["e"], c["m"]
    sa = abs(incident_sine(launch(c)[0], e))
    k = e["G"] * 1e-6 * m
    if any(abs(k * l - sa) > 1 - 1e-6 for l in (c["lam"], c["lam2"])):
        raise Skip("an order does not propagate")
    if abs(k) * min(c["lam"], abs(c["lam2"] - c["lam"])) < 1e-11:
        raise Skip("closer than rounding")
    angles = []
    for mm, lam in ((0, c["lam"]), (m, c["lam"]), (m, c["lam2"])):
        r, opt, d, h = diffract(c, mm, lam)
        require(not r.blocked, "order %d at %r nm is ended", mm, lam)
        sg = 1 if incident_sine(d, e) > 0 else -1
        sb, _ = out_sine(build.direction(r), e, sg)
        angles.append(math.asin(max(-1.0, min(1.0, sb))))
    zero, a1, a2 = angles
    require(abs(math.sin(zero) + sa) < 1e-8, "order zero leaves at sin b = %r, sin a = %r", math.sin(zero), sa)
    if m > 0:
        require(zero < a1 < a2, "order %d: order zero at %r, %r nm at %r, %r nm at %r: not increasingly towards the incident light", m,
                zero, c["lam"], a1, c["lam2"], a2)
    else:
        require(zero > a1 > a2, "order %d: order zero at %r, %r nm at %r, %r nm at %r: not increasingly away from the incident light", m,
                zero, c["lam"], a1, c["lam2"], a2)
    return ["nt"]


def mirror_like_case(s):
    c = grating_case(s)
    if s.bool():
        c["m"] = 0
    else:
        c["e"]["G"] = 0
    return c


def o_zero(c):
    """Order zero, and a grating without grooves, are mirrors."""
    r, opt, d, h = diffract(c, c["m"], c["lam"])
    require(not r.blocked, "order %d of a grating of density %r ends the ray", c["m"], c["e"]["G"])
    n = axes(c["e"])[0]
    want = ref.reflect(d, n)
    require(ref.dist(build.direction(r), want) < 1e-8, "order %d of density %r reflects %s to %s, expected %s", c["m"], c["e"]["G"], d, r.direction, want)
    return ["nt"]


INERT = [k for k in gen.KINDS if k != "grating"]


def inert_case(base, ctl):
    s = gen.Src(ctl)
    scene = [e for e in base["scene"] if e["k"] != "grating"]
    ray = dict(base["ray"], order=s.pick([0, 0, base["ray"].get("order", 0)]))
    ray.pop("verbose", None)
    other = dict(ray, wavelength=gen.wavelength(s), order=s.pick([0, 1, -1, 2, -3, 7]))
    return {"scene": scene, "ray": ray, "other": other, "distance": base["distance"]}


def o_inert(c):
    """Without a grating in the scene, neither wavelength nor order makes a difference."""
    ends = []
    for spec in (c["ray"], c["other"]):
        optics = build.scene(c["scene"])
        r = build.ray(spec)
        build.run(r, c["distance"], optics)
        recs = [x for o in optics if hasattr(o, "hit_data") for x in build.hits(o)]
        require(all(x[3] == spec["wavelength"] for x in recs), "light of %r nm was recorded as %s", spec["wavelength"], recs)
        require(r.wavelength == spec["wavelength"] and r.order == spec["order"], "wavelength %r, order %r became %r, %r", spec["wavelength"], spec["order"],
                r.wavelength, r.order)
        ends.append((build.history(r), build.direction(r), bool(r.blocked), [x[:3] for x in recs]))
    require(ends[0] == ends[1], "with wavelength %r and order %r: %s; with %r and %r: %s", c["ray"]["wavelength"], c["ray"]["order"], ends[0],
            c["other"]["wavelength"], c["other"]["order"], ends[1])
    return ["nt"] if len(ends[0][0]) > 2 else []


SUBS = [
    Sub("equation", lambda: gen.decoded(grating_case, 120), o_equation, quick=16000, shards=4, thorough=300000,
        rule="a non-zero order of a grating with grooves (propagating or evanescent)"),
    Sub("dispersion", lambda: gen.decoded(disp_case, 130), o_dispersion, quick=5000, shards=2, thorough=80000,
        rule="both wavelengths propagate"),
    Sub("zero_order", lambda: gen.decoded(mirror_like_case, 130), o_zero, quick=4000, shards=1, thorough=60000, rule="every case"),
    Sub("elsewhere", lambda: st.builds(inert_case, gen.any_scene(5, kinds=INERT), st.binary(min_size=20, max_size=20)), o_inert, quick=2500, shards=2,
        thorough=40000, rule="the ray meets something"),
]
