"""C30: printing the trajectory tells what the ray does, and changes nothing."""
import contextlib
import io
import math
import re
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from .. import build, gen, ref
from ..core import Sub, Skip, require
from ..follow import follow, scale_of

RULE = "The generated scenes, each traced silently and aloud in one or more runs; the printed lines are read back and compared with the path."

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
RAY = re.compile(r"^Ray\s*\(\s*(%s),\s*(%s),\s*(%s)\s*\),\s*\(\s*(%s),\s*(%s),\s*(%s)\s*\)$" % ((NUM,) * 6))
GRATING = re.compile(r"^light at wavelength (%s) turned (%s) by grating$" % (NUM, NUM))


@contextlib.contextmanager
def listening():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def records(optics):
    return [build.hits(o) for o in optics if hasattr(o, "hit_data")]


def go(case, aloud):
    """Everything the ray does, with what was printed by each step."""
    said = []
    with listening() as out:
        optics = build.scene(case["scene"])
    require(out.getvalue() == "", "building the elements printed %r", out.getvalue())
    with listening() as out:
        r = build.ray(dict(case["ray"], verbose=aloud == "from the start"))
    said.append(out.getvalue())
    if aloud == "later":
        r.print_trajectory = True
    marks = []
    for kind, x in case["steps"]:
        a = len(r.point_history)
        with listening() as out:
            if kind == "fly":
                r.fly(distance=x)
            else:
                build.run(r, x, optics, kind)
        said.append(out.getvalue())
        marks.append((kind, a, len(r.point_history), build.direction(r), bool(r.blocked)))
    with listening() as out:
        r.get_plot_repr()
    require(out.getvalue() == "", "asking for the path printed %r", out.getvalue())
    return r, optics, said, marks


def check_vec(got, want, what, slack=0.0):
    for t, v in zip(got, want):
        x, d = Decimal(t), Decimal(v)
        unit = Decimal(10) ** (d.adjusted() - 4) if d != 0 else Decimal(0)
        require(abs(x - d) <= unit * Decimal("0.5000001") + Decimal(slack), "printed %s (%s), it is %s", what, ", ".join(got), tuple(want))


def ray_line(line, p, d, slack, when):
    m = RAY.match(line)
    require(bool(m), "%s, expected the ray's state, printed %r", when, line)
    check_vec(m.groups()[:3], p, "the position " + when)
    if d is not None:
        check_vec(m.groups()[3:], d, "the direction " + when, slack)


def seen_direction(h, k):
    """Direction of flight k, with the error of reading it off two points."""
    seg = ref.sub(h[k + 1], h[k])
    L = ref.norm(seg)
    err = 1e-14 * scale_of([h[k], h[k + 1]]) / L if L else 1
    return (ref.unit(seg), err) if err < 1e-6 else (None, 0)


def o_aloud(case):
    silent, so, quiet, marks0 = go(case, None)
    require(not any(quiet), "a ray not asked to printed %r", "".join(quiet))
    r, optics, said, marks = go(case, case["aloud"])
    h = build.history(r)
    require(h == build.history(silent), "printing changed the path: %s, silently %s", h, build.history(silent))
    require(marks == marks0, "printing changed the ray's state: %s, silently %s", marks, marks0)
    require(records(optics) == records(so), "printing changed the detector records: %s, silently %s", records(optics), records(so))
    d = ref.unit(ref.V(case["ray"]["dir"]))
    if case["aloud"] == "later":
        require(said[0] == "", "a ray not asked to printed %r", said[0])
    else:
        lines = said[0].splitlines()
        require(len(lines) == 1, "a new ray printed %r", said[0])
        ray_line(lines[0], h[0], d, 1e-15, "when created")
    # what it met, as far as the model can tell
    kinds = None
    if [k for k, _ in case["steps"]] == [None] and not case["ray"].get("probe"):
        res = follow(case["scene"], case["ray"], case["steps"][0][1], r)
        if res["done"]:
            kinds = res["kinds"]
    turns = flights = 0
    for (kind, a, b, end, blocked), text in zip(marks, said[1:]):
        lines = text.splitlines()
        if kind == "fly":
            require(len(lines) == 1, "one flight printed %r", text)
            ray_line(lines[0], h[b - 1], end, 1e-15, "after a flight")
            continue
        require(len(lines) >= 2 and "run begin" in lines[0] and "run complete" in lines[-1], "a run printed %r", text)
        body = lines[1:-1]
        require(not any("run begin" in x or "run complete" in x for x in body), "a run printed %r", text)
        at = 0
        for k in range(a, b):  # the flight that made point k
            flights += 1
            require(at < len(body), "flight %d of the run was not printed: %r", k - a + 1, text)
            met = body[at].startswith("intersected")
            require(met or body[at].startswith("not intersected"), "before a flight it printed %r", body[at])
            if not met:
                require(k == b - 1 and not blocked or case["ray"].get("probe") and k == b - 1,
                        "flight %d of %d of the run, said to meet nothing, was followed by another or absorbed", k - a + 1, b - a)
            at += 1
            require(at < len(body), "flight %d of the run was not printed: %r", k - a + 1, text)
            fd, err = seen_direction(h, k - 1)
            ray_line(body[at], h[k], fd, err, "after flight %d" % (k - a + 1))
            at += 1
            if kinds is not None:
                require(met == (k - a < len(kinds)), "flight %d met %s, and was said to have %s", k - a + 1, (kinds + ["nothing"])[k - a], body[at - 2])
            extra = []
            while at < len(body) and not body[at].startswith(("intersected", "not intersected")):
                extra.append(body[at])
                at += 1
            nd, nerr = (end, 1e-15) if k == b - 1 else seen_direction(h, k)
            if not met:
                require(not extra, "after a free flight it printed %r", extra)
                continue
            if kinds is not None:
                i = k - a
                gone = k == b - 1 and blocked
                want = kinds[i] in ("ideal", "collimate", "focus", "ball") or kinds[i] == "grating" and case["ray"].get("order", 0) != 0 or kinds[i] == "compound" and not all(
                    e["k"] != "compound" or e.get("behavior", "reflect") == "reflect" for e in case["scene"])
                mixed = kinds[i] == "compound" and len({e.get("behavior", "reflect") for e in case["scene"] if e["k"] == "compound"}) > 1
                if not mixed and not gone:
                    require(len(extra) == (1 if want else 0), "at a %s it printed %r", kinds[i], extra)
                if gone:
                    require(not extra, "absorbed by a %s, it printed %r", kinds[i], extra)
                if extra and kinds[i] == "grating":
                    require(bool(GRATING.match(extra[0])), "at a grating it printed %r", extra)
                elif extra:
                    require(bool(RAY.match(extra[0])), "refracted, it printed %r", extra)
            require(len(extra) <= 1, "after one interaction it printed %r", extra)
            if extra:
                turns += 1
                g = GRATING.match(extra[0])
                if g:
                    check_grating(case, g, fd, nd, h[k])
                else:
                    ray_line(extra[0], h[k], nd, nerr, "after refraction")
        require(at == len(body), "after %d flights it went on printing %r", b - a, body[at:])
    tags = ["nt"] if flights >= 2 else []
    if turns:
        tags.append("refraction or grating printed")
    if len(marks) > 1:
        tags.append("several runs")
    return tags


def check_grating(case, g, before, after, x):
    w = case["ray"].get("wavelength", 532)
    require(float(g.group(1)) == w, "light of wavelength %r was said to have %s", w, g.group(1))
    if before is None or after is None:
        return
    # which grating: the one whose plane holds the point
    for e in case["scene"]:
        if e["k"] != "grating":
            continue
        n, t = ref.unit(ref.V(e["n"])), ref.unit(ref.tangent_of(e))
        if abs(ref.dot(ref.sub(x, ref.V(e["pos"])), n)) > 1e-6 * scale_of([x]):
            continue
        m = ref.reflect(before, n)
        u, v = [ref.sub(q, ref.mul(t, ref.dot(q, t))) for q in (m, after)]
        if min(ref.norm(u), ref.norm(v)) < 1e-3:
            return
        turn = math.atan2(ref.dot(ref.cross(u, v), t), ref.dot(u, v))  # counter-clockwise about the grooves
        if abs(math.remainder(float(g.group(2)) - turn, 2 * math.pi)) <= 1e-5:
            return
        seen = (float(g.group(2)), turn)
    require(False, "the grating was said to turn the light by %r; it turned it by %r away from its mirror image" % seen)


def decode(base, ctl):
    s = gen.Src(ctl)
    ray = {k: v for k, v in base["ray"].items() if k != "verbose"}
    D = base["distance"]
    k = s.weighted((5, "one"), (2, "parts"), (2, "limits"), (1, "mixed"))
    if k == "one":
        steps = [[None, D]]
    elif k == "parts":
        n = s.int(2, 4)
        steps = [[None, D / n]] * n + [[None, s.pick([0.0, -1.0, 5.0])]]
    elif k == "limits":
        steps = [[s.int(0, 2), D / 3] for _ in range(s.int(2, 6))]
    else:
        steps = [s.weighted((1, lambda s: ["fly", s.num(0.1, 10)]), (1, lambda s: [s.int(0, 3), D / 4]), (1, lambda s: [None, D / 4])) for _ in range(s.int(2, 6))]
    return {"scene": base["scene"], "ray": ray, "steps": steps, "aloud": s.pick(["from the start", "from the start", "later"])}


GRATINGS = ["grating", "grating", "flat", "ideal", "ball"]
SUBS = [
    Sub("aloud", lambda: st.builds(decode, st.one_of(gen.any_scene(6), gen.any_scene(6), gen.chain(4, GRATINGS)), st.binary(min_size=60, max_size=60)), o_aloud, quick=6000,
        shards=4, thorough=80000, rule="two or more flights inside runs"),
]
