"""C29: text tables contain every value in order."""
import numpy as np

from .. import build, gen
from ..core import Sub, require

RULE = "Arrays of any length up to several lines, of either sign and many magnitudes, number formats, pads, indents and line widths."
G = build.gen_
FORMATS = ["e", ".3e", ".5f", ".2f", "g", ".4g", ".10e", "+.3e", ".1f", ".6E", "f", "+.2f", "10.3f", ".17g"]


def values(s, n):
    out = []
    for _ in range(n):
        k = s.byte()
        v = s.num(-100, 100) if k < 120 else s.log(1e-12, 1e12) * s.pick([1, -1]) if k < 200 else float(s.sint(9)) if k < 240 else s.pick([0.0, -0.0, 1e-300, -1e300, 0.5])
        out.append(v if s.i <= len(s.d) else float(n - len(out)))
    return out


def prism_case(s):
    n = s.weighted((1, lambda s: s.int(0, 3)), (6, lambda s: s.int(1, 45)), (4, lambda s: s.pick([9, 10, 11, 19, 20, 21, 30, 100, 101])), (1, lambda s: s.int(46, 250)))
    return {"v": values(s, n), "left": s.int(0, 6), "right": s.int(0, 5), "indent": s.weighted((1, 0), (2, lambda s: s.int(0, 12))), "fmt": s.pick(FORMATS),
            "as": s.pick(["array", "array", "list"])}


def o_prism(c):
    v = c["v"]
    a = np.array(v, dtype=float) if c["as"] == "array" else list(v)
    t = G.prism10widetextarray(a, c["left"], c["right"], c["indent"], c["fmt"])
    require(isinstance(t, str), "the table is %r", t)
    require(list(a) == v, "the array was changed")
    lines = t.split("\n")
    rows = [v[i:i + 10] for i in range(0, len(v), 10)] or [[]]
    require(len(lines) == len(rows), "%d values make %d lines", len(v), len(lines))
    for i, (line, row) in enumerate(zip(lines, rows)):
        require(line.startswith(" " * c["indent"]), "line %d %r is not indented by %d", i, line, c["indent"])
        at = c["indent"]
        for k, x in enumerate(row):
            txt = format(x, c["fmt"])
            # a negative number's sign takes one column of the pad in front of it
            pad = (c["left"] - 1 if x < 0 else c["left"]) if c["left"] else 0
            if k:
                pad += c["right"]
            require(line[at:at + pad] == " " * pad, "line %d %r: value %d is not preceded by %d spaces", i, line, k, pad)
            at += pad
            require(line[at:at + len(txt)] == txt, "line %d %r: value %d is not %r after %d spaces", i, line, k, txt, pad)
            at += len(txt)
        rest = line[at:]
        # a full line ends with its last number, a part line with the pad behind it
        require(rest == "" if len(row) == 10 else rest == " " * c["right"] or not row, "line %d %r ends with %r", i, line, rest)
    if c["left"] >= 2 or c["right"]:
        back = [[float(x) for x in l.split()] for l in lines]
        want = [[float(format(x, c["fmt"])) for x in r] for r in rows]
        require(back == want, "reading the table back gives %s, expected %s", back, want)
    return ["nt"] if len(v) > 1 else []


def spaced_case(s):
    n = s.weighted((1, lambda s: s.int(1, 3)), (3, lambda s: s.int(1, 40)), (1, lambda s: s.int(100, 300)), (1, lambda s: s.int(1001, 1100)), (0.1, lambda s: s.int(5001, 6000)))
    few = values(s, min(n, 40))
    left, right = " " * s.int(0, 4), " " * s.int(0, 4)
    if not left and not right:
        right = " "
    return {"v": few, "n": n, "left": left, "right": right, "fmt": s.pick(FORMATS), "width": s.weighted((5, lambda s: s.int(40, 200)), (1, lambda s: s.int(200, 3000)))}


def o_spaced(c):
    v = [c["v"][i % len(c["v"])] for i in range(c["n"])]
    a = np.array(v, dtype=float)
    keep = a.copy()
    toks = [format(x, c["fmt"]).strip() for x in v]
    # no width can hold less than one value
    W = max(c["width"], max(len(format(x, c["fmt"])) for x in v) + len(c["left"] + c["right"]) + 4)
    opts = np.get_printoptions()
    try:
        t = G.nparray2spacedstring(a, c["left"], c["fmt"], c["right"], W)
    finally:
        np.set_printoptions(**{k: opts[k] for k in ("threshold",)})
    require(isinstance(t, str), "the table is %r", t)
    require(np.array_equal(a, keep), "the array was changed")
    require(t.split() == toks, "the values come out as %s, expected %s", t.split()[:20], toks[:20])
    for i, line in enumerate(t.split("\n")):
        require(len(line) <= W, "line %d has %d columns, the width is %d: %r", i, len(line), W, line)
        # at least the pads between neighbours
        want = c["right"] + c["left"]
        items = line.split()
        at = 0
        for k, x in enumerate(items):
            j = line.index(x, at)
            require(j - at >= (len(want) if k else len(c["left"])), "line %d %r: %r is not padded with %d spaces", i, line, x, len(want) if k else len(c["left"]))
            if "10." not in c["fmt"]:
                require(k == 0 or j - at == len(want), "line %d %r: %d spaces before %r, the pads are %d", i, line, j - at, x, len(want))
            at = j + len(x)
    lines = t.split("\n")
    # lines are filled: ended when the next value, with a separator per value, would not fit
    longest = max(len(format(x, c["fmt"])) for x in v)
    for l in lines[:-1]:
        need = len(l) + len(c["left"]) + longest + len(c["right"]) + len(l.split()) + 4
        require(need > W, "the line %r was ended early: another value would fit in %d columns", l, W)
    return ["nt"] if len(lines) > 1 else []


SUBS = [
    Sub("fixed", lambda: gen.decoded(prism_case, 420), o_prism, quick=5000, shards=3, thorough=100000, rule="two or more values"),
    Sub("wrapped", lambda: gen.decoded(spaced_case, 240), o_spaced, quick=2500, shards=3, thorough=50000, rule="two or more lines"),
]
