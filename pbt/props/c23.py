"""C23: number formatting keeps the requested significant digits."""
import math
import re
from decimal import Decimal

import numpy as np

from .. import build, gen
from ..core import Sub, require

RULE = "Doubles over 580 decades and both signs, with values at and beside powers of ten, halves and carries over-represented; precision 1..15."
TP = build.gen_.to_precision
FIX = re.compile(r"^(-?)(\d+)(?:\.(\d+))?$")
EXP = re.compile(r"^(-?)(\d)(?:\.(\d+))?e([+-]?\d+)$")


def wiggle(s, x):
    for _ in range(s.weighted((2, 0), (3, lambda s: s.int(1, 3)))):
        x = math.nextafter(x, math.inf if s.bool() else -math.inf)
    return x


def number(s, p):
    k = s.byte()
    near = s.weighted((5, lambda s: s.int(-5, 18)), (3, lambda s: s.sint(280)))
    if k < 60:
        x = (1 + 9 * s.frac()) * 10.0 ** near
    elif k < 110:  # a carry: 99...9.5 and around
        digits = s.int(1, 17)
        x = float("%se%d" % ("9" * digits + "." + s.pick(["4", "5", "6", "49999", "50001", "9"]), near - digits))
    elif k < 150:  # halfway between two p-digit values
        m = s.below(16777216) % (9 * 10 ** (p - 1)) + 10 ** (p - 1)
        x = wiggle(s, float("%d.5e%d" % (m, near - p + 1)))
    elif k < 185:  # a power of ten and around
        x = wiggle(s, float("1e%d" % near))
    elif k < 215:
        x = float(s.int(0, 10 ** s.int(1, 7)))
    elif k < 235:
        x = s.num(0, 1000)
    else:
        x = math.ldexp(1 + s.frac(), s.sint(900))
    return x


def case(s):
    p = s.weighted((2, 5), (4, lambda s: s.int(1, 15)))
    x = number(s, p)
    if x != 0 and not 1e-280 <= x <= 1e300:
        x = 1.5
    if s.bool(0.4):
        x = -x
    return {"x": x, "p": p, "as": s.pick(["float", "float", "float64", "int", "int64", "float32"])}


def o_nums(c):
    x, p = c["x"], c["p"]
    if c["as"] in ("int", "int64"):
        if x == int(x) and abs(x) < 2 ** 53:
            x = int(x) if c["as"] == "int" else np.int64(int(x))
    elif c["as"] == "float64":
        x = np.float64(x)
    elif c["as"] == "float32" and 1e-30 < abs(x) < 1e30:
        x = np.float32(x)
    t = TP(x, p)
    require(isinstance(t, str), "to_precision(%r, %d) is %r", x, p, t)
    v = float(x)
    if v == 0:
        require(t == "0." + "0" * (p - 1), "zero at precision %d is %r", p, t)
        return []
    d = Decimal(v)
    m = FIX.match(t)
    e = EXP.match(t)
    require(m or e, "to_precision(%r, %d) = %r is not a number", x, p, t)
    require(t.startswith("-") == (v < 0), "to_precision(%r, %d) = %r has the wrong sign", x, p, t)
    y = Decimal(t)
    # the value: the nearest with p digits, with room for the rounding of the scaling itself
    unit = Decimal(10) ** (d.adjusted() - p + 1)
    slack = Decimal("0.5") + abs(d) / unit * Decimal("4e-15")
    require(abs(y - d) <= unit * slack, "to_precision(%r, %d) = %r is off by %.3g of its last digit", x, p, t, abs(y - d) / unit)
    # the digits
    if e:
        digits = e.group(2) + (e.group(3) or "")
        require(e.group(2) != "0", "to_precision(%r, %d) = %r starts with 0", x, p, t)
        require(not (t.find(".") >= 0 and not e.group(3)), "%r", t)
        shown = int(e.group(4))
        require(shown == y.adjusted(), "%r", t)
    else:
        whole, frac = m.group(2), m.group(3) or ""
        require(whole == "0" or not whole.startswith("0"), "to_precision(%r, %d) = %r has leading zeros", x, p, t)
        digits = (whole + frac).lstrip("0")
    require(len(digits) == p, "to_precision(%r, %d) = %r shows %d significant digits", x, p, t, len(digits))
    ex = y.adjusted()
    require(bool(e) == (ex < -2 or ex >= p), "to_precision(%r, %d) = %r %s the exponent form; its exponent is %d", x, p, t, "uses" if e else "does not use", ex)
    tags = ["nt", "exponent" if e else "fixed"]
    if ex > d.adjusted():
        tags.append("carried")
    return tags


def special_case(s):
    return {"x": s.pick(["nan", "0", "-0", "np0", "npnan"]), "p": s.int(1, 15)}


def o_special(c):
    x = {"nan": math.nan, "0": 0, "-0": -0.0, "np0": np.float64(0), "npnan": np.float64("nan")}[c["x"]]
    t = TP(x, c["p"])
    require(t == ("NaN" if "nan" in c["x"] else "0." + "0" * (c["p"] - 1)), "%s at precision %d is %r", c["x"], c["p"], t)
    return ["nt"]


SUBS = [
    Sub("numbers", lambda: gen.decoded(case, 24), o_nums, quick=24000, shards=4, thorough=800000, rule="every non-zero number"),
    Sub("special", lambda: gen.decoded(special_case, 4), o_special, quick=100, thorough=400, rule="zero and not-a-number"),
]
