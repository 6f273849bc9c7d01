"""C26: Fermi-Dirac and ideal-gas helpers agree with their defining formulas."""
import math

import numpy as np

from .. import build, gen
from ..core import Sub, require

RULE = "Arguments -40..200 with the ends of the ranges of the formulas over-represented; gases over many decades."
G = build.gen_
ORDERS = [0.5, -0.5, 1.5]
EDGES = [-20, 20, -2, 0, 3, 10, 15]


def eta(s, lo=-20.0, hi=20.0):
    k = s.byte()
    if k < 160:
        x = s.lattice(lo, hi)
    elif k < 200:
        x = s.pick(EDGES) + s.pick([-1, 1]) * s.weighted((1, 0.0), (3, lambda s: 10.0 ** -s.int(0, 9)))
    elif k < 230:
        x = s.int(math.ceil(lo), math.floor(hi))
    else:
        x = s.real(lo, hi)
    return min(max(x, lo), hi)


_gl = np.polynomial.legendre.leggauss(80)


def panel(f, a, b):
    x = (b - a) / 2 * _gl[0] + (a + b) / 2
    return float((b - a) / 2 * np.sum(_gl[1] * f(x)))


def defining(e, j):
    """the integral of x^j / (1 + exp(x - eta)) over x > 0, substituting x = u^2; Gauss-Legendre panels"""
    k = int(round(2 * j + 1))

    def f(u):
        return 2 * u ** k / (1 + np.exp(np.minimum(u * u - e, 700)))
    top = math.sqrt(max(e, 0) + 60)
    m = math.sqrt(max(e, 0))
    cuts = sorted({0.0, m / 2, max(m - 1.5, 0), m, m + 1, (m + top) / 2, top})
    return math.fsum(panel(f, a, b) for a, b in zip(cuts, cuts[1:]) if b > a)


def num(e, j, **kw):
    r = G.FD_int_num(e, j, **kw)
    require(len(r) == 3, "FD_int_num answers %r", r)
    y = float(r[0])
    require(math.isfinite(y), "FD_int_num(%r, %r, %s) is %r", e, j, kw, y)
    return y


def quad_case(s):
    return {"eta": eta(s), "j": s.weighted((3, 0.5), (1, -0.5), (1, 1.5)), "d": s.log(1e-2, 5), "t": s.pick(["roman", "script", "left out"])}


def o_quad(c):
    e, j = c["eta"], c["j"]
    want = defining(e, j) / math.gamma(j + 1)
    y = num(e, j, fType="script")
    # observed over 200000 arguments: 3.3e-11 below -10, 3.8e-4 of the value at -20, 1e-8 of it elsewhere (it stops when two
    # refinements agree, and they may agree early by accident)
    tol = min(5e-10, 2e-3 * want) + 1e-6 * want
    require(abs(y - want) <= tol, "the integral of order %r at %r is %r, quadrature gives %r", j, e, y, want)
    require(y > 0, "the integral of order %r at %r is %r", j, e, y)
    e2 = e + c["d"]
    if e2 <= 20:
        y2 = num(e2, j, fType="script")
        require(y2 > y, "the integral of order %r falls from %r at %r to %r at %r", j, y, e, y2, e2)
    r = num(e, j) if c["t"] == "left out" else num(e, j, fType="roman")
    require(abs(r - y * math.sqrt(math.pi) / 2) <= 1e-12 * r, "the roman form at %r is %r, the script form %r", e, r, y)
    if j == 0.5:  # the roman form of order one half is the integral itself
        require(abs(r - defining(e, 0.5)) <= tol, "the roman form at %r is %r, the plain integral %r", e, r, defining(e, 0.5))
    return ["nt", "order %s" % j]


def limit_case(s):
    lo = s.bool()
    d = s.weighted((3, lambda s: s.lattice(0, 20)), (1, lambda s: s.log(1e-6, 1)), (1, lambda s: s.lattice(0, 180))) + 1e-6
    return {"eta": -20 - min(d, 20.0) if lo else 20 + d, "j": s.pick(ORDERS)}


def o_limit(c):
    e, j = c["eta"], c["j"]
    y = num(e, j, fType="script")
    true = defining(e, j) / math.gamma(j + 1)
    if e < -20:
        require(abs(y / math.exp(e) - 1) < 1e-9, "the integral of order %r at %r is %r, the exponential %r", j, e, y, math.exp(e))
        require(abs(y / true - 1) < 1e-8, "the integral of order %r at %r is %r, quadrature gives %r", j, e, y, true)
    else:
        lead = e ** (j + 1) / math.gamma(j + 2)
        require(abs(y / lead - 1) < 1e-9, "the integral of order %r at %r is %r, the leading power %r", j, e, y, lead)
        require(abs(y / true - 1) < 0.02, "the integral of order %r at %r is %r, quadrature gives %r", j, e, y, true)
    r = num(e, j)
    require(abs(r - y * math.sqrt(math.pi) / 2) <= 1e-12 * r, "the roman form at %r is %r, the script form %r", e, r, y)
    return ["nt", "low" if e < 0 else "high"]


def approx_case(s):
    return {"eta": s.weighted((5, eta), (2, lambda s: s.lattice(-40, 200)), (1, lambda s: s.log(20, 1e5)), (1, lambda s: s.pick(EDGES))), "d": s.log(1e-2, 5)}


def o_approx(c):
    e = c["eta"]
    r = G.FD_int_approx(e, 0.5)
    require(len(r) == 1, "FD_int_approx answers %r", r)
    y = float(r[0])
    true = defining(e, 0.5) if e < 300 else 2 / 3 * e ** 1.5 * (1 + math.pi ** 2 / 8 / e ** 2 + 7 * math.pi ** 4 / 640 / e ** 4)
    # three to five times the largest error seen on a scan of each range
    tol = next(t for top, t in ((-10, 1e-10), (-2, 2e-7), (0, 2e-4), (10, 8e-5), (15, 1e-6), (20, 5e-8), (50, 2e-9), (1e9, 8e-10)) if e <= top)
    require(abs(y / true - 1) < tol, "the closed form at %r is %r, quadrature gives %r", e, y, true)
    y2 = float(G.FD_int_approx(e + c["d"], 0.5)[0])
    require(y2 > y > 0, "the closed form falls from %r at %r to %r at %r", y, e, y2, e + c["d"])
    if -20 <= e <= 20:
        n = num(e, 0.5)
        require(abs(y / n - 1) < 2.5e-3, "the closed form at %r is %r, the numerical one %r", e, y, n)
    return ["nt"]


# ---------------------------------------------------------------- gas
H, QE, KB = 6.62607015e-27, 1.602176634e-12, 1.380649e-16  # erg s, erg/eV, erg/K
ME = 9.1093837e-28


def gas_case(s):
    return {"T": s.log(1e-4, 1e5), "m": s.weighted((1, None), (4, lambda s: s.log(1e-28, 1e-20))), "n": s.log(1, 1e26), "V": s.log(1e-9, 1e9), "kT": s.log(1e-2, 1e2),
            "km": s.log(1e-2, 1e2), "kV": s.log(1e-2, 1e2)}


def o_gas(c):
    T, n, V = c["T"], c["n"], c["V"]
    a = () if c["m"] is None else (c["m"],)
    m = ME if c["m"] is None else c["m"]
    q = float(G.get_nQ(T, *a))
    want = (2 * math.pi * m * QE * T / H ** 2) ** 1.5
    require(q > 0 and abs(q / want - 1) < 1e-5, "the quantum concentration at %r eV, mass %r is %r, not %r", T, m, q, want)
    for x, k, what in ((G.get_nQ(T * c["kT"], *a), c["kT"], "temperature"), (G.get_nQ(T, m * c["km"]) * (1 if a else float(q / G.get_nQ(T, m))), c["km"], "mass")):
        require(abs(float(x) / (q * k ** 1.5) - 1) < 1e-12, "%r times the %s takes the quantum concentration from %r to %r", k, what, q, x)
    S = float(G.sackurTetrode(n, m, V, T))
    q = float(G.get_nQ(T, m))
    N = n * V
    per = 2.5 + math.log(q / n)
    require(abs(S - N * KB * per) <= 1e-5 * N * KB * (1 + abs(per)), "the entropy of %r particles at %r /cm3, %r eV, mass %r is %r, not %r", N, n, T, m, S, N * KB * per)
    S2 = float(G.sackurTetrode(n, m, V * c["kV"], T))
    require(abs(S2 - c["kV"] * S) <= 1e-12 * abs(S) * c["kV"] + 1e-12 * N * KB * c["kV"], "%r times the volume takes the entropy from %r to %r", c["kV"], S, S2)
    # at fixed number, doubling the volume adds N k ln 2
    S3 = float(G.sackurTetrode(n / 2, m, V * 2, T))
    require(abs(S3 - S - N * KB * math.log(2)) <= 1e-5 * N * KB * (1 + abs(per)), "free expansion changes the entropy from %r to %r", S, S3)
    require(float(G.sackurTetrode(n, m, V, T * 1.5)) > S, "the entropy falls with temperature")
    return ["nt"]


SUBS = [
    Sub("quadrature", lambda: gen.decoded(quad_case, 16), o_quad, quick=2000, shards=6, thorough=80000, rule="every argument"),
    Sub("limits", lambda: gen.decoded(limit_case, 16), o_limit, quick=2000, shards=1, thorough=40000, rule="every argument"),
    Sub("approx", lambda: gen.decoded(approx_case, 16), o_approx, quick=2000, shards=3, thorough=60000, rule="every argument"),
    Sub("gas", lambda: gen.decoded(gas_case, 30), o_gas, quick=3000, shards=1, thorough=60000, rule="every gas"),
]
