"""C25: data helpers compute what they document."""
import math
from fractions import Fraction

import numpy as np

from .. import build, gen
from ..core import Sub, Skip, require

RULE = "Arrays of drawn length and content, windows, orders, derivatives, rates and wavelengths are drawn."
G = build.gen_
HC = 6.62607015e-34 * 299792458 / 1.602176634e-19 * 1e9  # eV nm, exact in the SI of 2019


# ---------------------------------------------------------------- conversions
def conv_case(s):
    return {"x": s.weighted((4, lambda s: s.lattice(200, 2000)), (3, lambda s: s.log(1e-6, 1e9)), (1, lambda s: s.pick([1, 532, 1240, 2]))),
            "k": s.log(1e-3, 1e3), "many": s.below(6)}


def o_conv(c):
    x, k = c["x"], c["k"]
    E, W = G.wavelength_nm_to_energy_eV, G.energy_eV_to_wavelength_nm
    e = float(E(x))
    require(e > 0 and abs(e * x / HC - 1) < 1e-6, "%r nm is %r eV: the product is %r, not %r", x, e, e * x, HC)
    w = float(W(x))
    require(w > 0 and abs(w * x / HC - 1) < 1e-6, "%r eV is %r nm: the product is %r, not %r", x, w, w * x, HC)
    for f, g in ((E, W), (W, E)):
        require(abs(float(g(f(x))) / x - 1) < 1e-12, "there and back takes %r to %r", x, g(f(x)))
        require(abs(float(f(x * k)) * k / float(f(x)) - 1) < 1e-12, "not reciprocal: %r at %r, %r at %r times that", f(x), x, f(x * k), k)
    if c["many"]:
        a = np.array([x * (i + 1) for i in range(c["many"])])
        keep = a.copy()
        got = np.asarray(E(a), dtype=float)
        require(np.array_equal(a, keep), "the argument was changed")
        require(got.shape == a.shape and all(abs(p / float(E(float(q))) - 1) < 1e-12 for p, q in zip(got, a)), "an array converts to %s", got)
    return ["nt"]


# ---------------------------------------------------------------- nearest
def near_case(s):
    n = s.weighted((1, 1), (5, lambda s: s.int(1, 12)), (1, lambda s: s.int(10, 60)))
    a = [s.num(-100, 100) if s.bool(0.7) else s.sint(5) for _ in range(n)]
    if s.bool(0.2):
        a.sort()
    if s.bool(0.2):
        a = [s.sint(9) for _ in range(n)]
    k = s.byte()
    if k < 12:  # long tables
        q = s.int(1, 10 ** 5)
        a = [(i * 7919 * q + q) % 100003 / 500 - 100 for i in range(s.int(60, 3000))]
        if k < 6:
            a.sort(reverse=k == 5)
    v = s.weighted((3, lambda s: s.num(-120, 120)), (2, lambda s: s.pick(a)), (1, lambda s: (s.pick(a) + s.pick(a)) / 2), (1, lambda s: s.sint(9)))
    k = s.byte()
    if k < 40:  # large numbers, tables around a large value
        m = 10.0 ** s.int(3, 12)
        off = m * s.pick([0, 1, -1, 3])
        q = 1 if off == 0 else 1e-9 if k < 10 else 1e-3
        a, v = [x * m * q + off for x in a], v * m * q + off
    elif k < 60:  # small ones
        q = 10.0 ** -s.int(3, 40)
        a, v = [x * q for x in a], v * q
    return {"a": a, "v": v}


def o_near(c):
    a = build.arr(c["a"])
    keep = a.copy()
    res = G.find_nearest(a, c["v"])
    require(len(res) == 2, "find_nearest answers %r", res)
    i, x = res
    require(np.array_equal(a, keep), "the array was changed")
    i = int(i)
    require(0 <= i < len(a), "index %r of %d elements", i, len(a))
    require(float(x) == float(a[i]), "element %r reported with index %d, which holds %r", x, i, a[i])
    best = min(abs(float(y) - c["v"]) for y in c["a"])
    require(abs(float(x) - c["v"]) <= best * (1 + 1e-12), "the nearest to %r in %s is reported as %r", c["v"], c["a"], x)
    return ["nt"] if len(a) > 1 else []


# ---------------------------------------------------------------- logarithmic interpolation
def log_case(s):
    n = s.int(2, 12)
    x = [s.log(1e-4, 1e4)]
    for _ in range(n - 1):
        x.append(float("%.6g" % (x[-1] * (1 + s.log(1e-2, 10)))))
    c = {"x": x, "q": [s.frac() for _ in range(4)], "kind": s.pick(["data", "power"])}
    if c["kind"] == "data":
        c["y"] = [s.log(1e-6, 1e6) for _ in x]
    else:
        c["A"], c["p"] = s.log(1e-3, 1e3), s.lattice(-4, 4)
    return c


def o_log(c):
    x = np.array(c["x"], dtype=float)
    if c["kind"] == "data":
        y = np.array(c["y"], dtype=float)
    else:
        y = c["A"] * x ** c["p"]
    kx, ky = x.copy(), y.copy()
    f = G.log_interp1d(x, y)
    require(np.array_equal(x, kx) and np.array_equal(y, ky), "the data were changed")
    at = np.asarray(f(x), dtype=float)
    require(at.shape == x.shape and np.all(np.abs(at / y - 1) < 1e-9), "through %s, %s the interpolation gives %s", x.tolist(), y.tolist(), at.tolist())
    for q in c["q"]:
        lx = math.log(x[0]) + q * (math.log(x[-1]) - math.log(x[0]))
        z = min(max(math.exp(lx), x[0]), x[-1])
        got = float(f(z))
        if c["kind"] == "power":
            want = c["A"] * z ** c["p"]
        else:  # straight between neighbours in log-log
            k = max(i for i in range(len(x) - 1) if x[i] <= z)
            u = math.log(z / x[k]) / math.log(x[k + 1] / x[k])
            want = math.exp(math.log(y[k]) * (1 - u) + math.log(y[k + 1]) * u)
        require(abs(got / want - 1) < 1e-8, "through %s, %s the value at %r is %r, not %r", x.tolist(), y.tolist(), z, got, want)
    return ["nt"]


# ---------------------------------------------------------------- moving average
def avg_case(s):
    n = s.weighted((4, lambda s: s.int(1, 40)), (1, lambda s: s.int(1, 4)))
    N = s.weighted((5, lambda s: s.int(1, min(n, 12))), (1, lambda s: s.int(1, n)))
    x = [s.num(-100, 100) for _ in range(n)]
    if s.byte() < 8:  # long records
        n = s.int(60, 4000)
        x = [x[i % len(x)] + (i * 7919) % 1009 / 10 for i in range(n)]
        N = s.int(1, 60)
    return {"x": x, "N": N}


def o_avg(c):
    x = np.array(c["x"], dtype=float)
    keep = x.copy()
    N, n = c["N"], len(x)
    y = np.asarray(G.movingAverageFast(x, N), dtype=float)
    require(np.array_equal(x, keep), "the data were changed")
    require(y.shape == x.shape, "%d values became %s", n, y.shape)
    tol = 1e-10
    h = N // 2
    # odd windows are centred; an even one may lean to either side, the same everywhere
    starts = [h] if N % 2 else [h, h - 1]
    ok = []
    for st in starts:
        bad = None
        for i in range(h, n - h):
            if i - st < 0 or i - st + N > n:
                continue
            m = math.fsum(c["x"][i - st:i - st + N]) / N
            if abs(y[i] - m) > tol:
                bad = (i, float(y[i]), m)
                break
        for i in range(n):  # near the ends the rest of the window counts as zeros
            if bad is None and not (0 <= i - st and i - st + N <= n):
                m = math.fsum(c["x"][max(0, i - st):max(0, i - st + N)]) / N
                if abs(y[i] - m) > tol:
                    bad = (i, float(y[i]), m)
        ok.append(bad)
    require(any(b is None for b in ok), "window %d over %s: value %s is %s, the mean of its window is %s", N, c["x"], *(ok[0] or (0, 0, 0)))
    return ["nt"] if N > 1 and n - 2 * h > 0 else []


# ---------------------------------------------------------------- smoothing filter
def sg_case(s):
    order = s.int(0, 5)
    w = order + 2
    w += 1 - w % 2
    w += 2 * s.int(0, (31 - w) // 2)
    if s.byte() < 10:
        w += 2 * s.int(0, 35)
    n = s.int(w, w + 30)
    if s.byte() < 4:
        n = s.int(200, 2500)
    c = {"w": w, "order": order, "deriv": s.int(0, order) if s.bool(0.6) else 0, "rate": s.weighted((2, 1), (2, lambda s: s.log(0.1, 100)), (1, lambda s: s.pick([2, 10, 0.5]))),
         "coef": [s.lattice(-3, 3) for _ in range(s.int(0, order) + 1)], "n": n, "as_list": False}
    c["noise"] = [s.lattice(-5, 5) for _ in range(min(n, 12))]
    c["k"] = s.lattice(-4, 4)
    return c


def o_sg(c):
    w, order, d, rate, n = c["w"], c["order"], c["deriv"], c["rate"], c["n"]
    h = w // 2
    # exact sampling around the middle keeps the numbers small
    xs = [(i - n // 2) / rate for i in range(n)]

    def poly(cf, x):
        return math.fsum(a * x ** k for k, a in enumerate(cf))
    y = np.array([poly(c["coef"], x) for x in xs])
    cf = list(c["coef"])
    for _ in range(d):
        cf = [k * a for k, a in enumerate(cf)][1:]
    want = [poly(cf, x) for x in xs]
    keep = y.copy()
    kw = {}
    if d:
        kw["deriv"] = d
    if rate != 1:
        kw["rate"] = rate
    got = np.asarray(G.savitzky_golay(y, w, order, **kw), dtype=float).ravel()
    require(np.array_equal(y, keep), "the signal was changed")
    require(got.shape == (n,), "%d values became %s", n, got.shape)
    scale = (1 + float(np.max(np.abs(y)))) * max(1.0, rate ** d)
    for i in range(h, n - h):
        require(abs(got[i] - want[i]) <= 1e-7 * scale, "window %d, order %d, derivative %d, rate %r: polynomial %s gives %r at sample %d, not %r", w, order, d,
                rate, c["coef"], got[i], i, want[i])
    # linear
    z = np.array([c["noise"][i % len(c["noise"])] for i in range(n)])
    gz = np.asarray(G.savitzky_golay(z, w, order, **kw), dtype=float).ravel()
    gs = np.asarray(G.savitzky_golay(y + c["k"] * z, w, order, **kw), dtype=float).ravel()
    for i in range(h, n - h):
        require(abs(gs[i] - got[i] - c["k"] * gz[i]) <= 1e-8 * (scale + 50 * max(1.0, rate ** d)), "not linear at sample %d: %r + %r * %r is not %r", i, got[i], c["k"],
                gz[i], gs[i])
    # a least-squares fit: of all polynomials of the order, the one through the window (value at the centre)
    if d == 0 and n > 2 * h:
        i = h + (n - 2 * h) // 2
        t = np.arange(-h, h + 1) / h
        fit = np.polynomial.polynomial.polyfit(t, z[i - h:i + h + 1], order)[0]
        require(abs(fit - gz[i]) <= 1e-7 * 10, "window %d, order %d: the fit of %s at its middle is %r, the filter gives %r", w, order, z[i - h:i + h + 1].tolist(),
                fit, gz[i])
    # near the ends: the signal goes on, turned about its first and last value (downwards before the first, upwards after the last)
    for sig, res in ((y, got), (z, gz)):
        head = [sig[0] - abs(sig[k] - sig[0]) for k in range(h, 0, -1)]
        tail = [sig[-1] + abs(sig[-1 - k] - sig[-1]) for k in range(1, h + 1)]
        long = np.concatenate((head, sig, tail))
        inner = np.asarray(G.savitzky_golay(long, w, order, **kw), dtype=float).ravel()[h:-h] if h else res
        top = (1 + float(np.max(np.abs(long)))) * max(1.0, rate ** d)
        for i in list(range(h)) + list(range(n - h, n)):
            require(abs(inner[i] - res[i]) <= 1e-8 * top, "window %d, order %d, derivative %d over %s: sample %d, near the end, is %r, not %r", w, order, d, sig.tolist(), i,
                    res[i], inner[i])
    tags = ["nt"] if len(c["coef"]) > 1 else []
    if d:
        tags.append("derivative")
    return tags


def reject_case(s):
    order = s.int(0, 6)
    k = s.pick(["even", "small", "zero"])
    w = 2 * s.int(1, 15) if k == "even" else 0 if k == "zero" else max(1, order + 1 - s.int(0, order))
    return {"w": w, "order": order, "n": s.int(40, 60), "deriv": s.int(0, order)}


def o_reject(c):
    if c["w"] % 2 and c["w"] >= c["order"] + 2:
        raise Skip("a valid window")
    try:
        G.savitzky_golay(np.arange(c["n"], dtype=float), c["w"], c["order"], deriv=c["deriv"])
    except (TypeError, ValueError):
        return ["nt"]
    require(False, "window %d with order %d was accepted", c["w"], c["order"])


SUBS = [
    Sub("conversions", lambda: gen.decoded(conv_case, 16), o_conv, quick=3000, rule="every value"),
    Sub("nearest", lambda: gen.decoded(near_case, 260), o_near, quick=5000, rule="two or more elements"),
    Sub("log_interp", lambda: gen.decoded(log_case, 110), o_log, quick=3000, shards=2, rule="every data set"),
    Sub("moving_average", lambda: gen.decoded(avg_case, 180), o_avg, quick=4000, shards=2, rule="a window longer than one with an interior"),
    Sub("smoothing", lambda: gen.decoded(sg_case, 100), o_sg, quick=3000, shards=2, rule="a polynomial of degree one or more"),
    Sub("rejects", lambda: gen.decoded(reject_case, 8), o_reject, quick=400, thorough=2000, rule="every invalid window"),
]
