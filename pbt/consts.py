"""A dictionary for the generators, as fuzzers build one: the numbers and short strings that the code under test mentions.

Thresholds in the code are where its behaviour changes, so generated numbers now and then are one of these, or next to one. Those the
tree as first checked (constants.json) did not mention come more often: a change usually behaves differently near what it mentions.
They only steer generation; what is right is decided by the oracles.
"""
import ast
import json
import math
import os

from . import env

FILE = os.path.join(env.VERIF, "pbt", "constants.json")


def harvest(repo):
    nums, strs = set(), set()
    for d, dirs, files in os.walk(repo):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x != "__pycache__"]
        for f in files:
            if not f.endswith(".py") or f.startswith(("test_", "script_")):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as h:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(h.read())
            except (SyntaxError, OSError, ValueError):
                continue
            for n in ast.walk(tree):
                v = value(n)
                if isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v) and 1e-12 <= abs(v) <= 1e9:
                    nums.add(float(v))
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 12 and "\n" not in n.value:
                    strs.add(n.value)
    return nums, strs


def value(n):
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, (int, float)) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = value(n.operand)
        return -v if v is not None else None
    if isinstance(n, ast.BinOp):
        a, b = value(n.left), value(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Pow) and abs(b) <= 20:
                return float(a) ** b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
        except (ArithmeticError, ValueError, TypeError):
            return None
    return None


def load():
    try:
        with open(FILE) as f:
            old = json.load(f)
        nums, strs = harvest(env.REPO)
    except Exception:
        return [], [], []
    new = sorted(nums - set(old["numbers"]), key=lambda x: (abs(x), x))
    return sorted(nums & set(old["numbers"]), key=lambda x: (abs(x), x)), new, sorted(strs - set(old["strings"]))


def around(x):
    """a number the code mentions, and what lies next to it"""
    x = abs(x)
    out = [x, x * (1 + 1e-6), x * (1 - 1e-6), x * 1.01, x * 0.99, x * 1.5, 2 * x, x / 2]
    if x == int(x) and x < 1e6:
        out += [x + 1, x - 1]
    return out


OLD, NEW, NEW_STRINGS = load()
NEAR_OLD = [y for x in OLD for y in (x, x * 1.01, x * 0.99, 2 * x, x / 2)]
NEAR_NEW = [y for x in NEW for y in around(x)]
NEW_COUNTS = sorted({int(x) + k for x in NEW if x == int(x) and 1 < abs(x) <= 300 for k in (0, 1) if x > 0})


_cache = {}


def within(lo, hi):
    """-> (near new constants, near old ones) in [lo, hi], of both signs"""
    key = lo, hi
    if key not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[key] = tuple([y for x in pool for y in ((x, -x) if lo < 0 else (x,)) if lo <= y <= hi] for pool in (NEAR_NEW, NEAR_OLD))
    return _cache[key]


if __name__ == "__main__":
    nums, strs = harvest(env.REPO)
    with open(FILE, "w") as f:
        json.dump({"numbers": sorted(nums), "strings": sorted(strs)}, f, indent=0)
        f.write("\n")
    print(len(nums), len(strs))
