#!/opt/venv/bin/python
"""Mutation testing of the checks: small syntactic changes of the modules under test, one at a
time, in scratch copies. Those that pass the repository's tests and every mapped check are listed.
usage: mutate.py OUT.jsonl [--file F] [--func REGEX] [--sample N] [--seed S] [--jobs N]"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["optics3d.py", "Shapes/shapes.py", "general_optics.py", "general.py"]
MAP = [  # (file, function regex, checks)
    ("optics3d.py", r"^add_faerie", ["C18"]), ("optics3d.py", r"^get_index", ["C12"]), ("optics3d.py", r"^Optic\.", ["C22", "C02"]),
    ("optics3d.py", r"\.draw$", ["C28"]), ("optics3d.py", r"\.__repr__$", ["C22"]), ("optics3d.py", r"\.__init__$", ["C22", "C02", "C05", "C04"]),
    ("optics3d.py", r"^Compound\.", ["C13", "C11", "C12"]), ("optics3d.py", r"^Mirror\.", ["C15", "C09", "C02"]),
    ("optics3d.py", r"^Lens\.", ["C14", "C11", "C12", "C02"]), ("optics3d.py", r"^Grating\.", ["C16", "C09", "C02"]),
    ("optics3d.py", r"^Detector\.", ["C17", "C02"]), ("optics3d.py", r"^Ray\.(fly|run|get_plot)", ["C01", "C02", "C03", "C18", "C17"]),
    ("optics3d.py", r"^Ray\.refract", ["C14", "C10", "C11"]), ("optics3d.py", r"^Ray\.reflect", ["C09", "C16"]),
    ("Shapes/shapes.py", r"^(check|Rect)", ["C22", "C06", "C04"]), ("Shapes/shapes.py", r"^Plane|^Circle|^Shape", ["C06", "C22"]),
    ("Shapes/shapes.py", r"^Infinite", ["C08", "C22"]), ("Shapes/shapes.py", r"^Sphere", ["C07", "C22"]), ("Shapes/shapes.py", r"", ["C22"]),
    ("general_optics.py", r"^(unit|angle|distance|project)", ["C19", "C09"]), ("general_optics.py", r"^(rotation|scaling|transl)", ["C20"]),
    ("general_optics.py", r"^pathpatch", ["C28"]), ("general_optics.py", r"^image", ["C18"]),
    ("general_optics.py", r"^(Binary|postOrder|print)", ["C21", "C12"]), ("general_optics.py", r"^(collect|test_tree|oper)", ["C13", "C12", "C11"]),
    ("general.py", r"^(get_nQ|sack|FD)", ["C26"]), ("general.py", r"^(savit|log_int|find|wavelength_nm|energy|moving)", ["C25"]),
    ("general.py", r"^wavelength_to", ["C24"]), ("general.py", r"^to_prec", ["C23"]), ("general.py", r"^(prism|nparray)", ["C29"]),
    ("general.py", r"^delete", ["C27"]), ("general.py", r"^set_axes", ["C28"]),
]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", MPLBACKEND="Agg",
           MPLCONFIGDIR="/opt/mplconfig", PBT_FAST="1", VERIF_SEED="1")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def mutants(tree):
    """Yields (node path description, qualname, line, mutated tree)."""
    quals = {}

    def walk(node, qual):
        for child in ast.iter_child_nodes(node):
            q = qual
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + child.name
            quals[child] = q
            walk(child, q)
    walk(tree, "")
    nodes = list(ast.walk(tree))
    for k, n in enumerate(nodes):
        q = quals.get(n, "")
        if not q:
            continue

        def emit(desc, fn):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            fn(m, t)
            return (desc, q, getattr(n, "lineno", 0), t)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield emit("%s -> %s" % (type(op).__name__, new.__name__), lambda m, t, i=i, new=new: m.ops.__setitem__(i, new()))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield emit("%s -> %s" % (type(n.op).__name__, new.__name__), lambda m, t, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield emit("bool op", lambda m, t: setattr(m, "op", new()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield emit("drop %s" % type(n.op).__name__, lambda m, t: replace(t, m, m.operand))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                yield emit("%r -> %r" % (v, not v), lambda m, t: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                for w in ([v + 1, 0] if isinstance(v, int) and v else [1] if v == 0 else [v * 1.01, v * 10]):
                    yield emit("%r -> %r" % (v, w), lambda m, t, w=w: setattr(m, "value", w))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield emit("delete statement", lambda m, t: replace(t, m, ast.Pass()))
        elif isinstance(n, ast.If):
            yield emit("if True", lambda m, t: setattr(m, "test", ast.Constant(True)))
            yield emit("if False", lambda m, t: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, ast.Break):
            yield emit("break -> continue", lambda m, t: replace(t, m, ast.Continue()))
        elif isinstance(n, ast.Continue):
            yield emit("continue -> break", lambda m, t: replace(t, m, ast.Break()))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            def swap(m, t):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield emit("swap arguments", swap)
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if name not in ("print", "range", "len", "append", "ValueError"):
                yield emit("drop call %s" % name, lambda m, t: replace(t, m, m.args[0]))


def replace(tree, old, new):
    for node in ast.walk(tree):
        for f, v in ast.iter_fields(node):
            if v is old:
                setattr(node, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return


def run(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(a):
    f, desc, q, line, src, snapshot = a
    r = {"file": f, "func": q, "line": line, "mutation": desc}
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        c = os.path.join(w, "repo")
        shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(c, f), "w").write(src)
        rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], c, ENV, 120)
        if rc:
            r["killed"] = "tests"
            return r
        checks = next(m[2] for m in MAP if m[0] == f and re.search(m[1], q))
        env = dict(ENV, PBT_REPO=c)
        for scale in ("0.25", "1"):
            for k in checks:
                rc, out = run([os.path.join(snapshot, "check.py"), k, "--jobs", "2", "--scale", scale], snapshot, env, 400)
                if rc:
                    r["killed"] = k
                    r["msg"] = out.strip().split("\n")[-1][:200]
                    return r
        for k in ["C%02d" % i for i in range(1, 30)]:
            if k not in checks:
                rc, out = run([os.path.join(snapshot, "check.py"), k, "--jobs", "2", "--scale", "0.3"], snapshot, env, 400)
                if rc:
                    r["killed"] = k
                    r["unmapped"] = True
                    r["msg"] = out.strip().split("\n")[-1][:200]
                    return r
        r["killed"] = None
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file")
    ap.add_argument("--func", default="")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=5)
    a = ap.parse_args()
    # a copy of the checks, so that edits to /verif do not disturb a run
    snap = tempfile.mkdtemp(prefix="mutchk-", dir="/tmp")
    for x in ("check.py", "pbt", "known_findings.json"):
        s = os.path.join(VERIF, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(snap, x))
    todo = []
    for f in FILES:
        if a.file and f != a.file:
            continue
        src = open(os.path.join("/repo", f)).read()
        lines = src.split("\n")
        for desc, q, line, t in mutants(ast.parse(src)):
            if not re.search(a.func, q):
                continue
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, f, "exec")
            except Exception:
                continue
            todo.append((f, desc, q, line, new, snap))
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    print("%d mutants" % len(todo), flush=True)
    n = {}
    with open(a.out, "a") as out, cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, todo):
            src = open(os.path.join("/repo", r["file"])).read().split("\n")
            r["src"] = src[r["line"] - 1].strip() if r["line"] else ""
            out.write(json.dumps(r) + "\n")
            out.flush()
            k = "survived" if r["killed"] is None else r["killed"]
            n[k] = n.get(k, 0) + 1
            if r["killed"] is None:
                print(json.dumps(r), flush=True)
    print(n)
    shutil.rmtree(snap, ignore_errors=True)


if __name__ == "__main__":
    main()
