#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list in seeds.py: each planted bug is a textual replacement
in one or two files of /repo; the patch is made against /repo's HEAD.  usage: mkseeds.py [ID...]"""
import difflib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds  # noqa: E402

REPO = "/repo"
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PRELUDE = '''import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
import general
import general_optics
from general_optics import *
from optics3d import *
from Shapes.shapes import *


def V(*x):
    return np.array(x, dtype=float)


def close(a, b, tol=1e-7):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol))


'''


def main():
    want = sys.argv[1:]
    for s in seeds.SEEDS:
        if want and s["id"] not in want:
            continue
        patch = ""
        for f in sorted({f for f, _, _ in s["edits"]}):
            src = open(os.path.join(REPO, f)).read()
            new = src
            for g, a, b in s["edits"]:
                if g == f:
                    assert new.count(a) == 1, (s["id"], f, new.count(a), a)
                    new = new.replace(a, b)
            d = difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f)
            for l in d:
                patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(PRELUDE + s["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")


main()
