#!/opt/venv/bin/python
"""Writes DESIGN.md from design_head.md, design_props.json, the sub-check tables, caught.json and design_tail.md."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from pbt import env  # noqa: E402,F401
import check  # noqa: E402

P = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
T = json.load(open(os.path.join(HERE, "design_props.json")))
out = open(os.path.join(HERE, "design_head.md")).read() + "\n"
out += "Quick counts are generated cases per run; the thorough tier runs the last column's number.\n\n"
for p in P:
    m = importlib.import_module("pbt.props." + p["id"].lower())
    out += "### %s %s\n\n%s\n\n| sub-check | quick | thorough | a case is non-trivial when |\n|---|---|---|---|\n" % (p["id"], p["title"], T[p["id"]])
    for s in m.SUBS:
        out += "| %s | %d | %d | %s |\n" % (s.name, s.quick * check.QUICK_FACTOR, s.thorough, s.rule)
    out += "\n"
out += "## 4. Cost\n\nA quick check takes 5 to 60 s on 8 cores (limit 900 s); all 31 about 12 minutes. Thorough checks take 5 to 30 minutes each.\nThe strength is that of random search: nothing is proved; what was explored is in `evidence/<id>.json`.\n\n"
out += open(os.path.join(HERE, "design_tail.md")).read()
f = os.path.join(HERE, "caught.json")
if os.path.exists(f):
    rows = json.load(open(f))
    out += "\n%d planted bugs, %d caught by their property's check at seed 1 (column: the sub-checks that caught it):\n\n| planted bug | needs | caught by |\n|---|---|---|\n" % (
        len(rows), sum(bool(r["caught"]) for r in rows))
    for r in rows:
        meta = json.load(open(os.path.join(VERIF, "seeded", r["id"], "meta.json")))
        out += "| %s | %s | %s |\n" % (r["id"], meta["needs"].replace("|", "/"), (r["property"] + " " + ", ".join(r["subs"])) if r["caught"] else "missed")
open(os.path.join(VERIF, "DESIGN.md"), "w").write(out)
