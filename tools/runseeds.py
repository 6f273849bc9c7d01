#!/usr/bin/env python3
"""Validates planted bugs in scratch copies of /repo and runs the checks against them.
usage: runseeds.py [--no-check] [--all-checks] [ID...]"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",
           MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig")


def sh(cmd, cwd, env=ENV, t=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def one(args):
    sid, mode = args
    d = os.path.join(SEEDED, sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    r = {"id": sid, "property": prop}
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        c = os.path.join(w, "repo")
        shutil.copytree("/repo", c, symlinks=True)
        demo = os.path.join(w, "demo")
        shutil.copytree(d, demo)
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], c)
        r["demo_clean"] = rc
        if rc:
            r["out_clean"] = out[-600:]
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], c)
        if rc:
            r["apply"] = out
            return r
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], c)
        m = re.search(r"(\d+) passed", out)
        r["tests"] = "%s rc=%d" % (m.group(1) if m else "?", rc)
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], c)
        r["demo_patched"] = rc
        r["demo_out"] = out.strip()[-160:]
        if mode == "none":
            return r
        checks = [prop] if mode == "own" else ["C%02d" % i for i in range(1, 32)]
        caught = []
        for k in checks:
            # a copy of the committed checks, so that replays and evidence stay apart
            v = os.path.join(w, "v" + k)
            os.makedirs(v)
            for x in ("check.py", "pbt", "known_findings.json"):
                (shutil.copytree if os.path.isdir(os.path.join(VERIF, x)) else shutil.copy)(os.path.join(VERIF, x), os.path.join(v, x))
            rc, out = sh([os.path.join(v, "check.py"), k, "--jobs", "4"], v, dict(ENV, PBT_REPO=c, VERIF_SEED="1"))
            if rc == 1:
                caught.append(k)
                if k == prop:
                    r["subs"] = re.findall(r"^  \[(\S+)\] (.{0,110})", out, re.M)
            elif rc != 0:
                caught.append(k + "!rc%d" % rc)
                r["err"] = out[-800:]
        r["caught"] = caught
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    mode = "own"
    if "--no-check" in a:
        mode = "none"
        a.remove("--no-check")
    if "--all-checks" in a:
        mode = "all"
        a.remove("--all-checks")
    ids = a or sorted(os.listdir(SEEDED))
    n = bad = 0
    rows = []
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, [(i, mode) for i in ids]):
            ok = r.get("demo_clean") == 0 and r.get("demo_patched") not in (0, None) and r.get("tests", "").startswith("24 passed"[:2])
            hit = r["property"] in r.get("caught", [])
            n += 1
            rows.append({"id": r["id"], "property": r["property"], "caught": hit, "subs": sorted({s[0] for s in r.get("subs", [])})})
            bad += not (ok and (hit or mode == "none"))
            print("%-34s %s %s %s %s" % (r["id"], r["property"], "valid" if ok else "INVALID %r" % r,
                                         "" if mode == "none" else "CAUGHT" if hit else "MISSED", r.get("caught", "")), flush=True)
            for s in r.get("subs", [])[:3]:
                print("      %s: %s" % s)
            if r.get("err"):
                print(r["err"])
            if not hit and ok:
                print("      demo:", r.get("demo_out"))
    if not a and mode == "own":
        json.dump(rows, open(os.path.join(VERIF, "tools", "caught.json"), "w"), indent=1)
    print(n, "seeds,", bad, "to look at")


main()
