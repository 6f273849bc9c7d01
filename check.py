#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE] [--only SUB] [--scale X]

Decides one property of /repo's working tree. VERIF_TIER (quick or thorough) and VERIF_SEED
come from the environment. Exit 0: held on everything explored; 1: violated (VIOLATION line);
2: the check itself failed.
"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env  # noqa: E402


QUICK_FACTOR = 2.5  # the SUBS tables' quick counts times this


def known_findings(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that everything a check needs is present")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if not a.prop:
        ap.error("which property?")
    prop = a.prop.upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    import importlib
    try:
        env.load()
    except Exception as e:
        # the code under test cannot even be imported: nothing it guarantees holds
        path = save_replay(prop, "import", {}, "import failed: %r" % e)
        print("the code under test does not import: %r" % e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    from pbt import core
    mod = importlib.import_module("pbt.props." + prop.lower())

    if a.replay:
        r = json.load(open(a.replay))
        sub = next(s for s in mod.SUBS if s.name == r["sub"])
        status, info = core.run_oracle(sub, r["case"])
        print(status, info)
        if status == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    known = known_findings(prop)
    subs = [s for s in mod.SUBS if not a.only or s.name == a.only]
    jobs = []
    for s in subs:
        n = s.quick * QUICK_FACTOR if tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards if tier == "quick" else max(s.shards, 8)
        budget = 200 if tier == "quick" else 1500
        for k in range(shards):
            jobs.append((prop.lower(), s.name, k, max(1, n // shards), seed, budget))
    import concurrent.futures as cf
    import multiprocessing as mp
    results = []
    # long shards first
    with cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=mp.get_context("fork")) as ex:
        for r in ex.map(core.work, jobs):
            results.append(r)
            if core.FAST and r["fail"]:
                print("VIOLATION property=%s replay=none [%s] %s" % (prop, r["sub"], r["fail"][2]), flush=True)
                for p in ex._processes.values():
                    p.kill()
                os._exit(1)

    errors = [r for r in results if r.get("error")]
    fails = [r for r in results if r["fail"]] if not errors else [r for r in results if r.get("fail")]
    per, samples, evals, distinct, skips = {}, [], 0, set(), 0
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name and "evals" in r]
        nt = set().union(*[r["nt"] for r in rs]) if rs else set()
        tags, skip = {}, {}
        for r in rs:
            for k, v in r["tags"].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in r["skip"].items():
                skip[k] = skip.get(k, 0) + v
        per[s.name] = {"evaluations": sum(r["evals"] for r in rs), "distinct_nontrivial": len(nt), "rule": s.rule,
                       "classes": dict(sorted(tags.items())), "undecided": dict(sorted(skip.items())),
                       "wall_s": round(sum(r["wall"] for r in rs), 2),
                       "stopped_early": [r["stopped"] for r in rs if r["stopped"]]}
        evals += per[s.name]["evaluations"]
        distinct |= {(s.name, h) for h in nt}
        for r in rs[:1]:
            for c in r["samples"][:1]:
                samples.append({"sub": s.name, "case": c})
    viol = 0
    lines = []
    if fails:
        best = {}
        for r in fails:
            size, case, msg = r["fail"]
            if r["sub"] not in best or size < best[r["sub"]][0]:
                best[r["sub"]] = (size, case, msg)
        for name, (size, case, msg) in best.items():
            sub = next(s for s in subs if s.name == name)
            case = json.loads(core.canonical(case))
            hit = next((k for k in known if k["sub"] == name and k["case"] == case), None)
            if hit:
                continue
            status, info = core.run_oracle(sub, case) if "processor time" not in msg else ("violation", msg)
            if status != "violation":
                msg += " (seen during the run; the case alone gave: %s)" % status
            path = save_replay(prop, name, case, msg)
            lines.append("  [%s] %s\n  case: %s" % (name, msg, core.canonical(case)[:1500]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            viol += 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct),
                       "rule": getattr(mod, "RULE", "") + " Per sub-check rules are under subchecks.",
                       "samples": samples, "subchecks": per},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for s in subs:
        p = per[s.name]
        print("%s %-24s cases %6d  non-trivial %6d  cpu %6.1fs  undecided %s %s" % (
            prop, s.name, p["evaluations"], p["distinct_nontrivial"], p["wall_s"], p["undecided"] or 0,
            p["classes"] if a.only or os.environ.get("PBT_VERBOSE") else ""))
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, evals, len(distinct),
                                                                        time.monotonic() - t0))
    for l in lines:
        print(l)
    if viol:
        return 1
    if errors:
        for r in errors[:3]:
            print("check error in %s: %s" % (r["sub"], r["error"]), file=sys.stderr)
        return 2
    return 0


def selftest():
    """What the checks need apart from the code under test: no build step exists."""
    import hypothesis
    import numpy
    from pbt import ref
    t, x, n, _ = ref.element_hit({"k": "flat", "pos": [0, 0, 5], "n": [0, 0, 1], "D": 2}, (0.1, 0.0, 0.0), (0.0, 0.0, 1.0), 1e-6, 1e-6)
    assert abs(t - 5) < 1e-12 and x == (0.1, 0.0, 5.0), (t, x, n)
    print("hypothesis %s, numpy %s" % (hypothesis.__version__, numpy.__version__))
    return 0


def save_replay(prop, sub, case, msg):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, sub))
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "message": msg, "case": case}, f, indent=1)
        f.write("\n")
    return path


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # the check itself failed; exit code 1 is for violations only
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
