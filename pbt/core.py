"""Sub-checks, the worker that drives one with Hypothesis, and the property runner.

A property is decided by several sub-checks. A sub-check is a Hypothesis strategy for
JSON-serialisable cases and an oracle. The oracle runs the code under test on a case and
  - returns an iterable of tags: the case was decided; the tag "nt" marks it non-trivial,
  - raises Violation when the property is broken,
  - raises Skip when the case lies outside the domain or too close to rounding to decide.
Any other exception out of an oracle is the code under test failing on valid input, and
counts as a violation too.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from . import env


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class _Stop(BaseException):
    """Ends a Hypothesis run early (time budget, or shrinking long enough)."""


class _Hang(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, oracle, quick=1000, thorough=None, rule="", shards=1, isolate=None):
        self.name = name
        self.strategy = strategy      # callable returning a strategy (built lazily)
        self.oracle = oracle
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.shards = shards


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def run_oracle(sub, case):
    """-> (status, tags or message); status in ok, skip, violation"""
    try:
        tags = sub.oracle(case)
        return "ok", list(tags or ())
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", str(e)
    except Exception as e:  # valid input: the code must cope with it
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(env.REPO)]
        f = where[-1] if where else tb[-1]
        return "violation", "%s: %s (at %s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno)


def _alarm(signum, frame):
    raise _Hang()


FAST = bool(os.environ.get("PBT_FAST"))  # mutation testing: no shrinking
HANG_CPU_S = 60.0 if not FAST else 10.0


def work(args):
    """One shard of one sub-check, in a worker process."""
    propmod, subname, shard, examples, seed, budget_s = args
    import importlib
    mod = importlib.import_module("pbt.props." + propmod)
    sub = next(s for s in mod.SUBS if s.name == subname)
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    t0 = time.monotonic()
    st = {"evals": 0, "nt": set(), "skip": collections.Counter(), "tags": collections.Counter(),
          "samples": [], "fail": None, "fail_t": None, "stopped": None, "hang": None}
    # CPU time, not wall time: other load on the machine cannot trigger it
    signal.signal(signal.SIGVTALRM, _alarm)
    out = {"sub": subname, "shard": shard}

    def body(case):
        now = time.monotonic()
        if st["fail"] is None and now - t0 > budget_s:
            st["stopped"] = "time budget"
            raise _Stop()
        if st["fail"] is not None and now - st["fail_t"] > 25:
            raise _Stop()
        st["evals"] += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
        try:
            status, info = run_oracle(sub, case)
        except _Hang:
            st["hang"] = case
            raise _Stop()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if status == "ok":
            for t in info:
                st["tags"][t] += 1
            if "nt" in info:
                c = canonical(case)
                h = hashlib.blake2b(c.encode(), digest_size=12).digest()
                if h not in st["nt"]:
                    st["nt"].add(h)
                    if len(st["samples"]) < 2 and len(c) < 3000 or (len(st["samples"]) < 1):
                        st["samples"].append(json.loads(c))
        elif status == "skip":
            st["skip"][info] += 1
        else:
            size = len(canonical(case))
            if st["fail"] is None:
                st["fail_t"] = now
                st["fail"] = (size, case, info)
            elif size <= st["fail"][0]:
                st["fail"] = (size, case, info)
            if FAST:
                raise _Stop()
            raise Violation(info)

    test = given(sub.strategy())(body)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False)(test)
    test = hypothesis.seed(int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (propmod, subname, shard, seed)).encode())
                                          .digest()[:8], "big"))(test)
    try:
        devnull = open(os.devnull, "w")
        so, sys.stdout = sys.stdout, devnull
        try:
            test()
        finally:
            sys.stdout = so
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if st["fail"] is None:
            out["error"] = "".join(traceback.format_exception(e))[-3000:]
    if st["fail"] is None and st["hang"] is not None:
        st["fail"] = (0, st["hang"], "no result after %d s of processor time" % HANG_CPU_S)
    out.update(evals=st["evals"], nt=st["nt"], skip=dict(st["skip"]), tags=dict(st["tags"]), samples=st["samples"],
               fail=st["fail"], stopped=st["stopped"], wall=time.monotonic() - t0)
    return out
