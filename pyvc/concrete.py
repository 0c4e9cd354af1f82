"""Bounded concrete oracle: concrete.py ID OUT --hints F --seed N --tier T --budget S [--replay F]

Imports the REAL (uninstrumented) package from /repo and runs the property's
executable contract on solver counterexamples, structured cases and seeded
random cases.  Stops at the first violation that is not a known finding.
"""
import argparse
import ast
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Violation(Exception):
    def __init__(self, what, case=None):
        Exception.__init__(self, what)
        self.what = what
        self.case = case


class CaseTimeout(Exception):
    pass


def harvest(files):
    """integer / float / string literals of the current source, with neighbours"""
    ints, strs, floats = set(), set(), set()
    for fn in files:
        p = os.path.join(REPO, "pyembroidery", fn)
        try:
            tree = ast.parse(open(p, encoding="utf8").read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and 0 < len(v) < 60:
                    strs.add(v)
    return ints, floats, strs


def near(ints, lo, hi):
    out = set()
    for v in ints:
        for d in (-2, -1, 0, 1, 2):
            for w in (v + d, -v + d):
                if lo <= w <= hi:
                    out.add(w)
    return sorted(out)


class Run(object):
    def __init__(self, args, known):
        self.seed = args.seed
        self.tier = args.tier
        self.rng = random.Random(args.seed)
        self.deadline = time.time() + args.budget
        self.hints = []
        if args.hints and os.path.exists(args.hints):
            self.hints = json.load(open(args.hints))
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.known = known
        self.known_hit = {}
        self.violation = None
        self.phases = {}

    def time_left(self):
        return self.deadline - time.time()

    def more(self):
        return self.violation is None and time.time() < self.deadline

    def case(self, oracle, case, phase="random", sig=None, limit=20):
        """run oracle(case); oracle raises Violation / AssertionError / other exceptions on a break"""
        if self.violation is not None:
            return False
        self.evals += 1
        self.phases[phase] = self.phases.get(phase, 0) + 1
        if sig is None:
            sig = repr(case)[:200]
        self.sigs.add(hash(sig))
        if len(self.samples) < 6 and (self.evals in (1, 2, 5, 50, 500, 5000)):
            self.samples.append({"phase": phase, "case": json.loads(json.dumps(case, default=repr))if len(repr(case)) < 3000 else repr(case)[:600]})
        what = None

        def onalarm(*a):
            raise CaseTimeout("no result within %d s" % limit)

        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(limit)
        try:
            oracle(case)
        except Violation as v:
            what = v.what
        except CaseTimeout as v:
            what = "the call did not finish: %s" % v
        except RecursionError as v:
            what = "RecursionError"
        except Exception as ex:
            what = "unexpected %r\n%s" % (ex, traceback.format_exc()[-1200:])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if what is None:
            return True
        for k in self.known:
            try:
                if k["match"](case, what):
                    self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                    return True
            except Exception:
                pass
        self.violation = {"oracle": oracle.__name__, "case": case, "what": what, "phase": phase}
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("out")
    ap.add_argument("--hints")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.pid)
    known = getattr(mod, "KNOWN", [])
    run = Run(a, known)
    t0 = time.time()
    err = None
    try:
        if a.replay:
            d = json.load(open(a.replay))
            run.case(getattr(mod, d["oracle"]), mod.thaw(d["case"]) if hasattr(mod, "thaw") else d["case"], "replay")
        else:
            mod.concrete(run)
    except BaseException as ex:
        err = "%r\n%s" % (ex, traceback.format_exc()[-2000:])
    json.dump(
        {
            "evaluations": run.evals,
            "distinct": len(run.sigs),
            "samples": run.samples,
            "violation": run.violation,
            "known": run.known_hit,
            "phases": run.phases,
            "error": err,
            "wall": round(time.time() - t0, 2),
        },
        open(a.out, "w"),
        default=repr,
    )
    if a.replay:
        print("REPRODUCED: " + run.violation["what"] if run.violation else "not reproduced")
        sys.exit(1 if run.violation else 0)


if __name__ == "__main__":
    from pyvc.concrete import main as _main  # one Violation class for everybody

    _main()
