#!/usr/bin/env python3-vt
"""run_check.py ID: decide one property on /repo's current working tree.

A. every proof task of checks/ID.py is discharged afresh (own process each);
B. the executable contract is run on the real code: solver counterexamples
   first, then structured and seeded cases (bounded; never counted as proof).
"""
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python" if os.path.exists("/opt/veriftools/pyvenv/bin/python") else sys.executable
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=HERE, LANG="C.UTF-8")


def run_task(pid, task, tmp, limit):
    out = os.path.join(tmp, "task-%s.json" % re.sub(r"\W+", "_", task))
    t = time.time()
    try:
        p = subprocess.run(
            [PY, os.path.join(HERE, "pyvc", "worker.py"), pid, task, out],
            cwd=tmp, env=ENV, timeout=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if os.path.exists(out):
            return json.load(open(out))
        info = "worker ended with %d\n%s" % (p.returncode, p.stdout.decode("utf8", "replace")[-1500:])
    except subprocess.TimeoutExpired:
        info = "no result within %d s" % limit
    return {
        "task": task, "stat": {}, "covers": {}, "functions": [], "wall": time.time() - t,
        "obligations": [{"name": task + "/engine", "status": "unsupported", "backend": "pyvc", "n": 1, "secs": 0, "info": info}],
    }


def run_concrete(pid, tmp, hints, seed, tier, budget, tag):
    out = os.path.join(tmp, "concrete-%s.json" % tag)
    hf = os.path.join(tmp, "hints-%s.json" % tag)
    json.dump(hints, open(hf, "w"), default=str)
    try:
        p = subprocess.run(
            [PY, os.path.join(HERE, "pyvc", "concrete.py"), pid, out, "--hints", hf, "--seed", str(seed), "--tier", tier, "--budget", str(budget)],
            cwd=tmp, env=ENV, timeout=budget + 150, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if os.path.exists(out):
            return json.load(open(out))
        return {"error": "concrete oracle ended with %d\n%s" % (p.returncode, p.stdout.decode("utf8", "replace")[-1500:]), "violation": None, "evaluations": 0, "distinct": 0, "samples": [], "known": {}}
    except subprocess.TimeoutExpired:
        return {"error": "concrete oracle: no result within its budget", "violation": None, "evaluations": 0, "distinct": 0, "samples": [], "known": {}}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    meta = json.loads(
        subprocess.run(
            [PY, "-c", "import sys,json;sys.path.insert(0,%r);from pyvc import instrument;import checks.%s as m;"
             "print(json.dumps({'tasks':{k:{'functions':v.get('functions',[]),'limit':v.get('limit',300)} for k,v in m.TASKS.items() if v.get('tier','quick')=='quick' or %r=='thorough'},"
             "'assumptions':getattr(m,'ASSUMPTIONS',[]),'bounded':getattr(m,'BOUNDED',[]),'rule':getattr(m,'RULE',''),'budget':getattr(m,'BUDGET',25),'level':getattr(m,'LEVEL','proof' if m.TASKS else 'exploration')}))" % (HERE, pid, tier)],
            env=ENV, cwd=HERE, stdout=subprocess.PIPE, check=True,
        ).stdout.decode()
    )
    tmpbase = tempfile.mkdtemp(prefix="pyvc-%s-" % pid)
    outdir = os.path.join(HERE, "out", "replay")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    budget = meta["budget"] * (8 if tier == "thorough" else 1)
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            futs = {t: ex.submit(run_task, pid, t, tmpbase, v["limit"]) for t, v in meta["tasks"].items()}
            cfut = ex.submit(run_concrete, pid, tmpbase, [], seed, tier, budget, "first")
            results = [futs[t].result() for t in meta["tasks"]]
            conc = cfut.result()
        obl = [o for r in results for o in r["obligations"]]
        bad = [o for o in obl if o["status"] != "discharged"]
        if bad and not conc.get("violation"):
            # guided search: replay the counterexamples on the real code, then search longer
            hints = [dict(o.get("model") or {}, __obligation__=o["name"]) for o in bad]
            conc2 = run_concrete(pid, tmpbase, hints, seed + 1000, tier, min(200, max(90, 3 * budget)), "guided")
            for k in ("evaluations", "distinct"):
                conc[k] = conc.get(k, 0) + conc2.get(k, 0)
            conc["violation"] = conc2.get("violation")
            conc["error"] = conc.get("error") or conc2.get("error")
            for k, v in (conc2.get("known") or {}).items():
                conc.setdefault("known", {})[k] = conc["known"].get(k, 0) + v
        n_all = sum(o["n"] for o in obl)
        n_ok = sum(o["n"] for o in obl if o["status"] == "discharged")
        violations = []
        lines = []
        if conc.get("violation"):
            v = conc["violation"]
            body = {"property": pid, "oracle": v["oracle"], "case": v["case"], "what": v["what"], "phase": v["phase"],
                    "failed_obligations": bad[:20],
                    "how": "python3-vt /verif/pyvc/concrete.py %s /dev/null --replay <this file>" % pid}
            h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(outdir, "%s-%s.json" % (pid, h))
            json.dump(body, open(path, "w"), indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            print("  input: %s" % json.dumps(v["case"], default=str)[:400])
            print("  what : %s" % v["what"][:600])
            violations.append(v["what"])
        elif bad or conc.get("error") or (n_all == 0 and meta["tasks"]):
            body = {"property": pid, "failed_obligations": bad, "concrete_error": conc.get("error"),
                    "note": "no concrete failing input was found; the obligations below were not accepted by the verifier"}
            h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(outdir, "%s-%s.json" % (pid, h))
            json.dump(body, open(path, "w"), indent=1, default=str)
            for o in bad[:8]:
                print("  obligation %s: %s %s" % (o["status"], o["name"], (o.get("info") or "")[-300:].replace("\n", " | ")))
            if conc.get("error"):
                print("  concrete oracle error: %s" % conc["error"][-400:])
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            violations.append("unaccepted obligations: %s" % ", ".join(o["name"] for o in bad[:6]))
        for k, n in sorted((conc.get("known") or {}).items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        functions = sorted({f for t in meta["tasks"].values() for f in t["functions"]})
        by = {}
        for o in obl:
            if o["status"] == "discharged":
                by[o["backend"]] = by.get(o["backend"], 0) + o["n"]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": meta["level"],
            "coverage": {
                "obligations": n_all, "discharged": n_ok,
                "checker_cmd": "python3-vt run_check.py %s" % pid,
                "trusted_base": [
                    "pyvc verification-condition generator (/verif/pyvc): instrumentation + operator semantics",
                    "CPython 3.12 executing the instrumented real functions", "z3 5.x (python bindings), cvc5 1.1.2 as second back end",
                ],
                "functions_under_contract": functions,
                "discharged_by_backend": by,
                "solver_seconds": round(sum(r.get("stat", {}).get("solver_s", 0) for r in results), 2),
                "paths": sum(r.get("stat", {}).get("paths", 0) for r in results),
                "tasks": {r["task"]: {"obligations": sum(o["n"] for o in r["obligations"]), "wall_s": r.get("wall"), "covers": r.get("covers", {})} for r in results},
                "unaccepted": [o["name"] for o in bad][:50],
                "evaluations": conc.get("evaluations", 0),
                "distinct_nontrivial": conc.get("distinct", 0),
                "rule": "bounded executable-contract oracle (not counted as proof): " + meta["rule"],
                "samples": conc.get("samples", []) or [{"obligation": o["name"]} for o in obl[:1]],
                "bounded_only": meta["bounded"],
                "explanation": "A: obligations generated from the current source and discharged for all inputs/iterations; B: the same contract executed on the real code (bounded).",
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
        print("%s: %d/%d obligations discharged, %d concrete evaluations, %.1f s" % (pid, n_ok, n_all, conc.get("evaluations", 0), time.time() - t0))
        for l in lines:
            print(l)
        return 1 if lines else 0
    finally:
        subprocess.run(["rm", "-rf", tmpbase])


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback

        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        p = os.path.join(HERE, "out", "replay", "%s-engine.json" % pid)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(json.dumps({"property": pid, "engine_error": traceback.format_exc()}))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
        rc = 1
    sys.exit(rc)
