#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
import importlib, sys
sys.path.insert(0, H)
notes = json.load(open(os.path.join(H, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i + ".py")) and i not in NA:
        n = notes.get(i, {})
        m = importlib.import_module("checks." + i)
        if not m.TASKS:
            n = dict({"level": "exploration", "technique": "executable contract on the real code, bounded", "note": "bounded stand-in: contract executed on the real code"}, **n)
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt run_check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt run_check.py %s" % i,
            "technique": n.get("technique", "contract-based deductive verification of the real functions (PyVC: symbolic VC generation from the current source, z3/cvc5)"),
            "level": n.get("level", "proof"),
            "level_note": n.get("note", ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; print(z3.get_version_string())'", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo: the verifier instruments the source mechanically at import time. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
