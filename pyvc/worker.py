"""Run one proof task of a check in its own process: worker.py ID TASK OUT"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid, task, out = sys.argv[1:4]
    t0 = time.time()
    res = {"task": task, "obligations": [], "stat": {}, "covers": {}, "functions": [], "assumptions": []}
    try:
        from pyvc import core, instrument

        instrument.install()
        mod = importlib.import_module("checks." + pid)
        spec = mod.TASKS[task]
        x = core.Explorer(task, **spec.get("opts", {}))
        arg = spec.get("arg")
        fn = spec["fn"]
        x.explore((lambda c: fn(c, arg)) if arg is not None else fn)
        agg = {}
        for o in x.obligations:
            a = agg.setdefault((o.name, o.status, o.backend), {"n": 0, "secs": 0.0, "model": None, "info": None})
            a["n"] += 1
            a["secs"] += o.secs
            if o.model is not None and a["model"] is None:
                a["model"] = o.model
            if o.info is not None and a["info"] is None:
                a["info"] = str(o.info)[:3000]
        for (n, s, b), a in sorted(agg.items()):
            d = {"name": n, "status": s, "backend": b, "n": a["n"], "secs": round(a["secs"], 3)}
            if a["model"]:
                d["model"] = a["model"]
            if a["info"]:
                d["info"] = a["info"]
            res["obligations"].append(d)
        res["stat"] = x.stat
        res["covers"] = x.covers
        res["functions"] = spec.get("functions", [])
        for need in spec.get("covers", []):
            if not x.covers.get(need):
                res["obligations"].append(
                    {"name": task + "/cover(" + need + ")", "status": "unsupported", "backend": "pyvc", "n": 1, "secs": 0,
                     "info": "vacuity guard: this point is never reached"}
                )
        if not any(o["status"] == "discharged" for o in res["obligations"]) and not any(
            o["status"] != "discharged" for o in res["obligations"]
        ):
            res["obligations"].append(
                {"name": task + "/vacuous", "status": "unsupported", "backend": "pyvc", "n": 1, "secs": 0,
                 "info": "vacuity guard: no obligation was generated"}
            )
    except BaseException as ex:
        res["obligations"].append(
            {"name": task + "/engine", "status": "unsupported", "backend": "pyvc", "n": 1, "secs": 0,
             "info": "%r\n%s" % (ex, traceback.format_exc()[-2500:])}
        )
    res["wall"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
