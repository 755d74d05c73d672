import json, os, sys, time, traceback
import random as _r

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from base import *
import base
import importlib

for _m in sorted(x[:-3] for x in os.listdir(os.path.dirname(os.path.abspath(__file__))) if x.startswith("cases_")):
    importlib.import_module(_m)


def run_one(prop, seed, i):
    fs = [f for f, w in CASES[prop] for _ in range(w)]
    f = fs[i % len(fs)]
    g = _r.Random(f"{prop}:{seed}:{i}")
    SRC.stop()
    try:
        f(g)
        return f.__name__, "ok", None
    except Skip:
        return f.__name__, "skip", None
    except Violation as v:
        return f.__name__, "violation", {"what": str(v), "info": v.info}
    finally:
        SRC.stop()


def main():
    spec = json.loads(sys.argv[1])
    prop, seed = spec["property"], spec["seed"]
    known = set(spec.get("known", []))
    out = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "violations": [], "errors": [], "by_case": {}, "samples": []}
    if "replay" in spec:
        n, st, v = run_one(prop, seed, spec["replay"])
        print(json.dumps({"case": n, "status": st, "violation": v}, default=str))
        return 1 if st == "violation" else 0
    t_end = time.time() + spec["seconds"]
    i = spec.get("start", 0)
    step = spec.get("step", 1)
    fixed = spec.get("min", 0)
    while time.time() < t_end or out["evaluations"] < fixed:
        if out["evaluations"] >= spec.get("max", 10**9):
            break
        try:
            n, st, v = run_one(prop, seed, i)
        except Exception as e:  # the code under test failed in a way the case does not expect
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if last.startswith(HERE) and (isinstance(e, ImportError) or (isinstance(e, AttributeError) and "has no attribute" in str(e)) or (
                    isinstance(e, TypeError) and ("argument" in str(e)))):
                # an internal function the case calls directly is gone or has another signature: not a statement about behaviour
                out["unavailable"] = out.get("unavailable", 0) + 1
                out["unavailable_why"] = repr(e)
                i += step
                continue
            n, st, v = "?", "error", {"what": "unexpected " + type(e).__name__ + ": " + str(e), "trace": traceback.format_exc()[-1500:]}
        out["evaluations"] += 1
        c = out["by_case"].setdefault(n, [0, 0])
        c[0] += 1
        if st == "skip":
            out["skipped"] += 1
            c[1] += 1
        else:
            out["nontrivial"] += 1
        if st in ("violation", "error"):
            rec = dict(v, index=i, seed=seed, case=n, status=st)
            out["violations"].append(rec)
            if len(out["violations"]) >= spec.get("stop_after", 1):
                break
        i += step
    print("ORACLE " + json.dumps(out, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o)))


if __name__ == "__main__":
    main()
