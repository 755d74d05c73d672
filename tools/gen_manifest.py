"""MANIFEST.json from levels.json (one entry per claimed property; 'na' gives the reason a property is not claimed)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(os.path.join(ROOT, "levels.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    d = L.get(p)
    if d is None or d.get("na"):
        na.append({"property": p, "reason": (d or {}).get("na", "no check yet")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt pydv/driver.py {p} quick",
        "thorough_cmd": f"python3-vt pydv/driver.py {p} thorough",
        "technique": d.get("technique", "contract-based deductive verification of the Python source (own VC generator, z3/cvc5), counterexamples searched on the real code"),
        "level": d.get("level", "proof"),
        "level_note": d["note"],
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Contracts are kept beside the code in /verif/contracts and bound by qualified name; the function bodies are read from /repo on every run."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
