"""writes /verif/seeded/<id>/ from a specification: edits (file, old, new) on a scratch copy of /repo, and a demo

usage: mkseed.py SPEC.py ; SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    W = f"/tmp/mkseed/{s['id']}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", W])
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# exit 0 when the behaviour is right, nonzero when it is not\n"
        "export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=\"$PWD\"\n"
        "exec /opt/pypyvenv/bin/python -W ignore \"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(W)
    print("wrote", s["id"])
