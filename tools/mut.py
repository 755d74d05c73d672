"""mut.py 'pattern' FILE 'old' 'new' : verify the contracts matching the pattern on a mutated copy (development aid)"""
import os, shutil, subprocess, sys, tempfile
pat, f, old, new = sys.argv[1:5]
W = tempfile.mkdtemp(prefix="mut.")
shutil.copytree("/repo/ramp", W + "/ramp")
p = os.path.join(W, f); t = open(p).read()
assert t.count(old) >= 1, "not found"
open(p, "w").write(t.replace(old, new, 1))
r = subprocess.run(["python3-vt", "pydv/run.py", *pat.split(",")], env={**os.environ, "RAMP_REPO": W}, capture_output=True, text=True)
print("\n".join(l[:260] for l in (r.stdout + r.stderr).splitlines() if "inputs" not in l)[:2500])
shutil.rmtree(W)
