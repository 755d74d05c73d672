"""verify the contracts whose name contains one of the patterns, several at a time: python3-vt tools/pv.py [-jN] [pattern...]"""
import multiprocessing as mp, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pydv import driver

reg = driver.load()
pats = [a for a in sys.argv[1:] if not a.startswith("-")]
jobs = next((int(a[2:]) for a in sys.argv if a.startswith("-j")), 6)
idx = [i for i, c in enumerate(reg.CONTRACTS) if not c.assumed and (not pats or any(p in c.short or p == c.__module__.split(".")[-1] for p in pats))]
idx.sort(key=lambda i: -reg.CONTRACTS[i].budget_s)
with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
    n = 0
    for r in pool.imap_unordered(driver.verify_one, [(i, 8000, None) for i in idx], chunksize=1):
        n += 1
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        v = "-v" in sys.argv
        if r["status"] != "ok":
            print(f"{r['short']}: {r['status'].upper()} {r.get('reason')}")
            if v: print(r.get("trace", ""))
        elif bad or v or r["wall"] > 10 or pats:
            print(f"{r['short']}: {len(r['obligations']) - len(bad)}/{len(r['obligations'])} wall {r['wall']} exits {r['exits']} reached {r['reached']} inlined {r['inlined']}")
        for o in bad[:8]:
            print("   FAILED", o["kind"], o["name"], o["reason"], str(o["detail"])[:300])
            if v: print("      ", str(o["model"])[:1200])
print("contracts", n)
