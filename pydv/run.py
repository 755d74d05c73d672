"""developer command: verify the contracts of some targets and print the obligations"""
import argparse, importlib, pkgutil, sys, time
sys.path.insert(0, __file__.rsplit("/pydv/", 1)[0])
from pydv.front import Program
from pydv.engine import Engine
from pydv.values import Unsupported
from pydv import registry


def load_contracts():
    import contracts

    importlib.import_module("contracts.schema")
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module(f"contracts.{m}")
    return registry.CONTRACTS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pattern", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--dump", action="store_true")
    ap.add_argument("--tb", action="store_true")
    ap.add_argument("--timeout", type=int, default=8000)
    a = ap.parse_args()
    cs = load_contracts()
    prog = Program()
    table = {}
    for c in cs:
        table.setdefault(c.target, []).append(c)
    for c in cs:
        if a.pattern and not any(p in c.short for p in a.pattern):
            continue
        t = time.time()
        eng = Engine(prog, table, timeout_ms=a.timeout, budget_s=c.budget_s)
        try:
            fi = prog.find(c.target)
            obls = eng.verify(c, fi)
        except Unsupported as e:
            print(f"{c.short}: UNSUPPORTED {e}  ({time.time()-t:.1f}s)")
            if a.tb:
                import traceback

                traceback.print_exc()
            continue
        bad = [o for o in obls if o.status != "proved"]
        print(f"{c.short}: {len(obls)-len(bad)}/{len(obls)} proved, paths {eng.paths} restarts {eng.restarts} exits {eng.exits} reached {eng.reached} "
              f"queries {eng.nqueries} solver {eng.solver_time:.1f}s wall {time.time()-t:.1f}s inl={sorted(x.split(':')[1] for x in eng.inlined)}")
        for o in bad[:12]:
            print("   FAILED", o.kind, o.name, o.reason, o.detail)
            if a.dump and o.smt:
                open(f"/tmp/ob{bad.index(o)}.smt2", "w").write(o.smt)
            if a.v and o.model:
                print("      ", str(o.model)[:1500])
        if a.v:
            for o in obls:
                if o.time > 1:
                    print(f"   slow {o.time:.1f}s {o.status} {o.solver} {o.name}")
            for k, w in eng.dropped.items():
                print("   dropped", k, w)


if __name__ == "__main__":
    main()
