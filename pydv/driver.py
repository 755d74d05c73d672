"""check of one property: verify the contracts it rests on, then run the real code on generated inputs

usage: python3-vt pydv/driver.py Cxx [quick|thorough]
"""
import concurrent.futures as cf
import importlib, inspect, json, multiprocessing as mp, os, pkgutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

PYPY = "/opt/pypyvenv/bin/python"


RANDOM = ("utils_c", "appliance_c", "appliance_day", "simulation", "peak", "calendar", "users", "parallel")  # where random numbers are drawn


def load():
    import contracts
    from pydv import registry

    importlib.import_module("contracts.schema")
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module(f"contracts.{m}")
    return registry


def verify_one(args):
    idx, timeout_ms, budget = args
    from pydv import registry
    from pydv.engine import Engine
    from pydv.front import Program
    from pydv.values import Unsupported

    c = registry.CONTRACTS[idx]
    t0 = time.time()
    out = {"target": c.target, "short": c.short, "idx": idx, "status": "ok", "obligations": [], "note": c.note}
    eng = None
    try:
        prog = Program(os.environ.get("RAMP_REPO", "/repo"))
        table = {}
        for x in registry.CONTRACTS:
            table.setdefault(x.target, []).append(x)
        eng = Engine(prog, table, timeout_ms=timeout_ms, budget_s=max(budget, c.budget_s) if budget else c.budget_s)
        try:
            fi = prog.find(c.target)
        except (KeyError, LookupError, AttributeError, Unsupported) as e:
            out["status"], out["reason"] = "missing", str(e)
            return out
        if fi is None:
            out["status"], out["reason"] = "missing", "function not found"
            return out
        try:
            obls = eng.verify(c, fi)
        except Unsupported as e:
            if "budget" not in str(e) or c.merge_ifs:
                raise
            # too many paths: once more with branches joined where they only assign
            eng = Engine(prog, table, timeout_ms=timeout_ms, budget_s=eng.budget_s)
            c.merge_ifs = True
            try:
                obls = eng.verify(c, fi)
            finally:
                c.merge_ifs = False
        for o in obls:
            out["obligations"].append({
                "name": o.name, "kind": o.kind, "status": o.status, "solver": o.solver, "time": round(o.time, 3),
                "reason": o.reason, "detail": o.detail, "model": o.model, "tags": ["C21"] if o.kind == "rng" else next((list(v) for k, v in c.tags.items() if k in o.name), None),
                "smt": (o.smt or "")[:200000] if o.status != "proved" else "",
            })
        if not obls or eng.exits["return"] + eng.exits["raise"] == 0:
            out["status"], out["reason"] = "unsupported", "no path of the function was explored (vacuous)"
        elif (not any(eng.reached.values()) or eng.exits["return"] and not eng.reached["return"]) and all(o["status"] == "proved" for o in out["obligations"]):
            out["status"], out["reason"] = "unsupported", "the assumptions of every path are contradictory (vacuous)"
        out["reached"] = eng.reached
        out["exits"] = eng.exits
    except Unsupported as e:
        out["status"], out["reason"] = "unsupported", str(e)
    except RecursionError as e:
        out["status"], out["reason"] = "unsupported", "recursion limit of the generator"
    except Exception as e:  # the generator itself failed: not a statement about the code
        out["status"], out["reason"] = "unsupported", "generator error " + repr(e)
        out["trace"] = traceback.format_exc()[-3000:]
    finally:
        out["wall"] = round(time.time() - t0, 2)
        if eng is not None:
            out["solver_time"] = round(eng.solver_time, 2)
            out["used"] = sorted(getattr(eng, "used_contracts", ()))
            out["inlined"] = sorted(getattr(eng, "inlined", ()))
            out["externals"] = sorted(getattr(eng, "externals", ()))
    return out


def prove_lemmas(reg, prop):
    import z3

    out = []
    for name, props, fn in reg.LEMMAS:
        if prop not in props:
            continue
        t = time.time()
        bad = []
        n = 0
        for sub, f in fn(z3):
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(z3.Not(f))
            n += 1
            if s.check() != z3.unsat:
                bad.append(sub)
        out.append({"name": name, "parts": n, "failed": bad, "time": round(time.time() - t, 2)})
    return out


def oracle(prop, seed, seconds, jobs, known=(), extra=None):
    """run the concrete search in several processes of the repository's interpreter"""
    procs = []
    scratch = tempfile.mkdtemp(prefix="pydv_oracle_")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TMPDIR=scratch, HOME=scratch)
    env.pop("VERIF_SEED", None)
    try:
        for j in range(jobs):
            d = os.path.join(scratch, str(j))
            os.mkdir(d)
            spec = dict({"property": prop, "seed": seed, "seconds": seconds, "start": j, "step": jobs, "known": list(known)}, **(extra or {}))
            procs.append(subprocess.Popen(
                [PYPY, os.path.join(ROOT, "oracle", "main.py"), json.dumps(spec)],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, env=env))
        res = []
        for p in procs:
            try:
                o, e = p.communicate(timeout=seconds + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                res.append({"crash": "timeout", "stderr": e[-2000:]})
                continue
            lines = [x for x in o.splitlines() if x.startswith("ORACLE ")]
            res.append(json.loads(lines[-1][7:]) if lines else {"crash": f"exit {p.returncode}", "stderr": e[-3000:]})
        return res
    finally:
        subprocess.run(["rm", "-rf", scratch])


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                head, _, what = line.partition(" key=")
                key, _, what = what.partition(" ")
                out.append((key, what))
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    reg = load()
    cs = reg.CONTRACTS
    level = json.load(open(os.path.join(ROOT, "levels.json"))).get(prop, {})
    quick = tier == "quick"
    findings = known_findings(prop)
    replay_dir = os.path.join(ROOT, "replays")
    os.makedirs(replay_dir, exist_ok=True)

    # ---- A. deductive verification of every function the property rests on
    wanted = [i for i, c in enumerate(cs) if prop in c.props or prop == "C21" and c.draws is not False and c.__module__.split(".")[-1] in RANDOM]
    wanted = [i for i in wanted if not cs[i].assumed]
    jobs = [(i, 8000 if quick else 30000, None if quick else 600) for i in sorted(wanted, key=lambda i: -cs[i].budget_s)]
    results = []
    secs = level.get("oracle_s", 12) if quick else level.get("oracle_thorough_s", 240)
    njobs = level.get("oracle_jobs", 4)
    with cf.ThreadPoolExecutor(1) as tp:
        # the real code on generated inputs, beside the verification (always: also the replay of a failed obligation)
        first = tp.submit(oracle, prop, seed, secs, njobs, [k for k, _ in findings])
        if jobs:
            with mp.get_context("fork").Pool(min(6, len(jobs)), maxtasksperchild=1) as pool:
                results = pool.map(verify_one, jobs, chunksize=1)
        res = first.result()
    lemmas = prove_lemmas(reg, prop)
    byname = {c.target for i, c in enumerate(cs) if i in wanted}
    taken = {c.target for c in cs if c.assumed} - {c.target for c in cs if not c.assumed}
    used = {u for r in results for u in r.get("used", ())}
    notcovered = sorted(used - byname - taken)
    unproved = sorted(used & taken)

    failed, undecided, discharged, total, backends = [], [], 0, 0, {}
    for r in results:
        if r["status"] != "ok":
            undecided.append(r)
            continue
        for o in r["obligations"]:
            if o["tags"] and prop not in o["tags"]:
                if o["kind"] == "rng" and o["status"] != "proved":
                    undecided.append(dict(r, reason=o["name"]))
                continue
            if prop == "C21" and prop not in cs[r["idx"]].props and o["kind"] != "rng":
                continue
            total += 1
            if o["status"] == "proved":
                discharged += 1
                backends[o["solver"]] = backends.get(o["solver"], 0) + 1
            else:
                failed.append((r, o))
    for l in lemmas:
        total += l["parts"]
        discharged += l["parts"] - len(l["failed"])
        for x in l["failed"]:
            failed.append(({"short": "lemma", "target": l["name"]}, {"name": f"lemma {l['name']}: {x}", "kind": "lemma", "reason": "", "model": None, "detail": "", "smt": ""}))

    # ---- B. search longer for an input that shows what failed
    if (failed or undecided) and not any(r.get("violations") for r in res):
        res += oracle(prop, seed + 7919, 45 if quick else 180, 7, [k for k, _ in findings])
    violations, crashes = [], []
    ev = nt = 0
    bycase = {}
    seen_known = {}
    for r in res:
        if "crash" in r:
            crashes.append(r)
            continue
        ev += r["evaluations"]
        nt += r["nontrivial"]
        for k, v in r["by_case"].items():
            c = bycase.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
        for k, v in r.get("known", {}).items():
            seen_known[k] = seen_known.get(k, 0) + v
        violations += r["violations"]

    code = 0
    if not jobs and not bycase and not lemmas:
        print(f"ERROR property={prop}: nothing to check")
        code = 2
    for k, what in findings:
        print(f"KNOWN-FINDING: property={prop} {what}")
    viol_lines = []
    if violations:
        v = sorted(violations, key=lambda x: (x["status"] != "violation", x.get("seed", 0) != seed, x["index"]))[0]
        path = os.path.join(replay_dir, f"{prop}.json")
        json.dump({
            "property": prop, "seed": v.get("seed", seed), "index": v["index"], "violation": v,
            "replay_cmd": f"{PYPY} {ROOT}/oracle/main.py '" + json.dumps({"property": prop, "seed": v.get("seed", seed), "replay": v["index"]}) + "'",
            "failed_obligations": [o["name"] for _, o in failed],
        }, open(path, "w"), indent=1, default=str)
        print(f"  {v['case']}: {v['what']}")
        for _, o in failed[:5]:
            print(f"  failed obligation: {o['name']}")
        viol_lines.append(f"VIOLATION property={prop} replay={path}")
    elif crashes and len(crashes) == len(res):
        # the real code cannot even be run
        path = os.path.join(replay_dir, f"{prop}.json")
        json.dump({"property": prop, "crash": crashes[:1], "failed_obligations": [o["name"] for _, o in failed]}, open(path, "w"), indent=1)
        print("  the real code could not be run: " + crashes[0].get("stderr", "")[-600:])
        viol_lines.append(f"VIOLATION property={prop} replay={path}")
    elif failed:
        path = os.path.join(replay_dir, f"{prop}.obligation.json")
        json.dump({
            "property": prop,
            "failed_obligations": [
                {"function": r["target"], "obligation": o["name"], "kind": o["kind"], "verifier": o["reason"], "path": o["detail"],
                 "counterexample": o["model"], "smt2": o["smt"]} for r, o in failed[:10]],
            "search": {"evaluations": ev, "nontrivial": nt, "by_case": bycase},
        }, open(path, "w"), indent=1, default=str)
        for r, o in failed[:10]:
            print(f"  failed obligation: {o['name']}  [{o['reason']}]")
        viol_lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    for u in undecided:
        print(f"  bounded stand-in for {u['short']}: {u['reason']}")
    for l in viol_lines:
        print(l)
    if viol_lines:
        code = 1

    trusted = [
        "pydv (VC generator of /verif/pydv: Python semantics and the models of builtins, numpy and pandas functions it uses)",
        "z3 5.3.2", "cvc5 1.1.2 (second opinion only)",
        "floating-point arithmetic treated as real arithmetic", "Python ints are mathematical integers (exact)",
    ]
    ext = sorted({e for r in results for e in r.get("externals", ())})
    if ext:
        trusted.append("models of external functions: " + ", ".join(ext))
    assumptions = list(level.get("assumptions", []))
    assumptions += ["domain of the declared parameters: contracts/schema.py"]
    if notcovered:
        assumptions.append("contracts used here and discharged by other checks: " + ", ".join(notcovered))
    if unproved:
        assumptions.append("assumed contracts, not verified against the body: " + ", ".join(
            f"{t} ({next((inspect.getdoc(type(c)) or '').strip() for c in cs if c.assumed and c.target == t)})" for t in unproved))
    cov = {
        "obligations": total, "discharged": discharged,
        "checker_cmd": f"python3-vt pydv/driver.py {prop} {tier}",
        "trusted_base": trusted,
        "functions_under_contract": [
            {"function": r["short"], "status": r["status"], "obligations": len(r["obligations"]),
             "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "wall_s": r.get("wall"), "solver_s": r.get("solver_time"),
             "exits": r.get("exits"), "exits_not_refuted": r.get("reached"), "inlined": r.get("inlined"), "reason": r.get("reason")} for r in results],
        "lemmas": lemmas, "back_ends": backends,
        "solver_s": round(sum(r.get("solver_time", 0) for r in results), 2),
        "bounded_stand_ins": [f"{u['short']}: {u['reason']}" for u in undecided] + level.get("bounded", []),
        "evaluations": ev, "distinct_nontrivial": nt,
        "rule": "each case is generated from (property, seed, index): a model declared through the public API inside the documented "
                "ranges and a random source biased to the extremes of each draw; non-trivial unless outside the property's domain",
        "cases": {k: {"run": v[0], "outside_domain": v[1]} for k, v in bycase.items()},
        "oracle_crashes": len(crashes),
        "samples": [f"{prop}:{seed}:{i}" for i in range(3)],
        "explanation": level.get("note", ""),
    }
    lv = level.get("level", "proof")
    ev_json = {
        "property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": lv, "coverage": cov,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(viol_lines),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev_json, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: {discharged}/{total} obligations discharged, {len(undecided)} stand-ins, {ev} executions, {time.time() - t0:.0f} s, exit {code}")
    sys.exit(code)


if __name__ == "__main__":
    main()
