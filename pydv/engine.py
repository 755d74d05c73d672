"""Verification condition generator: forward symbolic execution of the real AST, callee by contract.

A path is explored by re-executing the function under a prefix of decisions; every undecided branch adds
the alternative to the work list.  Loops over unknown many iterations are cut with invariants: the candidate
invariants of the contract and generic templates are checked for initiation and consecution (Houdini), the
loop frame is found by running the body from the havocked state until no write escapes it.
"""
import ast
import os
import sys
import time
from fractions import Fraction

import z3

from . import sorts as so
from .front import FuncInfo
from .linearise import linear_unsat
from . import models_par
from .values import *


class Restart(Exception):
    def __init__(self, prefix, why="", entry_oid=0):
        self.prefix = prefix
        self.why = why
        self.entry_oid = entry_oid


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class MergeFail(Exception):
    pass


def const_names(f):
    out, todo, seen = set(), [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        if z3.is_quantifier(e):
            todo.append(e.body())
        todo.extend(e.children())
    return out


LOG = os.environ.get("PYDV_LOG")


class NS:
    """attribute namespace used for contract contexts"""

    def __init__(_ns, /, **kw):
        _ns.__dict__.update(kw)


class Frame:
    def __init__(self, fi, module, cls, parent=None, closure=None):
        self.fi, self.module, self.cls = fi, module, cls
        self.locals = {}
        self.closure = closure
        self.depth = 0 if parent is None else parent.depth + 1
        self.parent = parent
        self.loop_path = () if parent is None else parent.loop_path
        self.globals_decl = set()


class Frozen:
    """the variables, objects and list elements visible from a frame at one moment"""

    def __init__(self, eng, fr):
        self.eng, self.memo = eng, {}
        self.versions = dict(eng.elem_version)
        self.src = fr
        self.frame = self.copy(fr)
        self.saved = []

    def copy(self, fr):
        if fr is None:
            return None
        f = Frame(fr.fi, fr.module, fr.cls)
        f.depth, f.parent, f.loop_path, f.globals_decl = fr.depth, fr.parent, fr.loop_path, fr.globals_decl
        for k, v in fr.locals.items():
            try:
                f.locals[k] = self.eng.snap(v, self.memo)
            except Unsupported as e:
                f.locals[k] = Poison(str(e))
        f.closure = self.copy(fr.closure)
        return f

    def __enter__(self):
        self.saved.append(self.eng.elem_version)
        self.eng.elem_version = dict(self.versions)
        return self.frame

    def __exit__(self, *a):
        self.eng.elem_version = self.saved.pop()

    def thaw(self, v):
        """the live object for an object seen through the copy"""
        if isinstance(v, Obj):
            if v.ident is not None:
                return self.eng.elem_obj(v.cls, v.ident, v.__dict__.get("owner"))
            return v if not any(x is v for x in self.memo.values()) else self.original(v)
        if isinstance(v, TupleV):
            return TupleV(self.thaw(x) for x in v)
        return v

    def original(self, v):
        f, todo, seen = self.src, [], set()
        while f is not None:
            todo.extend(f.locals.values())
            f = f.closure
        while todo:
            x = todo.pop()
            if isinstance(x, Obj) and x.ident is None and id(x) not in seen:
                seen.add(id(x))
                if x.oid == v.oid:
                    return x
                todo.extend(x.attrs.values())
        raise Unsupported("object of a comprehension cannot be located")


class LoopInfo:
    def __init__(self):
        self.mod = {}  # loc -> sample of value at end of body
        self.dead = set()
        self.entry_names = set()
        self.cont = []  # path conditions of continuing paths
        self.cont_ok = True
        self.kname = None
        self.checked = 0
        self.stable = False  # an iteration ended without news


class Obligation:
    __slots__ = ("name", "kind", "status", "solver", "time", "model", "detail", "prefix", "reason", "smt", "hasty")

    def __init__(self, name, kind):
        self.hasty = False
        self.name, self.kind = name, kind
        self.status, self.solver, self.time, self.model, self.detail = None, None, 0.0, None, ""
        self.prefix, self.reason, self.smt = (), "", None


def has_ite(f):
    todo, n = [f], 0
    while todo and n < 200:
        e = todo.pop()
        n += 1
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(e.children())
    return False


def has_quant(f, _seen=None):
    todo, seen = [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        todo.extend(e.children())
    return False


class Engine:
    MAX_UNROLL = 400
    MAX_PATHS = 4000
    MAX_DEPTH = 24

    def __init__(self, program, contracts, timeout_ms=8000, budget_s=240, log=None):
        self.program = program
        self.contracts = contracts  # qual -> Contract
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.log = log
        from .spec_sym import SymS

        self.S = SymS(self)
        from . import models_np, models_pd, models_df, models_os, models_cli, models_par, models_rec, models_cells, builtins_

        self.ext = {}
        self.builtins = {}
        self.valmeth = {}
        builtins_.install(self)
        models_np.install(self)
        models_pd.install(self)
        models_df.install(self)
        models_os.install(self)
        models_cli.install(self)
        models_par.install(self)
        models_rec.install(self)
        models_cells.install(self)
        self.solver_time = 0.0
        self.nqueries = 0
        self.backends = {}

    # ------------------------------------------------------------ exploration
    def verify(self, contract, fi, hasty=None):
        self.hasty = contract.hasty if hasty is None else hasty
        self.contract = contract
        self.target = fi
        self.work = [()]
        self.deferred = []
        self.loops = {}
        self.loop_seeds = {}
        self.obls = []
        self.paths = 0
        self.exits = {"return": 0, "raise": 0, "cut": 0}
        self.reached = {"return": 0, "raise": 0}  # exits whose assumptions no solver refutes
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.t_end = time.time() + self.budget_s if hasty is None else self.t_end
        self.restarts = 0
        self.dropped = {}
        while self.work or self.deferred:
            if self.work:
                prefix = self.work.pop()
            else:
                # loop exits wait until every path through the body is known; inner loops first
                prefix = max(self.deferred, key=len)
                self.deferred.remove(prefix)
            if time.time() > self.t_end:
                raise Unsupported("verification budget of the function exhausted")
            if self.paths > self.MAX_PATHS:
                raise Unsupported("too many paths")
            self.paths += 1
            try:
                self.run_path(prefix)
            except Restart as r:
                self.restarts += 1
                if self.restarts > 400:
                    raise Unsupported(f"loop invariants did not stabilise ({r.why})")
                p = r.prefix
                self.work = [w for w in self.work if w[: len(p)] != p]
                self.deferred = [w for w in self.deferred if w[: len(p)] != p]
                self.obls = [o for o in self.obls if o.prefix[: len(p)] != p]
                for k in [k for k in self.loops if len(k[1]) > len(p) and k[1][: len(p)] == p]:
                    # what an inner loop writes, and what is not invariant there, stays so in a more general state
                    self.loop_seeds[k] = self.loops.pop(k), r.entry_oid
                for k, li in self.loops.items():
                    if k[1] == p:
                        li.cont = []
                self.work.append(p)
        failed = {o.name for o in self.obls if o.status != "proved" and not o.hasty}
        if hasty is None and any(o.hasty and o.status != "proved" and o.name not in failed for o in self.obls):
            return self.verify(contract, fi, False)  # given up early, and no loop around it was started again
        return self.obls

    def run_path(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.replaying = len(prefix) > 0
        self.pc = []
        self.qf = z3.Solver()
        self.qf.set("timeout", 3000)
        self.facts_q = []
        self.fresh_n = {}
        self.oid = 0
        self.draws = []
        self.events = []
        self.calls = []
        self.ghost = {}
        self.inputs = {}
        self.trail = None
        self.loop_stack = []
        self.lis = []
        self.outer_loops = []
        self.elem_cache = {}
        self.elem_version = {}
        self.ver_counter = 0
        self.round_done = set()
        self.axioms = []  # what defines the functions that stand for rounding and the like
        self.nomerge = False
        self.obliged = False
        self.probe_bound = []
        self.frame = None
        self.path_notes = []
        self.all_names = set()
        c = self.contract
        fi = self.target
        try:
            args = {}
            self.entry_order = []
            for name, sort in c.params.items():
                args[name] = self.fresh(sort, name)
            ctx = NS(**args)
            if getattr(c, "setup", None):
                c.setup(self, ctx)
                for k in list(args):
                    args[k] = ctx.__dict__[k]
            self.ghost = {k: self.fresh(s, f"ghost.{k}") for k, s in c.ghost.items()}
            ctx.ghost = NS(**{k: v for k, v in self.ghost.items()})
            for nm, f in c.requires(self.S, ctx):
                self.assume(f)
            for f in c.definitions(self.S, ctx):
                self.assume(f)
            if self.qf.check() == z3.unsat:
                raise Infeasible()
            ctx.old = self.snapshot_ctx(args)
            ctx.versions = dict(self.elem_version)
            ctx.ghost_old = NS(**{k: self.snap(v, {}) for k, v in self.ghost.items()})
            self.inputs = {k: self.snap(v, {}) for k, v in args.items()}
            self.ctx = ctx
            self.entry_oid = self.oid
            ctx.draws = self.draws
            ctx.events = self.events
            ctx.calls = self.calls
            outcome, value = "return", None
            try:
                value = self.call_function(fi, self.bind_contract_args(fi, args), {}, entry=True)
            except PyExc as e:
                outcome, value = "raise", e
            self.force_fresh()
            ctx.ghost = NS(**self.ghost)
            if outcome == "return":
                self.exits["return"] += 1
                self.cover("return")
                value = self.force(value)
                ctx.result = value
                ctx.exc = None
                for nm, f in c.lemmas(self.S, ctx):
                    self.oblige_isolated(f"{c.short}: lemma {nm}", f)
                if c.value is not None:
                    self.oblige(f"{c.short}: ensures the specified value", self.S.eq(value, c.value(self.S, NS(**ctx.old.__dict__))), "post")
                for nm, f in c.ensures(self.S, ctx):
                    self.oblige(f"{c.short}: ensures {nm}", f, "post")
                for kind, (mode, cond) in c.raises.items():
                    if mode == "iff":
                        self.oblige(
                            f"{c.short}: raises {kind} whenever specified",
                            z3.Not(tz(cond(self.S, NS(**{**ctx.old.__dict__, "old": ctx.old})))),
                            "post",
                        )
                self.check_sorts(args, value)
                self.check_frame(args)
                self.oblige(f"{c.short}: random numbers come from the seeded generator only", True, "rng")
            else:
                self.exits["raise"] += 1
                self.cover("raise")
                ctx.exc = value.kind
                ok = None
                for kind, (mode, cond) in c.raises.items():
                    if exc_matches(value.kind, kind):
                        ok = (
                            True
                            if cond is None
                            else cond(self.S, NS(**{**ctx.old.__dict__, "old": ctx.old}))
                        )
                        break
                if ok is None:
                    self.oblige(
                        f"{c.short}: no {value.kind} ({value.msg})", z3.BoolVal(False), "exception"
                    )
                else:
                    self.oblige(f"{c.short}: {value.kind} only when specified", ok, "exception")
                for nm, f in c.ensures_exc(self.S, ctx):
                    self.oblige(f"{c.short}: on {value.kind} ensures {nm}", f, "post")
        except (PathEnd, Infeasible):
            self.exits["cut"] += 1
        except Unsupported:
            # harmless when the path cannot happen
            if self.facts_q and self.prove(z3.BoolVal(False))[0] == "proved":
                self.exits["cut"] += 1
                return
            raise

    def cover(self, kind):
        """vacuity guard: what is assumed on the way to an exit must not be contradictory (asked until one exit of the kind passes)"""
        if self.reached[kind] or not self.live:
            return
        s = z3.Solver()
        s.set("timeout", 700)
        for f in self.pc:
            s.add(f)
        if s.check() == z3.unsat or linear_unsat(self.pc, 300):
            return
        self.reached[kind] += 1

    def force_fresh(self):
        pass

    def bind_contract_args(self, fi, args):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = []
        rest = dict(args)
        kw = {}
        if fi.kind == "classmethod" and names and names[0] not in rest:
            kw[names[0]] = ClassV(fi.cls.name, fi.cls)
        for n in names:
            if n in rest:
                kw[n] = rest.pop(n)
        if a.vararg and a.vararg.arg in rest:
            kw["*" + a.vararg.arg] = rest.pop(a.vararg.arg)
        for x in a.kwonlyargs:
            if x.arg in rest:
                kw[x.arg] = rest.pop(x.arg)
        if a.kwarg and a.kwarg.arg in rest:
            kw["**" + a.kwarg.arg] = rest.pop(a.kwarg.arg)
        if rest:
            raise Unsupported(f"{fi.qual} no longer has parameter(s) {sorted(rest)}")
        return kw

    def note(self, msg):
        if LOG:
            print(f"[{time.time() - self.t_end + self.budget_s:7.1f}] {len(self.taken)} {msg}", file=sys.stderr, flush=True)

    # ------------------------------------------------------------ path condition
    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if not is_z3(f):
            raise Unsupported(f"assume of {f!r}")
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        if z3.is_true(f):
            return
        if has_quant(f):
            self.facts_q.append(f)
        else:
            self.qf.add(f)
        self.pc.append(f)

    def feasible(self, f):
        self.nqueries += 1
        t = time.time()
        r = self.qf.check(f)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def is_valid_qf(self, f):
        """cheap validity check under the quantifier-free facts"""
        if isinstance(f, bool):
            return f
        t = time.time()
        self.nqueries += 1
        r = self.qf.check(z3.Not(f))
        self.solver_time += time.time() - t
        return r == z3.unsat

    def decide(self, cond, why="", defer=False):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if not is_z3(cond):
            raise Unsupported(f"branch on {cond!r}")
        if self.nomerge:
            # inside an if-merge no branching is allowed unless determined
            if not self.feasible(cond):
                return False
            if not self.feasible(z3.Not(cond)):
                return True
            raise MergeFail()
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            if not isinstance(v, bool):
                raise Unsupported("nondeterministic replay")
            self.taken.append(v)
            self.assume(cond if v else z3.Not(cond))
            return v
        t, f = self.feasible(cond), self.feasible(z3.Not(cond))
        if t and f:
            (self.deferred if defer else self.work).append(tuple(self.taken) + (False,))
            v = True
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise Infeasible()
        self.taken.append(v)
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n, why=""):
        if n == 1:
            return 0
        if self.nomerge:
            raise MergeFail()
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i][1]
            self.taken.append(("c", v))
            return v
        for j in range(n - 1, 0, -1):
            self.work.append(tuple(self.taken) + (("c", j),))
        self.taken.append(("c", 0))
        return 0

    @property
    def live(self):
        """True once the replayed prefix is used up: obligations are new on this path"""
        return len(self.taken) >= len(self.prefix)

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind="assert", where=None):
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.oblige(name, g, kind)
            return True
        if self.obliged:
            return True  # shown already, for any position
        if self.probe_bound and goal is not True:
            goal = z3.Implies(z3.And(*self.probe_bound), z3.BoolVal(False) if goal is False else goal)
        if not self.live:
            if is_z3(goal):
                self.assume(goal)
            elif goal is False:
                raise Infeasible()
            return True
        o = Obligation(name, kind)
        o.prefix = tuple(self.taken)
        if goal is True or (is_z3(goal) and z3.is_true(goal)):
            o.status, o.solver = "proved", "trivial"
        else:
            g = z3.BoolVal(False) if goal is False else goal
            t = time.time()
            o.hasty = self.hasty and any(not li.stable for li in self.lis) or any(
                x.name == name and x.status != "proved" and not x.hasty for x in self.obls)
            status, backend, model, reason = self.prove(g, hasty=o.hasty)
            o.time = time.time() - t
            self.note(f"obl {status} {o.time:.2f}s {name}")
            o.status, o.solver, o.reason = status, backend, reason
            if status != "proved":
                o.model = self.counterexample(model) if model is not None else None
                o.detail = self.describe_path()
                o.smt = self.to_smt2(g)
        self.obls.append(o)
        self.backends[o.solver] = self.backends.get(o.solver, 0) + 1
        if goal is False:
            raise Infeasible()
        if is_z3(goal):
            try:
                self.assume(goal)
            except Infeasible:
                raise
        return o.status == "proved"

    def oblige_isolated(self, name, f):
        """a fact of arithmetic, valid in every context: proved on its own, then available"""
        if f is True:
            return
        if self.live:
            o = Obligation(name, "lemma")
            o.prefix = tuple(self.taken)
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            for x in self.axioms:
                s.add(x)
            s.add(z3.Not(f))
            t = time.time()
            r = s.check()
            o.time = time.time() - t
            self.solver_time += o.time
            o.status, o.solver = ("proved" if r == z3.unsat else "failed"), "z3"
            o.reason = str(r)
            self.obls.append(o)
        self.assume(f)

    def to_smt2(self, goal):
        s = z3.Solver()
        for f in self.pc:
            s.add(f)
        for d in str_distinct():
            s.add(d)
        s.add(z3.Not(goal))
        return s.to_smt2()

    def prove(self, goal, quick=False, hasty=False):
        """returns (status, backend, model, reason)"""
        self.nqueries += 1
        t0 = time.time()
        quick = quick or getattr(self, "n_unknown", 0) >= 2  # the function is under suspicion already
        try:
            if any(f.eq(goal) for f in self.pc):
                return "proved", "assumed fact", None, ""
            if not has_quant(goal):
                r = self.qf.check(z3.Not(goal))
                if r == z3.unsat:
                    return "proved", "z3", None, ""
                if not self.facts_q:
                    if r == z3.sat:
                        return "failed", "z3", self.qf.model(), "sat"
            if linear_unsat(self.pc + [z3.Not(goal)], 500):
                return "proved", "z3", None, ""
            s = z3.Solver()
            s.set("timeout", 700)
            for f in self.pc:
                s.add(f)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return "proved", "z3", None, ""
            if hasty:
                return "failed", "z3", None, "the loop is not explored yet"
            if linear_unsat(self.pc + [z3.Not(goal)], 1500 if quick else 3000):
                return "proved", "z3", None, ""
            s = z3.Solver()
            s.set("timeout", 2500 if quick else self.timeout_ms)
            for f in self.pc:
                s.add(f)
            for d in str_distinct():
                s.add(d)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return "proved", "z3", None, ""
            model = s.model() if r == z3.sat else None
            if quick:
                return "failed", "z3", model, str(r)
            if r == z3.unknown:
                short = min(self.timeout_ms, 8000)
                # other configurations before giving up
                for cfg in ({"smt.mbqi": False}, {"smt.arith.solver": 2}, {"smt.random_seed": 7}):
                    s2 = z3.Solver()
                    s2.set("timeout", short)
                    for k, v in cfg.items():
                        try:
                            s2.set(k, v)
                        except z3.Z3Exception:
                            pass
                    for f in self.pc:
                        s2.add(f)
                    s2.add(z3.Not(goal))
                    r2 = s2.check()
                    if r2 == z3.unsat:
                        return "proved", "z3", None, ""
                    if r2 == z3.sat:
                        return "failed", "z3", s2.model(), "sat"
                from .solve import cvc5_unsat

                if cvc5_unsat(self.to_smt2(goal), short):
                    return "proved", "cvc5", None, ""
                self.n_unknown = getattr(self, "n_unknown", 0) + 1
                return "failed", "z3+cvc5", None, "unknown: " + s.reason_unknown()
            return "failed", "z3", model, "sat"
        finally:
            self.solver_time += time.time() - t0

    def describe_path(self):
        return "; ".join(self.path_notes[-12:])

    def counterexample(self, model):
        try:
            return {
                "inputs": {k: self.model_value(model, v, 0) for k, v in self.inputs.items()},
                "draws": [
                    {
                        "kind": d.kind,
                        "params": {k: self.model_value(model, v, 0) for k, v in d.params.items()},
                        "value": self.model_value(model, d.value, 0),
                    }
                    for d in self.draws
                ],
            }
        except Exception as e:  # model evaluation is best effort
            return {"error": repr(e)}

    def model_value(self, m, v, depth):
        if depth > 5:
            return None
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if isinstance(v, Fraction):
            return float(v)
        if is_z3(v):
            r = m.eval(v, model_completion=True)
            c = conc(r)
            if isinstance(c, Fraction):
                return float(c)
            if isinstance(c, (bool, int)):
                return c
            if z3.is_algebraic_value(r):
                return float(r.approx(10).as_fraction())
            return str(r)
        if isinstance(v, EnumV):
            i = self.model_value(m, v.term, depth)
            return v.values[i] if isinstance(i, int) and 0 <= i < len(v.values) else v.values[0]
        if isinstance(v, Tok):
            return str(m.eval(v.term, model_completion=True))
        if isinstance(v, SliceV):
            return {"slice": [self.model_value(m, v.start, depth), self.model_value(m, v.stop, depth)]}
        if isinstance(v, Arr):
            shp = [self.model_value(m, x, depth) for x in v.shape]
            if len(shp) == 1 and isinstance(shp[0], int) and 0 <= shp[0] <= 1500:
                return {"array": [self.model_value(m, v.get(i), depth + 1) for i in range(shp[0])]}
            return {"array_shape": shp}
        if isinstance(v, ListV):
            n = self.model_value(m, v.length(), depth)
            if isinstance(n, int) and 0 <= n <= 30:
                return {"list": [self.model_value(m, v.at(i), depth + 1) for i in range(n)]}
            return {"list_len": n}
        if isinstance(v, TupleV):
            return {"tuple": [self.model_value(m, x, depth + 1) for x in v]}
        if isinstance(v, DictV):
            return {
                "dict": {
                    str(k): self.model_value(m, x, depth + 1)
                    for k, (p, x) in v.d.items()
                    if self.model_value(m, p, depth)
                }
            }
        if isinstance(v, Obj):
            return {
                "object": v.cls,
                "attrs": {k: self.model_value(m, x, depth + 1) for k, x in v.attrs.items()},
            }
        if isinstance(v, DateV):
            return {"minutes": self.model_value(m, v.minutes, depth)}
        if isinstance(v, Maybe):
            if self.model_value(m, v.isnone, depth):
                return None
            return self.model_value(m, v.val, depth)
        return repr(v)

    # ------------------------------------------------------------ fresh values
    def name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        r = base if n == 0 else f"{base}!{n}"
        self.all_names.add(r)
        return r

    def new_oid(self):
        self.oid += 1
        return self.oid

    def freshint(self, base, lo=None, hi=None):
        t = z3.Int(self.name(base))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return t

    def freshreal(self, base, lo=None, hi=None):
        t = z3.Real(self.name(base))
        if lo is not None:
            self.assume(t >= tz(frac(lo)))
        if hi is not None:
            self.assume(t <= tz(frac(hi)))
        return t

    def freshbool(self, base):
        return z3.Bool(self.name(base))

    def fresh_fn(self, base, nargs, kind):
        rs = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
        f = z3.Function(self.name(base), *([z3.IntSort()] * nargs), rs)
        return lambda *a: f(*[tz(x) for x in a])

    def fresh_arr(self, base, shape, kind="f", lo=None, hi=None):
        g = self.fresh_fn(base, len(shape), kind)
        a = Arr(shape, g, kind, oid=self.new_oid())
        if lo is not None or hi is not None:
            idx = [z3.Int(f"q{base}{i}") for i in range(len(shape))]
            conds = []
            if lo is not None:
                conds.append(g(*idx) >= tz(frac(lo)))
            if hi is not None:
                conds.append(g(*idx) <= tz(frac(hi)))
            self.assume(z3.ForAll(idx, z3.And(*conds)))
        return a

    def fresh(self, sort, base):
        if not isinstance(sort, so.Sort):
            return sort  # a literal value
        if isinstance(sort, so.IntS):
            return self.freshint(base, sort.lo, sort.hi)
        if isinstance(sort, so.RealS):
            return self.freshreal(base, sort.lo, sort.hi)
        if isinstance(sort, so.BoolS):
            return self.freshbool(base)
        if isinstance(sort, so.EnumS):
            if len(sort.values) == 1:
                return sort.values[0]
            return EnumV(self.freshint(base, 0, len(sort.values) - 1), sort.values)
        if isinstance(sort, so.ConstS):
            return self.lift(sort.value)
        if isinstance(sort, so.OneOf):
            alt = sort.alts[self.choose(len(sort.alts), base)]
            return self.fresh(alt, base) if isinstance(alt, so.Sort) else self.lift(alt)
        if isinstance(sort, so.ArrS):
            shape = []
            for i, s in enumerate(sort.shape):
                shape.append(self.freshint(f"{base}.n{i}", sort.minlen) if s is None else s)
            return self.fresh_arr(base, tuple(shape), sort.kind, sort.lo, sort.hi)
        if isinstance(sort, so.PairS):
            a = self.freshint(base + "[0]", sort.lo, sort.hi)
            b = self.freshint(base + "[1]", sort.lo, sort.hi)
            if sort.aslist:
                return ListV([a, b], oid=self.new_oid())
            return self.arr_of([a, b], "i")
        if isinstance(sort, so.AffineS):
            st = self.freshint(base + ".start")
            n = self.freshint(base + ".n", sort.minlen)
            return Arr((n,), lambda i: st + i, "i", affine=(st, 1), oid=self.new_oid())
        if isinstance(sort, so.SliceS):
            return SliceV(self.freshint(base + ".start"), self.freshint(base + ".stop"))
        if isinstance(sort, so.ListS):
            n = self.freshint(base + ".len", sort.minlen)
            return ListV(None, n, self.fresh_getter(sort.elt, base), oid=self.new_oid(), elt=sort.elt)
        if isinstance(sort, so.FixedListS):
            return ListV([self.fresh(e, f"{base}[{i}]") for i, e in enumerate(sort.elts)], oid=self.new_oid())
        if isinstance(sort, so.TupleS):
            return TupleV(self.fresh(e, f"{base}[{i}]") for i, e in enumerate(sort.elts))
        if isinstance(sort, so.StrS):
            return Tok(z3.Const(self.name(base), StrSort))
        if isinstance(sort, so.NoneS):
            return None
        if isinstance(sort, so.AnyS):
            return Opaque(base)
        if isinstance(sort, so.MaybeS):
            return Maybe(self.freshbool(base + ".isnone"), self.fresh(sort.elt, base))
        if isinstance(sort, so.DateS):
            d = self.freshint(base + ".ordinal", 1)
            return DateV(d * 1440, sort.is_date)
        if isinstance(sort, so.DateIndexS):
            d = self.freshint(base + ".ordinal", 1)
            n = self.freshint(base + ".len", sort.minlen)
            return self.date_index(d * 1440, n, sort.step)
        if isinstance(sort, so.FrameS):
            from .models_df import fresh_frame

            return fresh_frame(self, base, sort.minrows, sort.mincols, sort.labels)
        if isinstance(sort, so.CellsS):
            from .models_cells import fresh_table

            return fresh_table(self, base, sort.columns, sort.keys)
        if isinstance(sort, so.IndexS):
            from .models_df import fresh_index

            return fresh_index(self, base)
        if isinstance(sort, so.ObjS):
            return self.fresh_obj(sort.cls, base, sort.over)
        if isinstance(sort, so.ElemS):
            return self.elem_obj(sort.cls, self.freshint(base + ".ref", 0))
        if isinstance(sort, so.ObjListS):
            n = self.freshint(base + ".len", sort.minlen)
            return self.obj_list(sort.cls, n, self.fresh_fn(base + ".ref", 1, "i"))
        if isinstance(sort, so.OwnerS):
            return self.fresh_obj(sort.cls, base)
        if isinstance(sort, so.OptDictS):
            d = DictV(oid=self.new_oid())
            for k, s in sort.keys.items():
                if isinstance(s, so.MaybeS):
                    d.d[k] = (self.freshbool(f"{base}[{k}]?"), self.fresh(s.elt, f"{base}[{k}]"))
                else:
                    d.d[k] = (True, self.fresh(s, f"{base}[{k}]"))
            return d
        raise Unsupported(f"sort {sort}")

    def fresh_getter(self, elt, base):
        if isinstance(elt, so.IntS):
            g = self.fresh_fn(base, 1, "i")
            return g
        if isinstance(elt, so.RealS):
            return self.fresh_fn(base, 1, "f")
        if isinstance(elt, so.SliceS):
            a, b = self.fresh_fn(base + ".start", 1, "i"), self.fresh_fn(base + ".stop", 1, "i")
            return lambda i: SliceV(a(i), b(i))
        if isinstance(elt, so.TupleS):
            gs = [self.fresh_getter(e, f"{base}.{j}") for j, e in enumerate(elt.elts)]
            return lambda i: TupleV(g(i) for g in gs)
        if isinstance(elt, so.ArrS) and all(isinstance(s, int) for s in elt.shape):
            g = self.fresh_fn(base, 1 + len(elt.shape), elt.kind)
            return lambda i: Arr(elt.shape, lambda *j: g(i, *j), elt.kind)
        if isinstance(elt, so.StrS):
            f = z3.Function(self.name(base), z3.IntSort(), StrSort)
            return lambda i: Tok(f(tz(i)))
        if isinstance(elt, so.AnyS):
            return lambda i: Opaque(base, index=i)
        if isinstance(elt, so.ElemS):
            r = self.fresh_fn(base + ".ref", 1, "i")
            return lambda i: self.elem_obj(elt.cls, r(i))
        if isinstance(elt, so.AffineS):
            st, n = self.fresh_fn(base + ".start", 1, "i"), self.fresh_fn(base + ".n", 1, "i")
            return lambda i: Arr((n(i),), lambda j: tz(st(i)) + tz(j), "i", affine=(st(i), 1))
        raise Unsupported(f"list element sort {elt}")

    def fresh_obj(self, cls, base, over=None):
        from .registry import SCHEMA

        sch = dict(SCHEMA.get(cls, {}))
        sch.update(over or {})
        o = Obj(cls, {}, oid=self.new_oid())
        for k, s in sch.items():
            v = o.attrs[k] = self.fresh(s, f"{base}.{k}")
            if isinstance(v, ListV) and hasattr(v, "ref"):
                v.owner = o
        inv = SCHEMA.get(cls + ".invariant")
        if inv:
            for nm, f in inv(self.S, o):
                self.assume(f)
        return o

    def obj_list(self, cls, n, ref, owner=None, versions=None):
        """a list of n references; element i is the object ref(i)"""
        lv = ListV(None, n, None, oid=self.new_oid(), elt=so.ObjListS(cls))
        lv.owner = owner
        lv.get = lambda i: self.elem_obj(cls, ref(i), lv.owner, versions)
        return lv

    def elem_obj(self, cls, ref, owner=None, versions=None):
        """the object a reference points to; its attributes are functions of the reference"""
        ref = simp(ref)
        key = ("ref", cls, ref.sexpr() if is_z3(ref) else str(ref), id(owner), None if versions is None else tuple(sorted(versions.items())))
        o = self.elem_cache.get(key)
        if o is None:
            o = Obj(cls, {}, oid=("ref", cls, key[2]), ident=ref)
            o.eng, o.owner, o.attr_ver, o.snap_versions = self, owner, {}, versions
            self.elem_cache[key] = o
        return o

    def elem_attr(self, o, attr):
        from .registry import SCHEMA

        s = SCHEMA.get(o.cls, {}).get(attr)
        if s is None:
            return None, False
        vers = o.__dict__.get("snap_versions")
        ver = (self.elem_version if vers is None else vers).get((o.cls, attr), 0)
        if attr in o.attrs and o.attr_ver.get(attr, 0) == ver:
            return o.attrs[attr], True
        v = self.elem_fresh(s, f"{o.cls}.{attr}" + (f"~{ver}" if ver else ""), o.ident, o)
        o.attrs[attr] = v
        o.attr_ver[attr] = ver
        return v, True

    def elem_fresh(self, s, base, ref, o):
        """value of sort s as a function of the reference"""
        if not isinstance(s, so.Sort):
            return s
        r = tz(ref)
        X = z3.Int("anyref")

        def uf(suffix, rs, n=1):
            return z3.Function(base + suffix, *([z3.IntSort()] * n), rs)

        def bounds(f, lo, hi, extra=()):
            """the sort's range, once for every reference"""
            key = ("bounds", base, f.name())
            if key in self.elem_cache or (lo is None and hi is None):
                return
            self.elem_cache[key] = True
            t = f(X, *extra)
            cs = ([t >= tz(frac(lo))] if lo is not None else []) + ([t <= tz(frac(hi))] if hi is not None else [])
            self.assume(z3.ForAll([X, *extra], z3.And(*cs), patterns=[t]))

        def local(t, lo, hi):
            if str(r).startswith(("all!", "ex!", "fr!", "search!", "anyref")) or any(x.startswith(("all!", "ex!", "fr!", "search!")) for x in const_names(r)):
                return
            if lo is not None:
                self.assume(t >= tz(frac(lo)))
            if hi is not None:
                self.assume(t <= tz(frac(hi)))

        if isinstance(s, (so.IntS, so.RealS)):
            f = uf("", z3.IntSort() if isinstance(s, so.IntS) else z3.RealSort())
            bounds(f, s.lo, s.hi)
            local(f(r), s.lo, s.hi)
            return f(r)
        if isinstance(s, so.BoolS):
            return uf("", z3.BoolSort())(r)
        if isinstance(s, so.EnumS):
            f = uf("", z3.IntSort())
            bounds(f, 0, len(s.values) - 1)
            local(f(r), 0, len(s.values) - 1)
            return EnumV(f(r), s.values)
        if isinstance(s, so.StrS):
            return Tok(uf("", StrSort)(r))
        if isinstance(s, so.PairS):
            out = []
            for k in (0, 1):
                f = uf(f"[{k}]", z3.IntSort())
                bounds(f, s.lo, s.hi)
                local(f(r), s.lo, s.hi)
                out.append(f(r))
            return self.arr_of(out, "i")
        if isinstance(s, so.ArrS):
            shape = []
            for j, d in enumerate(s.shape):
                if d is None:
                    f = uf(f".n{j}", z3.IntSort())
                    bounds(f, s.minlen, None)
                    local(f(r), s.minlen, None)
                    shape.append(f(r))
                else:
                    shape.append(d)
            rs = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[s.kind]
            f = uf("", rs, 1 + len(shape))
            bounds(f, s.lo, s.hi, [z3.Int(f"anyidx{j}") for j in range(len(shape))])
            return Arr(tuple(shape), lambda *j: f(r, *[tz(x) for x in j]), s.kind, oid=self.new_oid())
        if isinstance(s, so.ObjListS):
            f = uf(".len", z3.IntSort())
            bounds(f, s.minlen, None)
            local(f(r), s.minlen, None)
            g = uf(".ref", z3.IntSort(), 2)
            return self.obj_list(s.cls, f(r), lambda i: g(r, tz(i)), owner=o)
        if isinstance(s, so.OwnerS):
            if o.owner is not None:
                return o.owner
            return self.elem_obj(s.cls, uf(".owner", z3.IntSort())(r))
        if isinstance(s, so.ListS) and isinstance(s.elt, so.SliceS):
            f = uf(".len", z3.IntSort())
            bounds(f, s.minlen, None)
            a, b = uf(".start", z3.IntSort(), 2), uf(".stop", z3.IntSort(), 2)
            return ListV(None, f(r), lambda i: SliceV(a(r, tz(i)), b(r, tz(i))), oid=self.new_oid(), elt=s.elt)
        if isinstance(s, so.ConstS):
            return self.lift(s.value)
        if isinstance(s, so.NoneS):
            return None
        if isinstance(s, so.AnyS):
            return Opaque(base, index=ref)
        raise Unsupported(f"attribute sort {s}")

    def lift(self, v):
        if isinstance(v, float):
            return frac(v)
        if isinstance(v, list):
            return ListV([self.lift(x) for x in v], oid=self.new_oid())
        if isinstance(v, tuple):
            return TupleV(self.lift(x) for x in v)
        if isinstance(v, dict):
            return DictV({k: (True, self.lift(x)) for k, x in v.items()}, oid=self.new_oid())
        return v

    def derived_arr(self, shape, get, kind="f"):
        return Arr(shape, get, kind, oid=self.new_oid())

    def arr_of(self, items, kind=None):
        items = [num(x) if not isinstance(x, bool) else x for x in items]
        if kind is None:
            kind = "f" if any(is_real(x) for x in items) else "i"
        if kind == "f":
            items = [to_real(x) for x in items]
        its = list(items)

        def get(i):
            if isinstance(i, int):
                if 0 <= i < len(its):
                    return its[i]
                return its[0] if its else (Fraction(0) if kind == "f" else 0)
            if not its:
                return Fraction(0) if kind == "f" else 0
            v = its[-1]
            for j in range(len(its) - 2, -1, -1):
                v = ite(i == j, its[j], v)
            return v

        return Arr((len(its),), get, kind, oid=self.new_oid())

    # ------------------------------------------------------------ snapshots
    def snap(self, v, memo):
        if isinstance(v, Heap):
            k = id(v)
            if k in memo:
                return memo[k]
            if isinstance(v, Obj):
                if v.ident is not None:
                    n = Obj(v.cls, None, v.oid, v.ident)
                    n.attrs = {}
                    memo[k] = n
                    n.eng, n.owner = v.eng, v.owner
                    n.attr_ver = dict(v.attr_ver)
                    n.snap_versions = dict(self.elem_version) if v.snap_versions is None else v.snap_versions
                    n.attrs.update({a: self.snap(x, memo) for a, x in v.attrs.items()})
                    return n
                n = Obj(v.cls, {}, v.oid)
                if "nref" in v.__dict__:
                    n.nref = v.nref
                memo[k] = n
                for a, x in v.attrs.items():
                    n.attrs[a] = self.snap(x, memo)
                return n
            if isinstance(v, ListV):
                if hasattr(v, "ref"):
                    g = v.get
                    n = self.obj_list(v.elt.cls, v.n, lambda i: g(i).ident, v.owner, dict(self.elem_version))
                    n.oid = v.oid
                    memo[k] = n
                    return n
                n = ListV(None, v.n, v.get, v.oid, v.elt)
                memo[k] = n
                if v.concrete:
                    n.items = [self.snap(x, memo) for x in v.items]
                return n
            if type(v).__name__ == "FrameV":
                memo[k] = v.snapshot()
                return memo[k]
            if isinstance(v, DictV):
                n = DictV({}, v.oid)
                n.num = v.num
                memo[k] = n
                n.d = {a: (p, self.snap(x, memo)) for a, (p, x) in v.d.items()}
                return n
            if isinstance(v, Arr):
                n = Arr(v.shape, v.get, v.kind, v.affine, v.oid)
                n.__dict__.update({a: x for a, x in v.__dict__.items() if a not in n.__dict__})
                memo[k] = n
                return n
        if isinstance(v, TupleV):
            return TupleV(self.snap(x, memo) for x in v)
        return v

    def snapshot_ctx(self, args):
        memo = {}
        return NS(**{k: self.snap(v, memo) for k, v in args.items()})

    # ------------------------------------------------------------ heap writes
    def note_write(self, loc, restore, value):
        for entry_oid, writes, entry_depth in self.loop_stack:
            kind = loc[0]
            if kind == "local":
                if loc[1] <= entry_depth:
                    writes[loc] = value
            elif kind in ("ghost", "elem"):
                writes[loc] = value
            else:
                oid = loc[1]
                if not isinstance(oid, int) or oid <= entry_oid:
                    writes[loc] = value
        if self.trail is not None:
            self.trail.append((loc, restore))

    def set_local(self, frame, name, v):
        had = name in frame.locals
        old = frame.locals.get(name)

        def restore(f=frame, n=name, had=had, old=old):
            if had:
                f.locals[n] = old
            else:
                f.locals.pop(n, None)

        frame.locals[name] = v
        self.note_write(("local", frame.depth, name), restore, v)

    def refid(self, o):
        """identity of an object as a reference: created objects have negative ones, unknown ones any"""
        if o.ident is not None:
            return o.ident
        if "nref" in o.__dict__:
            return o.nref
        return z3.Int(f"ref!{o.oid}")

    def set_attr_raw(self, o, attr, v):
        if o.ident is not None:
            key = (o.cls, attr)
            oldver = self.elem_version.get(key, 0)
            ver = self.ver_counter = getattr(self, "ver_counter", 0) + 1
            had, old, oldav = attr in o.attrs, o.attrs.get(attr), o.attr_ver.get(attr, 0)

            def restore():
                self.elem_version[key] = oldver
                if had:
                    o.attrs[attr] = old
                    o.attr_ver[attr] = oldav
                else:
                    o.attrs.pop(attr, None)

            self.elem_version[key] = ver
            from .registry import SCHEMA

            self.oblige_sort(f"{self.contract.short}: {o.cls}.{attr} stays in its documented range", SCHEMA[o.cls][attr], self.force(v), "post")
            if attr in getattr(self.contract, "precise_elems", {}).get(o.cls, ()):
                self.link_elem(o, attr, oldver, ver, v)
            o.attrs[attr] = v
            o.attr_ver[attr] = ver
            self.note_write(("elem", o.cls, attr), restore, v)
            return
        had, old = attr in o.attrs, o.attrs.get(attr)

        def restore():
            if had:
                o.attrs[attr] = old
            else:
                o.attrs.pop(attr, None)

        o.attrs[attr] = v
        self.note_write(("attr", o.oid, attr, o), restore, v)

    def link_elem(self, o, attr, oldver, ver, v):
        """a write to one instance: the others keep their value, this one has the new value however it is reached"""
        from .registry import SCHEMA

        s = SCHEMA[o.cls][attr]
        X, J, r = z3.Int("lnk!x"), z3.Int("lnk!j"), tz(o.ident)
        name = lambda k: f"{o.cls}.{attr}" + (f"~{k}" if k else "")
        a, b = self.elem_fresh(s, name(oldver), X, o), self.elem_fresh(s, name(ver), X, o)
        bo = self.elem_fresh(s, name(ver), r, o)
        if isinstance(s, so.ArrS) and len(s.shape) == 1:
            v = self.force(v)
            if is_z3(b.shape[0]):
                self.assume(z3.ForAll([X], z3.Implies(X != r, b.shape[0] == a.shape[0]), patterns=[b.shape[0]]))
                self.assume(bo.shape[0] == tz(v.shape[0]))
            self.assume(z3.ForAll([X, J], z3.Implies(X != r, b.get(J) == a.get(J)), patterns=[b.get(J)]))
            self.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < tz(v.shape[0])), bo.get(J) == tz(v.get(J))), patterns=[bo.get(J)]))
        elif isinstance(s, (so.IntS, so.RealS, so.BoolS)):
            self.assume(z3.ForAll([X], z3.Implies(X != r, b == a), patterns=[b]))
            self.assume(bo == tz(v))
        elif isinstance(s, so.StrS):
            self.assume(z3.ForAll([X], z3.Implies(X != r, b.term == a.term), patterns=[b.term]))
            self.assume(self.same_value(bo, v))
        elif isinstance(s, so.OwnerS):
            f = lambda k: z3.Function(name(k) + ".owner", z3.IntSort(), z3.IntSort())
            self.assume(z3.ForAll([X], z3.Implies(X != r, f(ver)(X) == f(oldver)(X)), patterns=[f(ver)(X)]))
            self.assume(f(ver)(r) == tz(self.refid(v)))
        else:
            raise Unsupported(f"precise update of {o.cls}.{attr}")

    def bump_elems(self, cls, attr):
        """the attribute of every instance reached through a list may have changed"""
        key = (cls, attr)
        oldver = self.elem_version.get(key, 0)

        def restore():
            self.elem_version[key] = oldver

        self.ver_counter = getattr(self, "ver_counter", 0) + 1
        self.elem_version[key] = self.ver_counter
        self.note_write(("elem", cls, attr), restore, None)

    def set_list(self, lv, items=None, n=None, get=None, elt=None):
        old = (lv.items, lv.n, lv.get, lv.elt)

        def restore():
            lv.items, lv.n, lv.get, lv.elt = old

        lv.items, lv.n, lv.get = items, n, get
        if elt is not None:
            lv.elt = elt
        self.note_write(("list", lv.oid, lv), restore, ListV(items, n, get, elt=lv.elt))

    def set_arr(self, a, get, shape=None):
        if a.base is not None:
            raise Unsupported("write through an array view")
        old = (a.get, a.shape, a.affine)

        def restore():
            a.get, a.shape, a.affine = old

        a.get = get
        a.affine = None
        if shape is not None:
            a.shape = shape
        self.note_write(("arr", a.oid, a), restore, Arr(a.shape, get, a.kind))

    def set_dict(self, d, key, entry):
        had, old = key in d.d, d.d.get(key)

        def restore():
            if had:
                d.d[key] = old
            else:
                d.d.pop(key, None)

        if entry is None:
            d.d.pop(key, None)
        else:
            d.d[key] = entry
        self.note_write(("dict", d.oid, key, d), restore, entry)

    def set_ghost(self, name, v):
        old = self.ghost[name]

        def restore():
            self.ghost[name] = old

        self.ghost[name] = v
        self.note_write(("ghost", name), restore, v)

    # ------------------------------------------------------------ frame condition
    def oblige_sort(self, name, sort, v, kind):
        f = self.sort_ok(sort, v)
        if f is not True:
            self.oblige(name, f, kind)

    def check_sorts(self, args, value):
        """what callers assume of the result and of the attributes the function may change"""
        from .registry import SCHEMA

        c = self.contract
        if c.returns is not None and not callable(c.returns) and c.value is None:
            self.oblige_sort(f"{c.short}: the result is of the specified kind", c.returns, value, "post")
        for path in c.modifies:
            parts = path.split(".")
            o = args[parts[0]]
            if len(parts) == 1 or not isinstance(o, Obj):
                continue
            for p in parts[1:-1]:
                o = self.force(self.getattr(o, p))
            if not isinstance(o, Obj) or o.ident is not None:
                continue
            for a in SCHEMA.get(o.cls, {}) if parts[-1] == "*" else parts[-1:]:
                full = ".".join(parts[:-1] + [a])
                sort = c.havoc_sorts.get(full) or SCHEMA.get(o.cls, {}).get(a)
                if sort is not None and full not in c.sets and a in o.attrs:
                    self.oblige_sort(f"{c.short}: {full} stays in its documented range", sort, o.attrs[a], "post")

    def check_frame(self, args):
        c = self.contract
        allowed = set(c.modifies)
        for pname, v in args.items():
            old = getattr(self.ctx.old, pname)
            self._frame_cmp(pname, old, v, allowed, set())
        for (cls, attr), ver in sorted(self.elem_version.items()):
            if ver and attr not in c.modifies_elems.get(cls, ()):
                self.oblige(f"{c.short}: frame: {attr} of the {cls} instances unchanged", False, "frame")

    def _frame_cmp(self, path, old, new, allowed, seen):
        if path in allowed or any(path.startswith(a[:-1]) for a in allowed if a.endswith("*")):
            return
        if isinstance(new, Obj):
            if id(new) in seen:
                return
            seen.add(id(new))
            if not isinstance(old, Obj) or old.oid != new.oid:
                self.oblige(f"{self.contract.short}: frame {path}", False if self.live else True, "frame")
                return
            if new.ident is not None:
                return
            for a in sorted(set(old.attrs) | set(new.attrs)):
                if a not in old.attrs:
                    if f"{path}.{a}" not in allowed and not any(
                        f"{path}.{a}".startswith(x[:-1]) for x in allowed if x.endswith("*")
                    ):
                        # new attribute: private helper state of a refactoring is harmless
                        pass
                    continue
                if a not in new.attrs:
                    self.oblige(f"{self.contract.short}: frame {path}.{a} deleted", False, "frame")
                self._frame_cmp(f"{path}.{a}", old.attrs[a], new.attrs[a], allowed, seen)
            return
        try:
            eq = self.same_value(old, new)
        except Unsupported:
            eq = None
        if eq is None and type(old) is not type(new) and not isinstance(old, (Opaque, Poison)):
            eq = False
        if eq is None or eq is True:
            return
        self.oblige(f"{self.contract.short}: frame {path} unchanged", eq, "frame")

    def same_value(self, a, b):
        """formula: deep equality of two values (None: unknown, treated as unchanged opaque)"""
        if a is b:
            return True
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.get is b.get and a.shape == b.shape:
                return True
            if len(a.shape) != len(b.shape):
                return False
            fs = [self.eq_num(x, y) for x, y in zip(a.shape, b.shape)]
            idx = [z3.Int(f"fr!{i}") for i in range(len(a.shape))]
            rng = z3.And(*[z3.And(i >= 0, i < tz(n)) for i, n in zip(idx, a.shape)])
            if len(a.shape) == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 4:
                fs += [self.eq_num(a.get(i), b.get(i)) for i in range(a.shape[0])]
            else:
                fs.append(z3.ForAll(idx, z3.Implies(rng, tz(self.eq_num(a.get(*idx), b.get(*idx))))))
            return self.S.And(*fs)
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.concrete and b.concrete:
                if len(a.items) != len(b.items):
                    return False
                return self.S.And(*[self.S.true_if_none(self.same_value(x, y)) for x, y in zip(a.items, b.items)])
            if a.get is b.get and a.n is b.n and not a.concrete and not b.concrete:
                return True
            i = z3.Int("fr!l")
            e = self.same_value(a.at(i), b.at(i))
            return self.S.And(
                self.eq_num(a.length(), b.length()),
                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(a.length())), tz(e))) if e is not None else True,
            )
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.S.And(self.eq_num(a.start, b.start), self.eq_num(a.stop, b.stop))
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            return (a == b) if isinstance(a, EnumV) else (b == a)
        if is_num(a) and is_num(b):
            return self.eq_num(a, b)
        if isinstance(a, (Tok, str, FStr)) and isinstance(b, (Tok, str, FStr)):
            return self.eq_str(a, b)
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            na, va = (a.isnone, a.val) if isinstance(a, Maybe) else (a is None, a)
            nb, vb = (b.isnone, b.val) if isinstance(b, Maybe) else (b is None, b)
            if va is None or vb is None:
                return self.S.And(na, nb) if (va is None and vb is None) else (self.S.And(na) if vb is None else self.S.And(nb))
            e = self.same_value(va, vb)
            return self.S.And(self.S.Iff(na, nb), self.S.Or(na, True if e is None else e))
        if a is None or b is None:
            return a is b
        if isinstance(a, DateV) and isinstance(b, DateV):
            return self.eq_num(a.minutes, b.minutes)
        if type(a).__name__ == "FrameV" and type(b).__name__ == "FrameV":
            from .models_df import same_frame

            return same_frame(self, a, b)
        if type(a).__name__ == "IdxV" and type(b).__name__ == "IdxV":
            return a.term == b.term
        if type(a).__name__ == "DateIdx" and type(b).__name__ == "DateIdx":
            return self.S.And(self.eq_num(a.n, b.n), self.eq_num(a.start, b.start), self.eq_num(a.step, b.step))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.ident is not None and b.ident is not None:
                return a.cls == b.cls and self.eq_num(a.ident, b.ident)
            return a.oid == b.oid
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a) != len(b):
                return False
            return self.S.And(*[self.S.true_if_none(self.same_value(x, y)) for x, y in zip(a, b)])
        if isinstance(a, DictV) and isinstance(b, DictV):
            fs = []
            for k in set(a.d) | set(b.d):
                pa, va = a.d.get(k, (False, None))
                pb, vb = b.d.get(k, (False, None))
                fs.append(self.S.Iff(pa, pb))
                if va is not None and vb is not None:
                    e = self.same_value(va, vb)
                    if e is not None:
                        fs.append(self.S.Implies(pa, e))
            return self.S.And(*fs)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None if (isinstance(a, Opaque) and isinstance(b, Opaque) and a is b) else False
        if type(a) != type(b):
            return False
        return None

    def eq_num(self, a, b):
        if not is_z3(a) and not is_z3(b):
            return num(a) == num(b)
        if is_bool(a) and is_bool(b):
            return tz(a) == tz(b)
        x, y = unify(a, b)
        return x == y

    def eq_str(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        ta = str_term(a) if isinstance(a, str) else fstr_term(a) if isinstance(a, FStr) else a.term
        tb = str_term(b) if isinstance(b, str) else fstr_term(b) if isinstance(b, FStr) else b.term
        return ta == tb

    # ------------------------------------------------------------ function calls
    def force(self, v):
        while isinstance(v, Maybe):
            if self.decide(v.isnone, "is None"):
                return None
            v = v.val
        if isinstance(v, Cell) and not (isinstance(v.val, Tok) and v.isf is not False) and (v.blank is False or is_z3(v.blank) and self.is_valid_qf(z3.Not(v.blank))):
            return v.val
        return v

    def bind(self, fi, args, kwargs, self_obj=None):
        """args: list or dict name->value (entry); returns locals dict"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if isinstance(args, dict):
            for k, v in args.items():
                if k.startswith("**"):
                    out[k[2:]] = v
                elif k.startswith("*"):
                    out[k[1:]] = v
                else:
                    out[k] = v
        else:
            args = list(args)
            if self_obj is not None:
                args = [self_obj] + args
            extra = []
            for i, v in enumerate(args):
                if i < len(names):
                    out[names[i]] = v
                else:
                    extra.append(v)
            if a.vararg:
                out[a.vararg.arg] = TupleV(extra)
            elif extra:
                raise PyExc("TypeError", f"too many positional arguments for {fi.name}")
        for x in names + [x.arg for x in a.kwonlyargs]:
            if x in kwargs:
                if x in out:
                    raise PyExc("TypeError", f"multiple values for argument {x}")
                out[x] = kwargs.pop(x)
        if kwargs:
            if a.kwarg:
                out[a.kwarg.arg] = DictV({k: (v.present, v.value) if isinstance(v, MaybeArg) else (True, v) for k, v in kwargs.items()}, oid=self.new_oid())
            else:
                raise PyExc("TypeError", f"{fi.name}() got an unexpected keyword argument {sorted(kwargs)[0]}")
        elif a.kwarg and a.kwarg.arg not in out:
            out[a.kwarg.arg] = DictV({}, oid=self.new_oid())
        if a.vararg and a.vararg.arg not in out:
            out[a.vararg.arg] = TupleV()
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in defaults:
                    out[n] = self.eval_default(fi, defaults[n])
                else:
                    raise PyExc("TypeError", f"{fi.name}() missing argument {n}")
            elif isinstance(out[n], MaybeArg):
                ma = out[n]
                if n in defaults:
                    out[n] = ite(ma.present, ma.value, self.eval_default(fi, defaults[n]))
                else:
                    if self.decide(ma.present):
                        out[n] = ma.value
                    else:
                        raise PyExc("TypeError", f"{fi.name}() missing argument {n}")
        return out

    def eval_default(self, fi, node):
        # default values are evaluated once, at definition time; mutable defaults keep identity per path
        key = ("default", fi.qual, node.lineno, node.col_offset)
        cache = self.elem_cache
        if key not in cache:
            fr = Frame(fi, fi.module, fi.cls)
            cache[key] = self.eval(node, fr)
        return cache[key]

    def call_function(self, fi, args, kwargs, self_obj=None, entry=False, closure=None):
        locs = self.bind(fi, args, kwargs, self_obj)
        if not entry:
            c = self.contract_for(fi, locs)
            if c is not None and not getattr(c, "inline", False) and fi.qual not in self.contract.inline_calls:
                return self.call_contract(c, fi, locs)
            self.inlined.add(fi.qual)
            if any(
                f is fi for f in self._stack_funcs()
            ):
                raise Unsupported(f"recursion without contract in {fi.qual}")
        fr = Frame(fi, fi.module, fi.cls, parent=self.frame, closure=closure)
        if fr.depth > self.MAX_DEPTH:
            raise Unsupported("call depth")
        fr.locals = locs
        saved = self.frame
        self.frame = fr
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fi.node)):
                raise Unsupported(f"generator function {fi.qual}")
            self.exec_block(fi.node.body, fr)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.frame = saved

    def contract_for(self, fi, locs):
        """the contract (case) that applies to the call"""
        cs = self.contracts.get(fi.qual) or ()
        if fi.qual in self.contract.inline_calls:
            return None
        for c in cs:
            if all(n in locs and self.fits(s, locs[n] if isinstance(s, so.MaybeS) else self.force(locs[n])) for n, s in c.params.items()):
                return c
        if cs and self.contract.target == fi.qual:
            return None
        if cs:
            raise Unsupported(f"call of {fi.qual} outside every case of its contract")
        return None

    def fits(self, s, v):
        if isinstance(s, so.MaybeS):
            return v is None or self.fits(s.elt, v.val if isinstance(v, Maybe) else v)
        if v is None and isinstance(s, so.Sort) and not isinstance(s, (so.ConstS, so.OneOf, so.NoneS, so.AnyS)):
            return False
        if isinstance(v, Maybe):
            v = self.force(v)
        if isinstance(s, so.ConstS):
            return self.same_value(self.lift(s.value), v) is True
        if isinstance(s, so.OneOf):
            if is_bool(v) and {getattr(a, "value", None) for a in s.alts} == {True, False}:
                return True
            return any(self.fits(a, v) if isinstance(a, so.Sort) else self.same_value(self.lift(a), v) is True for a in s.alts)
        if isinstance(s, so.StrS):
            return isinstance(v, (str, Tok, FStr))
        if isinstance(s, so.DateS):
            return isinstance(v, DateV)
        if isinstance(s, (so.AffineS, so.ArrS)):
            return isinstance(v, Arr)
        if isinstance(s, (so.IntS, so.RealS)):
            return is_num(v)
        if isinstance(s, (so.ObjS, so.OwnerS, so.ElemS)):
            if not (isinstance(v, Obj) and v.cls == s.cls):
                return False
            if isinstance(s, so.ElemS) or v.ident is not None:
                return True
            from .registry import SCHEMA

            sorts = {**SCHEMA.get(s.cls, {}), **(s.over if isinstance(s, so.ObjS) else {})}
            return all(self.fits(sorts[k], x) for k, x in v.attrs.items() if k in sorts and (x is None or k in getattr(s, "over", ())))
        if isinstance(s, so.FrameS):
            return type(v).__name__ == "FrameV" and (s.labels is None or v.labels == list(s.labels))
        if isinstance(s, so.IndexS):
            return type(v).__name__ == "IdxV"
        if isinstance(s, so.TupleS):
            return isinstance(v, tuple) and len(v) == len(s.elts) and all(self.fits(e, self.force(x)) for e, x in zip(s.elts, v))
        if isinstance(s, so.FixedListS):
            return isinstance(v, ListV) and v.concrete and len(v) == len(s.elts) and all(self.fits(e, self.force(x)) for e, x in zip(s.elts, v.items))
        if isinstance(s, so.ListS):
            return isinstance(v, ListV)
        if isinstance(s, so.ObjListS):
            return isinstance(v, ListV) and (isinstance(v.elt, so.ObjListS) and v.elt.cls == s.cls or (v.concrete and all(isinstance(x, Obj) and x.cls == s.cls for x in v.items)))
        if isinstance(s, so.OptDictS):
            return isinstance(v, DictV)
        if isinstance(s, so.NoneS):
            return v is None
        return True

    def _stack_funcs(self):
        f = self.frame
        while f is not None:
            yield f.fi
            f = f.parent

    def call_contract(self, c, fi, locs, remote=False):
        """modular call: assert requires, havoc the frame, assume ensures (remote: in another process, on copies)"""
        self.used_contracts.add(c.target)
        S = self.S
        names = list(c.params)
        missing = [n for n in names if n not in locs]
        if missing:
            raise Unsupported(f"{fi.qual} no longer has parameter(s) {missing}")
        args = {n: self.force(locs[n]) if not isinstance(c.params[n], so.MaybeS) else locs[n] for n in names}
        for n in list(args):
            args[n] = self.coerce(c.params[n], args[n], n)
        ctx = NS(**args)
        ctx.ghost = NS(**self.ghost)
        for n in names:
            self.oblige_sort(f"{self.contract.short}: call of {c.short} requires {n} in its documented range", c.params[n], args[n], "pre")
        for nm, f in c.requires(S, ctx):
            self.oblige(f"{self.contract.short}: call of {c.short} requires {nm}", f, "pre")
        ctx.old = self.snapshot_ctx(args)
        ctx.versions = dict(self.elem_version)
        ctx.ghost_old = NS(**{k: self.snap(v, {}) for k, v in self.ghost.items()})
        if c.draws is not False and not remote:
            self.events.append(("draws", c.target))
        for kind, (mode, cond) in c.raises.items():
            if cond is None:
                if self.choose(2, f"{c.short} raises {kind}") == 1:
                    self.refused(c, kind)
            else:
                f = cond(S, NS(**{**ctx.old.__dict__, "old": ctx.old}))
                if mode == "iff":
                    if self.nomerge and is_z3(simp(f)):
                        # an element of a sequence: that none of the calls raises is shown for any one position
                        if self.obliged or self.prove(z3.Implies(z3.And(*self.probe_bound), z3.Not(f)))[0] == "proved":
                            continue
                    if self.decide(f, f"{c.short} raises {kind}"):
                        self.refused(c, kind)
                else:
                    if isinstance(f, bool):
                        if f and self.choose(2, f"{c.short} raises {kind}") == 1:
                            self.refused(c, kind)
                    elif self.feasible(f) and self.choose(2, f"{c.short} raises {kind}") == 1:
                        self.assume(f)
                        self.refused(c, kind)
        for path in c.modifies if not remote else ():
            self.havoc_path(path, args, c)
        for cls, attrs in c.modifies_elems.items() if not remote else ():
            for attr in attrs:
                self.bump_elems(cls, attr)
        if c.value is not None:
            res = c.value(S, ctx)
        elif c.call_value is not None:
            res = c.call_value(S, ctx)
        else:
            res = self.fresh(c.returns(self, ctx) if callable(c.returns) else c.returns, f"{c.short}.ret") if c.returns is not None else None
        ctx.result = res
        ctx.exc = None
        ctx.draws = None
        for nm, f in c.ensures(S, ctx):
            self.assume(f)
        rec = NS(target=c.target, short=c.short, args=ctx.old, result=res, ctx=ctx)
        self.calls.append(rec)
        self.events.append(("call", c.target, rec))
        for hook in self.contract.on_call(S, ctx, c.short, self.ghost) or ():
            self.set_ghost(*hook)
        return res

    def refused(self, c, kind):
        self.events.append(("refused", c.target, kind))
        raise PyExc(kind, f"from {c.short}")

    def sort_ok(self, sort, v):
        """formula: what a fresh value of the sort is assumed to satisfy holds of the value"""
        S = self.S
        if not isinstance(sort, so.Sort):
            return True
        if isinstance(sort, so.MaybeS):
            if v is None:
                return True
            if isinstance(v, Maybe):
                r = self.sort_ok(sort.elt, v.val)
                return r if r is True else S.Or(v.isnone, r)
            return self.sort_ok(sort.elt, v)
        if isinstance(v, Maybe):
            return S.And(S.Not(v.isnone), self.sort_ok(sort, v.val))
        if isinstance(sort, (so.IntS, so.RealS)):
            if isinstance(v, EnumV):
                v = self.enum_num(v)
            if not is_num(v):
                return False
            if isinstance(sort, so.IntS) and is_real(v) and not isinstance(v, int):
                return False
            return self.in_bounds(v, sort)
        if isinstance(sort, so.BoolS):
            return is_bool(v)
        if isinstance(sort, so.StrS):
            return isinstance(v, (str, Tok, FStr))
        if isinstance(sort, so.EnumS):
            if isinstance(v, EnumV):
                ok = [i for i, x in enumerate(v.values) if x in sort.values]
                return len(ok) == len(v.values) or S.Or(*[v.term == i for i in ok])
            if is_z3(v):
                return S.Or(*[self.eq_num(v, x) for x in sort.values])
            return v in sort.values
        if isinstance(sort, so.OneOf):
            rs = [self.sort_ok(a, v) if isinstance(a, so.Sort) else self.same_value(self.lift(a), v) for a in sort.alts]
            return True if any(r is True for r in rs) else S.Or(*[r for r in rs if r is not None and r is not False])
        if isinstance(sort, (so.ArrS, so.AffineS)):
            if not isinstance(v, Arr):
                return False
            if isinstance(sort, so.AffineS):
                return S.ge(v.shape[0], sort.minlen) if v.affine is not None else True
            if len(v.shape) != len(sort.shape):
                return False
            out = [S.ge(x, sort.minlen) if w is None else S.eq(x, w) for x, w in zip(v.shape, sort.shape)]
            if sort.lo is not None or sort.hi is not None:
                if len(v.shape) == 1:
                    out.append(S.ForAll(0, v.shape[0], lambda i: self.in_bounds(v.get(i), sort)))
                else:
                    out.append(S.ForAll(0, v.shape[0], lambda i: S.ForAll(0, v.shape[1], lambda j: self.in_bounds(v.get(i, j), sort))))
            return S.And(*out)
        if isinstance(sort, so.PairS):
            if isinstance(v, Arr) and len(v.shape) == 1:
                return S.And(S.eq(v.shape[0], 2), *[self.in_bounds(v.get(i), sort) for i in (0, 1)])
            if isinstance(v, ListV) and v.concrete or isinstance(v, TupleV):
                return len(v) == 2 and S.And(*[self.in_bounds(v[i], sort) for i in (0, 1)])
            return False
        if isinstance(sort, (so.ListS, so.ObjListS)):
            if not isinstance(v, ListV):
                return False
            out = [S.ge(v.length(), sort.minlen)]
            elt = getattr(sort, "elt", None)
            if isinstance(elt, (so.IntS, so.RealS)) and (elt.lo is not None or elt.hi is not None):
                out.append(S.ForAll(0, v.length(), lambda i: self.in_bounds(v.at(i), elt)))
            return S.And(*out)
        if isinstance(sort, so.TupleS):
            return isinstance(v, tuple) and len(v) == len(sort.elts) and S.And(*[self.sort_ok(e, x) for e, x in zip(sort.elts, v)])
        if isinstance(sort, so.FixedListS):
            return isinstance(v, ListV) and v.concrete and len(v) == len(sort.elts) and S.And(*[self.sort_ok(e, x) for e, x in zip(sort.elts, v.items)])
        if isinstance(sort, so.DateS):
            return isinstance(v, DateV) and S.And(S.ge(v.minutes, 1440), S.eq(S.mod(v.minutes, 1440), 0))
        if isinstance(sort, (so.ObjS, so.ElemS, so.OwnerS)):
            return isinstance(v, Obj) and v.cls == sort.cls
        if isinstance(sort, so.NoneS):
            return v is None
        if isinstance(sort, so.ConstS):
            r = self.same_value(self.lift(sort.value), v)
            return False if r is None else r
        if isinstance(sort, so.DateIndexS):
            return type(v).__name__ == "DateIdx" and S.And(
                S.eq(v.step, sort.step), S.ge(v.n, sort.minlen), S.ge(v.start, 1440), S.eq(S.mod(v.start, 1440), 0))
        if isinstance(sort, so.FrameS):
            return type(v).__name__ == "FrameV" and (sort.labels is None or v.labels == list(sort.labels)) and S.And(S.ge(v.n, sort.minrows), S.ge(v.m, sort.mincols))
        if isinstance(sort, so.IndexS):
            return type(v).__name__ == "IdxV"
        if isinstance(sort, so.OptDictS):
            return isinstance(v, DictV)
        if isinstance(sort, so.AnyS):
            return True
        raise Unsupported(f"range of {sort}")

    def in_bounds(self, v, sort):
        out = []
        if sort.lo is not None:
            out.append(self.S.le(sort.lo, v))
        if sort.hi is not None:
            out.append(self.S.le(v, sort.hi))
        return self.S.And(*out) if out else True

    def coerce(self, sort, v, name):
        """check that an actual argument has the kind the contract's parameter is specified for"""
        if isinstance(sort, (so.IntS, so.RealS)) and not is_num(v):
            raise Unsupported(f"argument {name} is not a number: {v!r}")
        if isinstance(sort, so.ConstS):
            eq = self.same_value(self.lift(sort.value), v)
            if eq is not True:
                raise Unsupported(f"argument {name} outside the contract's case ({v!r})")
        if isinstance(sort, (so.ObjS, so.ElemS)) and not (isinstance(v, Obj) and v.cls == sort.cls):
            raise Unsupported(f"argument {name} is not a {sort.cls}: {v!r}")
        if isinstance(sort, so.BoolS) and not is_bool(v):
            raise Unsupported(f"argument {name} is not a bool")
        if isinstance(sort, so.EnumS) and not isinstance(v, EnumV):
            if v not in sort.values:
                raise Unsupported(f"argument {name} outside the contract's values ({v!r})")
        if isinstance(sort, so.OneOf):
            ok = is_bool(v) and {getattr(a, "value", None) for a in sort.alts} == {True, False}
            for a in sort.alts:
                try:
                    if isinstance(a, so.Sort):
                        self.coerce(a, v, name)
                    elif self.same_value(self.lift(a), v) is not True:
                        continue
                    ok = True
                    break
                except Unsupported:
                    continue
            if not ok:
                raise Unsupported(f"argument {name} outside the contract's cases ({v!r})")
        if isinstance(sort, so.NoneS) and v is not None:
            raise Unsupported(f"argument {name} outside the contract's case (not None)")
        if isinstance(sort, so.PairS) and not (
            (isinstance(v, Arr) and v.shape == (2,)) or (isinstance(v, (ListV, TupleV)) and len(v) == 2)
        ):
            raise Unsupported(f"argument {name} is not a pair")
        if isinstance(sort, (so.AffineS, so.ArrS)) and not isinstance(v, Arr):
            raise Unsupported(f"argument {name} is not an array: {v!r}")
        if isinstance(sort, so.AffineS) and v.affine is None:
            if isinstance(v, Arr) and len(v.shape) == 1:
                j = z3.Int("aff!j")
                st = v.get(0)
                n = v.shape[0]
                f = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tz(n)), tz(v.get(j)) == tz(st) + j))
                if self.oblige(f"{self.contract.short}: {name} is a run of consecutive minutes", f, "pre"):
                    v.affine = (st, 1)
                    return v
            raise Unsupported(f"argument {name} is not a run of consecutive minutes")
        return v

    def havoc_path(self, path, args, c):
        parts = path.split(".")
        o = args[parts[0]]
        if len(parts) == 1:
            if isinstance(o, Arr):
                self.set_arr(o, self.fresh_fn(f"{c.short}:{path}", len(o.shape), o.kind))
                return
            if isinstance(o, ListV):
                self.havoc_list(o, f"{c.short}:{path}")
                return
            raise Unsupported(f"modifies {path}")
        for p in parts[1:-1]:
            o = self.force(self.getattr(o, p))
        attr = parts[-1]
        if not isinstance(o, Obj):
            raise Unsupported(f"modifies {path}")
        from .registry import SCHEMA

        if attr == "*":
            for a, sort in SCHEMA.get(o.cls, {}).items():
                full = path[:-1] + a
                self.set_attr_raw(o, a, c.sets[full](args) if full in c.sets else self.fresh(c.havoc_sorts.get(full) or sort, f"{c.short}:{full}"))
            return
        if path in c.sets:
            self.set_attr_raw(o, attr, c.sets[path](args))
            return

        sort = c.havoc_sorts.get(path) or SCHEMA.get(o.cls, {}).get(attr)
        if sort is None:
            raise Unsupported(f"modifies {path}: no sort")
        self.set_attr_raw(o, attr, self.fresh(sort, f"{c.short}:{path}"))

    def havoc_list(self, lv, base):
        if lv.elt is None:
            raise Unsupported("havoc of list without element sort")
        n = self.freshint(base + ".len", 0)
        self.set_list(lv, None, n, self.fresh_getter(lv.elt, base))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "exec_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {fr.fi.name}:{s.lineno}")
        m(s, fr)

    def exec_Pass(self, s, fr):
        pass

    def exec_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def exec_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def exec_Break(self, s, fr):
        raise BreakEx()

    def exec_Continue(self, s, fr):
        raise ContinueEx()

    def exec_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def exec_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def exec_Global(self, s, fr):
        raise Unsupported("global statement")

    def exec_Import(self, s, fr):
        for a in s.names:
            self.set_local(fr, a.asname or a.name.split(".")[0], ModV(a.name if a.asname else a.name.split(".")[0]))

    def exec_ImportFrom(self, s, fr):
        for a in s.names:
            self.set_local(fr, a.asname or a.name, self.import_from(s.module, a.name))

    def exec_FunctionDef(self, s, fr):
        fi = FuncInfo(fr.module, None, s)
        fi.qual = f"{fr.fi.qual}.<locals>.{s.name}"
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.set_local(fr, s.name, FuncV("repo", fi=fi, name=s.name, closure=fr, self_obj=None))

    def exec_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_local(fr, t.id, Poison("deleted"))
            elif isinstance(t, ast.Subscript):
                o = self.force(self.eval(t.value, fr))
                i = self.eval_index(t.slice, fr)
                if isinstance(o, ListV):
                    self.list_pop(o, i)
                elif isinstance(o, DictV):
                    self.dict_pop(o, i)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def exec_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyExc("AssertionError", "assert")

    def exec_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            v = self.inplace(type(s.op).__name__, cur, self.eval(s.value, fr))
            self.set_local(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, fr))
            name = self.mangle(t.attr, fr)
            cur = self.getattr(o, name)
            v = self.inplace(type(s.op).__name__, cur, self.eval(s.value, fr))
            self.setattr(o, name, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, fr))
            i = self.eval_index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.inplace(type(s.op).__name__, cur, self.eval(s.value, fr), item=True)
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v, item=False):
        cur = self.force(cur)
        v = self.force(v)
        if isinstance(cur, ListV) and op == "Add":
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, Arr) and not item:
            r = self.binop(op, cur, v)
            if not isinstance(r, Arr) or len(r.shape) != len(cur.shape):
                raise Unsupported("in-place array operation with broadcasting")
            if cur.kind == "i" and r.kind == "f":
                raise PyExc("TypeError", "in-place float operation on an integer array")
            self.set_arr(cur, r.get)
            return cur
        if isinstance(cur, Arr) and item:
            return self.binop(op, cur, v)
        if type(cur).__name__ == "FrameV":
            from .models_df import set_frame

            r = self.binop(op, cur, v)
            set_frame(self, cur, get=r.get, origin=None)
            return cur
        if type(cur).__name__ == "SeriesV":
            raise Unsupported("in-place arithmetic on a series")
        return self.binop(op, cur, v)

    def exec_If(self, s, fr):
        test = self.truth_term(self.eval(s.test, fr))
        test = simp(test)
        if not isinstance(test, bool) and self.contract.merge_ifs and self.mergeable(s.body) and self.mergeable(s.orelse):
            if self.try_merge(test, s, fr):
                return
        if self.decide(test, f"if at {fr.fi.name}:{s.lineno}"):
            self.path_notes.append(f"{fr.fi.name}:{s.lineno} true")
            self.exec_block(s.body, fr)
        else:
            self.path_notes.append(f"{fr.fi.name}:{s.lineno} false")
            self.exec_block(s.orelse, fr)

    def mergeable(self, body):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda, ast.ListComp)):
                    return False
        return True

    def try_merge(self, test, s, fr):
        if not self.feasible(test) or not self.feasible(z3.Not(test)):
            return False
        saved_trail, saved_nomerge = self.trail, self.nomerge
        npc, nq = len(self.pc), len(self.facts_q)
        state = (dict(self.fresh_n), self.oid, len(self.events), len(self.calls), len(self.draws), len(self.obls))
        stack_state = [dict(w) for _, w, _ in self.loop_stack]

        def run(cond, body):
            self.trail = []
            self.nomerge = True
            self.qf.push()
            self.qf.add(cond)
            self.pc.append(cond)
            writes = []
            try:
                self.exec_block(body, fr)
                for loc, restore in self.trail:
                    writes.append(loc)
                vals = {}
                for loc in writes:
                    vals[self.loc_key(loc)] = (loc, self.loc_get(loc, fr))
                return vals
            finally:
                for loc, restore in reversed(self.trail):
                    restore()
                self.qf.pop()
                del self.pc[npc:]
                del self.facts_q[nq:]
                self.trail = saved_trail
                self.nomerge = saved_nomerge

        try:
            a = run(test, s.body)
            b = run(z3.Not(test), s.orelse)
            if (len(self.events), len(self.calls), len(self.draws), len(self.obls)) != state[2:]:
                raise MergeFail()
            keys = list(dict.fromkeys(list(a) + list(b)))
            new = []
            for k in keys:
                loc = (a.get(k) or b.get(k))[0]
                cur = self.loc_get(loc, fr)
                va = a[k][1] if k in a else cur
                vb = b[k][1] if k in b else cur
                new.append((loc, self.merge_loc(loc, test, va, vb)))
            for loc, v in new:
                self.loc_set(loc, v, fr)
            return True
        except (MergeFail, Unsupported, PyExc, Infeasible):
            self.fresh_n, self.oid = dict(state[0]), state[1]
            del self.events[state[2]:]
            del self.calls[state[3]:]
            del self.draws[state[4]:]
            del self.obls[state[5]:]
            for (e, w, d), old in zip(self.loop_stack, stack_state):
                w.clear()
                w.update(old)
            return False

    MISSING = object()

    def loc_key(self, loc):
        return loc[:3] if loc[0] in ("local", "attr", "dict", "elem") else loc[:2]

    def loc_get(self, loc, fr):
        k = loc[0]
        if k == "local":
            f = fr
            while f.depth > loc[1]:
                f = f.parent
            if f.depth != loc[1]:
                raise MergeFail()
            return f.locals.get(loc[2], self.MISSING)
        if k == "attr":
            return loc[3].attrs.get(loc[2], self.MISSING)
        if k == "dict":
            return loc[3].d.get(loc[2], self.MISSING)
        if k == "list":
            lv = loc[2]
            return ListV(None if lv.items is None else list(lv.items), lv.n, lv.get, elt=lv.elt)
        if k == "arr":
            a = loc[2]
            return Arr(a.shape, a.get, a.kind, a.affine)
        raise MergeFail()

    def merge_loc(self, loc, c, a, b):
        if loc[0] == "dict":
            pa, va = (False, None) if a is self.MISSING else a
            pb, vb = (False, None) if b is self.MISSING else b
            if is_z3(pa) and not self.feasible(z3.And(tz(c), pa)):
                pa = False
            if is_z3(pb) and not self.feasible(z3.And(z3.Not(tz(c)), pb)):
                pb = False
            p = simp(ite(c, pa, pb))
            if pa is False:
                return (p, vb)
            if pb is False:
                return (p, va)
            return (p, ite(c, va, vb))
        if a is self.MISSING or b is self.MISSING:
            if loc[0] == "local":
                return Poison("possibly unbound")
            raise MergeFail()
        return ite(c, a, b)

    def loc_set(self, loc, v, fr):
        k = loc[0]
        if k == "local":
            f = fr
            while f.depth > loc[1]:
                f = f.parent
            self.set_local(f, loc[2], v)
        elif k == "attr":
            self.set_attr_raw(loc[3], loc[2], v)
        elif k == "dict":
            self.set_dict(loc[3], loc[2], v)
        elif k == "list":
            self.set_list(loc[2], v.items, v.n, v.get, v.elt)
        elif k == "arr":
            self.set_arr(loc[2], v.get, v.shape)
        else:
            raise MergeFail()

    def exec_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = s.exc
        name, msg = None, ""
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            f = self.eval(e.func, fr)
            if isinstance(f, (ClassV, FuncV)) and f.name:
                name = f.name.split(".")[-1]
                for a in e.args:
                    v = self.eval(a, fr)
                    msg = str(v) if isinstance(v, (str, FStr)) else msg
        else:
            v = self.eval(e, fr)
            if isinstance(v, (ClassV,)):
                name = v.name
            elif isinstance(v, Obj):
                name = v.cls
            elif isinstance(v, FuncV) and v.name:
                name = v.name.split(".")[-1]
            elif isinstance(v, PyExc):
                raise v
        if name is None:
            raise Unsupported("raise of unknown value")
        raise PyExc(name, f"raised at {fr.fi.name}:{s.lineno}", msg)

    def exec_Try(self, s, fr):
        def fin():
            self.exec_block(s.finalbody, fr)

        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, fr):
                        if h.name:
                            self.set_local(fr, h.name, Opaque("exception"))
                        prev = getattr(fr, "handling", None)
                        fr.handling = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            fin()
            raise
        fin()

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            n = t.attr if isinstance(t, ast.Attribute) else t.id
            if exc_matches(e.kind, n):
                return True
        return False

    def exec_With(self, s, fr):
        mgrs = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            enter = self.with_enter(v)
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, enter, fr)
        self.exec_block(s.body, fr)
        for v in mgrs:
            self.events.append(("exit", v))

    def with_enter(self, v):
        if isinstance(v, (Opaque, models_par.PoolV)):
            return v
        raise Unsupported("with statement on an unmodelled context manager")

    # ---------------------------------------------------------------- loops
    def exec_For(self, s, fr):
        it = self.iterate(self.force(self.eval(s.iter, fr)))
        n = simp(it.n)
        if is_z3(n) and has_ite(n) and self.is_valid_qf(z3.And(n >= 0, n <= 6)):
            # the number of iterations is one of few declared values: one case each
            for k in range(7):
                if self.decide(n == k, f"loop at {fr.fi.name}:{s.lineno} runs {k} times"):
                    n = k
                    break
        if is_z3(n):
            n = self.known_int(n)
        if isinstance(n, int):
            if n > self.MAX_UNROLL:
                raise Unsupported("loop too long to unroll")
            broke = False
            for i in range(n):
                self.assign(s.target, it.get(i), fr)
                try:
                    self.exec_block(s.body, fr)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.exec_block(s.orelse, fr)
            return
        if self.map_loop(s, fr, it, n):
            self.exec_block(s.orelse, fr)
            return
        if self.loop_owner(fr) in getattr(self.contract, "peel", ()):
            # the first iteration on its own (the state may have another shape before it)
            if not self.decide(tz(n) > 0, f"loop at {fr.fi.name}:{s.lineno} empty"):
                self.exec_block(s.orelse, fr)
                return
            self.assign(s.target, it.get(0), fr)
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            g = it.get
            it = IterV(simp(tz(n) - 1), lambda i: g(simp(tz(i) + 1)))
            it.base = 1
        self.cut_loop(s, fr, it)

    def counted(self, n, j, cond):
        """the number of j in [0, n) with cond: equal for equivalent conditions"""
        reg = self.elem_cache.setdefault(("counts",), [])
        k = z3.Int("count!k")
        cond = z3.simplify(z3.substitute(cond, (j, k)))
        for n0, c0, v0 in reg:
            if same_dim(n0, n) and c0.eq(cond):
                return v0
        v = self.freshint("count", 0)
        self.assume(v <= tz(n))
        for n0, c0, v0 in reg:
            if same_dim(n0, n):
                self.assume(z3.Implies(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tz(n)), c0 == cond)), v == v0))
        reg.append((n, cond, v))
        return v

    def known_int(self, n):
        """the value of a term which the branches taken determine by an equation"""
        for f in self.pc:
            if z3.is_eq(f):
                a, b = f.children()
                if z3.is_int_value(b) and a.eq(n):
                    return b.as_long()
                if z3.is_int_value(a) and b.eq(n):
                    return a.as_long()
        return n

    def map_loop(self, s, fr, it, n):
        """a loop that only builds a list (or dictionary), one element per iteration from that iteration's value alone:
        the list is [element(i) for i in range(n)], exactly"""
        build = builder_of(s)
        if build is None or getattr(it, "base", 0):
            return False
        name, key, val = build
        try:
            target = self.load_name(name, fr)
        except PyExc:
            return False
        if not (isinstance(target, ListV) and key is None or isinstance(target, DictV) and key is not None and not target.d):
            return False
        if name not in fr.locals:
            return False

        now = self.freeze(fr)

        def element(i):
            saved, sn, sl = self.frame, self.nomerge, self.loop_stack
            with now as base:
                f2 = Frame(fr.fi, fr.module, fr.cls, parent=base, closure=base)
                self.frame, self.nomerge, self.loop_stack = f2, True, []
                try:
                    self.assign(s.target, it.get(i), f2)
                    for st in s.body:
                        if st is not build.stmt:
                            self.exec(st, f2)
                    r = (self.eval(key, f2) if key is not None else None), self.eval(val, f2)
                except MergeFail:
                    raise Unsupported("loop element needs a case split")
                finally:
                    self.frame, self.nomerge, self.loop_stack = saved, sn, sl
            return r[0], now.thaw(r[1])

        npc, nq = len(self.pc), len(self.facts_q)
        state = (dict(self.fresh_n), self.oid, len(self.events), len(self.calls), len(self.draws), len(self.obls))
        outer = self.trail
        self.trail = trail = []
        self.qf.push()
        ok = True
        try:
            k, v = element(self.freshint("map.i", 0))
            if isinstance(v, Obj) or key is not None and not isinstance(k, (str, Tok)):
                ok = False
        except (Unsupported, PyExc, Infeasible, MergeFail):
            ok = False
        finally:
            self.qf.pop()
            for loc, restore in reversed(trail):
                if loc[0] != "local":
                    ok = False
                restore()
            self.trail = outer
            if (len(self.events), len(self.calls), len(self.draws), len(self.obls)) != state[2:]:
                ok = False
            del self.pc[npc:], self.facts_q[nq:], self.events[state[2]:], self.calls[state[3]:], self.draws[state[4]:], self.obls[state[5]:]
            self.fresh_n, self.oid = dict(state[0]), state[1]
        if not ok:
            return False
        if key is not None:
            from .models_df import MapDictV

            self.set_local(fr, name, MapDictV(n, lambda i: TupleV(element(i))))
        else:
            g0, n0 = target.at, target.length()
            if target.concrete and not target.items:
                self.set_list(target, None, n, lambda i: element(i)[1])
            else:
                self.set_list(target, None, simp(tz(n0) + tz(n)), lambda i: ite(simp(tz(i) < tz(n0)), g0(i), element(simp(tz(i) - tz(n0)))[1]))
        for st in s.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st is not build.stmt:
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                self.set_local(fr, t.id, Poison("variable of a loop"))
        for x in ast.walk(s.target):
            if isinstance(x, ast.Name):
                self.set_local(fr, x.id, Poison("variable of a loop"))
        return True

    def exec_While(self, s, fr):
        # a loop whose test is concrete all along is unrolled; otherwise it is cut
        self.cut_loop(s, fr, None)

    def cut_loop(self, s, fr, it):
        key = (fr.fi.qual, s.lineno - fr.fi.node.lineno, s.col_offset, fr.depth, tuple(self.taken))
        key = (key[:4], key[4])
        li = self.loops.get(key)
        if li is None:
            li = self.loops[key] = LoopInfo()
            if key in self.loop_seeds:
                seed, oid = self.loop_seeds[key]
                li.dead = set(seed.dead)
                li.mod = {lk: (loc, list(kinds)) for lk, (loc, kinds) in seed.mod.items() if self.seedable(lk, oid)}
        entry_prefix = tuple(self.taken)
        was_live = self.live
        entry = self.loop_state(fr, li)
        n = it.n if it is not None else None
        # ---- initiation
        L0 = self.loop_ctx(s, fr, li, entry, 0, it)
        cands = self.candidates(s, fr, li, L0, entry)
        if was_live:
            li.entry_names = {nm for nm, _ in cands}
            for nm, f in cands:
                if nm in li.dead:
                    continue
                if not self.prove_inv(f, "entry: " + nm):
                    li.dead.add(nm)
                    self.dropped[(key[0], nm)] = "does not hold on entry"
        # ---- arbitrary iteration
        entry_oid = self.oid
        names_before = set(self.all_names)
        base = f"L{s.lineno - fr.fi.node.lineno}"
        self.havoc_loop(li, fr, base)
        k = self.freshint(base + ".k", 0)  # iterations so far
        if it is not None:
            self.assume(k <= tz(n))
        L = self.loop_ctx(s, fr, li, entry, k, it)
        assumed = set()
        for nm, f in self.candidates(s, fr, li, L, entry):
            if nm not in li.dead and nm in li.entry_names:
                self.assume(f)
                assumed.add(nm)
        n_pc = len(self.pc)
        writes = {}
        self.loop_stack.append((entry_oid, writes, fr.depth))
        self.lis.append(li)
        pre_fresh = dict(self.fresh_n)
        popped = False
        try:
            if it is not None:
                go = self.decide(k < tz(n), f"loop at {fr.fi.name}:{s.lineno}", defer=True)
            else:
                go = self.decide(self.truth_term(self.eval(s.test, fr)), f"while at {fr.fi.name}:{s.lineno}", defer=True)
            if go:
                try:
                    self.outer_loops.append(L)
                    if it is not None:
                        self.assign(s.target, it.get(k), fr)
                    self.exec_block(s.body, fr)
                    self.outer_loops.pop()
                except ContinueEx:
                    self.outer_loops.pop()
                except BreakEx:
                    self.outer_loops.pop()
                    self.loop_stack.pop()
                    self.lis.pop()
                    popped = True
                    return
                # ---- end of an arbitrary iteration that continues
                self.loop_stack.pop()
                self.lis.pop()
                popped = True
                new = {}
                for loc, v in writes.items():
                    lk = self.mod_key(loc)
                    if lk is None:
                        continue
                    if lk not in li.mod:
                        new[lk] = (loc, v)
                    elif self.widen(li, lk, loc, v):
                        new[lk] = (loc, v)
                for lk, (loc, v) in new.items():
                    li.mod.setdefault(lk, (loc, []))[1].append(self.kind_of(v))
                if new:
                    li.stable = False
                    raise Restart(entry_prefix, f"loop frame grows by {list(new)}", entry_oid)
                if self.live:
                    li.stable = True
                    if it is not None:
                        new_names = self.all_names - names_before - {str(k)}
                        conds = [
                            f for f in self.pc[n_pc:] if not has_quant(f) and not (const_names(f) & new_names)
                        ]
                        li.cont.append((tuple(self.taken), k, conds))
                    L2 = self.loop_ctx(s, fr, li, entry, k + 1, it)
                    drop = []
                    at_end = self.candidates(s, fr, li, L2, entry)
                    for nm in sorted(assumed - {nm for nm, _ in at_end}):
                        drop.append(nm)
                        self.dropped[(key[0], nm)] = "not stated at the end of an iteration"
                    for nm, f in at_end:
                        if nm not in assumed:
                            continue
                        if not self.prove_inv(f, "step: " + nm):
                            drop.append(nm)
                            self.dropped[(key[0], nm)] = "not preserved"
                    if drop:
                        li.dead.update(drop)
                        li.stable = False
                        raise Restart(entry_prefix, f"invariant(s) {drop} not inductive", entry_oid)
                    o = Obligation(
                        f"{self.contract.short}: loop at line +{s.lineno - fr.fi.node.lineno}: "
                        f"{len([1 for nm, _ in cands if nm not in li.dead])} invariants preserved",
                        "invariant",
                    )
                    o.status, o.solver, o.prefix = "proved", "z3", tuple(self.taken)
                    self.obls.append(o)
                raise PathEnd()
            # ---- loop exit
            if it is not None:
                self.assume(k == tz(n))
                self.assume_all_continued(li, n)
        finally:
            if not popped:
                self.loop_stack.pop()
                self.lis.pop()
        self.exec_block(s.orelse, fr)

    def assume_all_continued(self, li, n):
        """a loop that ran to its end: every iteration took one of the continuing paths through the body (all of
        them are known here, exits being explored last); their conditions on unchanged values held each time"""
        if not li.cont:
            return
        try:
            j = z3.Int("search!j")
            disj = []
            for _, kk, conds in li.cont:
                c = z3.And(*conds) if conds else z3.BoolVal(True)
                disj.append(z3.substitute(c, (kk, j)))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tz(n)), z3.Or(*disj))))
        except z3.Z3Exception:
            pass

    def seedable(self, lk, oid):
        return lk[0] in ("local", "ghost", "elem") or not isinstance(lk[1], int) or lk[1] <= oid

    def prove_inv(self, f, nm=""):
        if f is True:
            return True
        if f is False:
            return False
        t = time.time()
        if nm.endswith(("==entry+k", "==entry-k", ">=entry", "<=entry+k", ">=0")):
            # guesses of the machinery itself: simple ones or none
            st = "proved" if any(x.eq(f) for x in self.pc) or self.qf.check(z3.Not(f)) == z3.unsat else "failed"
        else:
            st, _, _, _ = self.prove(f, quick=True)
        self.note(f"inv {st} {time.time() - t:.2f}s {nm}")
        return st == "proved"

    def mod_key(self, loc):
        if loc[0] == "local":
            return loc[:3]
        if loc[0] in ("attr", "dict", "elem"):
            return loc[:3]
        return loc[:2]

    def kind_of_elem(self, v):
        """kind of the elements of a list: what a fresh value of the kind may be is the same for every element"""
        if isinstance(v, Obj) and v.ident is not None:
            return ("ref1", v.cls)
        if isinstance(v, TupleV):
            return ("tuple", tuple(self.kind_of_elem(x) for x in v))
        if isinstance(v, Arr) and v.affine is not None and v.affine[1] == 1:
            return ("affine",)
        return self.kind_of(v)

    def kind_of(self, v):
        if v is None:
            return ("none",)
        if isinstance(v, models_par.NumDict):
            return ("numdict", v.width)
        if isinstance(v, Maybe):
            return ("maybe", self.kind_of(v.val))
        if isinstance(v, EnumV):
            return ("enum", v.values)
        if is_bool(v):
            return ("bool",)
        if is_int(v):
            return ("int",)
        if is_real(v):
            return ("real",)
        if isinstance(v, Arr):
            return ("arr", v.kind, v.shape)
        if isinstance(v, ListV):
            if v.elt is not None:
                return ("list", self.kind_of_sort(v.elt))
            if v.concrete:
                ks = []
                for x in v.items:
                    kx = self.kind_of_elem(x) if not (isinstance(x, Obj) and x.ident is not None) else ("ref", x.cls)
                    if kx not in ks:
                        ks.append(kx)
                return ("list", ks[0] if len(ks) == 1 else (None if not ks else ("mixed",)))
            x = v.get(0)
            return ("list", self.kind_of_elem(x) if not (isinstance(x, Obj) and x.ident is not None) else ("ref", x.cls))
        if isinstance(v, SliceV):
            return ("slice",)
        if isinstance(v, TupleV):
            return ("tuple", tuple(self.kind_of(x) for x in v))
        if isinstance(v, (str, Tok, FStr)):
            return ("str",)
        if isinstance(v, DateV):
            return ("date", v.is_date)
        if type(v).__name__ == "DateIdx":
            return ("dateidx", simp(v.step))
        if isinstance(v, Obj):
            return ("obj", v.oid, v)
        if isinstance(v, Opaque):
            return ("opaque",)
        return ("other",)

    def kind_of_sort(self, s):
        if isinstance(s, so.IntS):
            return ("int",)
        if isinstance(s, so.RealS):
            return ("real",)
        if isinstance(s, so.SliceS):
            return ("slice",)
        if isinstance(s, so.StrS):
            return ("str",)
        if isinstance(s, so.TupleS):
            return ("tuple", tuple(self.kind_of_sort(x) for x in s.elts))
        if isinstance(s, so.ArrS):
            return ("arr", s.kind, s.shape)
        if isinstance(s, so.AnyS):
            return ("opaque",)
        if isinstance(s, so.ObjListS):
            return ("ref", s.cls)
        if isinstance(s, so.ElemS):
            return ("ref1", s.cls)
        if isinstance(s, so.AffineS):
            return ("affine",)
        return ("other",)

    def join_kind(self, a, b):
        if a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if {a[0], b[0]} == {"int", "real"}:
            return ("real",)
        if {a[0], b[0]} == {"int", "bool"}:
            return ("int",)
        if a[0] == "none":
            return b if b[0] in ("maybe", "none") else ("maybe", b)
        if b[0] == "none":
            return a if a[0] in ("maybe", "none") else ("maybe", a)
        if a[0] == "maybe" or b[0] == "maybe":
            x = a[1] if a[0] == "maybe" else a
            y = b[1] if b[0] == "maybe" else b
            return ("maybe", self.join_kind(x, y))
        if a[0] == "list" and b[0] == "list":
            return ("list", self.join_kind(a[1], b[1]))
        if a[0] == "arr" and b[0] == "arr" and len(a[2]) == len(b[2]):
            shape = tuple(x if (x is y or (not is_z3(x) and not is_z3(y) and x == y) or (is_z3(x) and is_z3(y) and x.eq(y))) else None for x, y in zip(a[2], b[2]))
            return ("arr", a[1] if a[1] == b[1] else "f", shape)
        if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
            return ("tuple", tuple(self.join_kind(x, y) for x, y in zip(a[1], b[1])))
        return ("other",)

    def sort_of_kind(self, k):
        if k is None:
            return so.IntS()
        if k[0] == "int":
            return so.IntS()
        if k[0] == "real":
            return so.RealS()
        if k[0] == "bool":
            return so.BoolS()
        if k[0] == "slice":
            return so.SliceS()
        if k[0] == "str":
            return so.StrS()
        if k[0] == "tuple":
            return so.TupleS(*[self.sort_of_kind(x) for x in k[1]])
        if k[0] == "arr":
            return so.ArrS(tuple(x if isinstance(x, int) else None for x in k[2]), k[1])
        if k[0] == "opaque":
            return so.AnyS()
        if k[0] == "ref":
            return so.ObjListS(k[1])
        if k[0] == "ref1":
            return so.ElemS(k[1])
        if k[0] == "affine":
            return so.AffineS()
        raise Unsupported(f"element kind {k[0]}")

    def fresh_of_kind(self, k, base):
        if k[0] == "none":
            return None
        if k[0] == "maybe":
            return Maybe(self.freshbool(base + ".isnone"), self.fresh_of_kind(k[1], base))
        if k[0] == "enum":
            return EnumV(self.freshint(base, 0, len(k[1]) - 1), k[1])
        if k[0] == "arr":
            shape = tuple(self.freshint(f"{base}.n{i}", 0) if x is None else x for i, x in enumerate(k[2]))
            return self.fresh_arr(base, shape, k[1])
        if k[0] == "list":
            if k[1] is not None and k[1][0] in ("other", "mixed", "obj", "maybe", "none"):
                return Poison(f"list {base}")
            try:
                s = self.sort_of_kind(k[1])
                n = self.freshint(base + ".len", 0)
                if isinstance(s, so.ObjListS):
                    return self.obj_list(s.cls, n, self.fresh_fn(base + ".ref", 1, "i"))
                return ListV(None, n, self.fresh_getter(s, base), oid=self.new_oid(), elt=s)
            except Unsupported:
                return Poison(f"list {base}")
        if k[0] == "tuple":
            return TupleV(self.fresh_of_kind(x, f"{base}.{i}") for i, x in enumerate(k[1]))
        if k[0] == "obj":
            return k[2]
        if k[0] == "date":
            return DateV(self.freshint(base + ".min"), k[1])
        if k[0] == "dateidx":
            return self.date_index(self.freshint(base + ".start"), self.freshint(base + ".n", 0), k[1])
        if k[0] == "opaque":
            return Opaque(base)
        if k[0] == "other":
            return Poison(base)
        return self.fresh(self.sort_of_kind(k), base)

    def widen(self, li, lk, loc, v):
        kinds = li.mod[lk][1]
        kv = self.kind_of(v)
        j = None
        for k in kinds:
            j = k if j is None else self.join_kind(j, k)
        j2 = kv if j is None else self.join_kind(j, kv)
        return not kinds_equal(j, j2)

    def loop_state(self, fr, li):
        """entry values of everything the loop may modify"""
        memo = {}
        loc = {k: self.snap(v, memo) for k, v in fr.locals.items()}
        gh = {k: self.snap(v, memo) for k, v in self.ghost.items()}
        args = {k: self.snap(v, memo) for k, v in self.ctx.__dict__.items() if k in self.contract.params}
        return NS(locals=loc, ghost=NS(**gh), args=NS(**args), memo=memo)

    def havoc_loop(self, li, fr, base):
        for lk in sorted(li.mod, key=str):
            loc, kinds = li.mod[lk]
            k = lk[0]
            if k == "local":
                f = fr
                while f is not None and f.depth > lk[1]:
                    f = f.parent
                cur = f.locals.get(lk[2], self.MISSING)
                if cur is self.MISSING:
                    self.set_local(f, lk[2], Poison(f"{lk[2]} unbound before the loop"))
                    continue
                kind = self.kind_of(cur)
                for kk in kinds:
                    kind = self.join_kind(kind, kk)
                self.set_local(f, lk[2], self.fresh_of_kind(kind, f"{base}.{lk[2]}"))
            elif k == "attr":
                o = self.find_obj(lk[1], loc)
                kind = None
                if lk[2] in o.attrs:
                    kind = self.kind_of(o.attrs[lk[2]])
                for kk in kinds:
                    kind = self.join_kind(kind, kk) if kind is not None else kk
                from .registry import SCHEMA

                s = SCHEMA.get(o.cls, {}).get(lk[2])
                if s is not None and kind[0] in ("other", "list"):
                    v = self.fresh(s, f"{base}.{lk[2]}")
                else:
                    v = self.fresh_of_kind(kind, f"{base}.{lk[2]}")
                self.set_attr_raw(o, lk[2], v)
            elif k == "ghost":
                kind = self.kind_of(self.ghost[lk[1]])
                self.set_ghost(lk[1], self.fresh_of_kind(kind, f"{base}.ghost.{lk[1]}"))
            elif k == "arr":
                a = self.find_obj(lk[1], loc)
                self.set_arr(a, self.fresh_fn(f"{base}.arr", len(a.shape), a.kind))
            elif k == "list":
                lv = self.find_obj(lk[1], loc)
                kind = self.kind_of(lv)
                for kk in kinds:
                    kind = self.join_kind(kind, kk)
                v = self.fresh_of_kind(kind, f"{base}.list")
                if isinstance(v, Poison):
                    raise Unsupported(f"list modified in loop: {v.why} {kind}")
                self.set_list(lv, None, v.n, v.get, v.elt)
            elif k == "elem":
                self.bump_elems(lk[1], lk[2])
            elif k == "numdict":
                d = self.find_obj(lk[1], loc)
                models_par.set_num(self, d, models_par.fresh_num(self, f"{base}.dict", kinds[0][1]))
            elif k == "dict":
                d = self.find_obj(lk[1], loc)
                self.set_dict(d, lk[2], (True, Poison("dict entry modified in loop")))
            else:
                raise Unsupported(f"havoc of {k}")

    def find_obj(self, oid, loc):
        """the current run's heap object with this id"""
        seen = set()
        todo = []
        f = self.frame
        while f is not None:
            todo.extend(f.locals.values())
            f = f.parent
        todo.extend(self.ghost.values())
        todo.extend(self.ctx.__dict__.get(k) for k in self.contract.params)
        todo.extend(self.elem_cache.values())
        while todo:
            v = todo.pop()
            if isinstance(v, (Heap, TupleV)):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                if isinstance(v, Heap) and v.oid == oid:
                    return v
                if isinstance(v, Obj):
                    todo.extend(v.attrs.values())
                elif isinstance(v, ListV) and v.concrete:
                    todo.extend(v.items)
                elif isinstance(v, DictV):
                    todo.extend(x for _, x in v.d.values())
                elif isinstance(v, TupleV):
                    todo.extend(v)
            elif isinstance(v, Maybe):
                todo.append(v.val)
            elif isinstance(v, FuncV):
                todo.extend(x for x in v.__dict__.values() if isinstance(x, Heap))
        raise Unsupported(f"loop modifies an object that cannot be located ({oid})")

    def loop_owner(self, fr):
        """the function a loop is looked at as part of: a helper without a contract belongs to the function under contract"""
        f = fr
        while f is not None and f.fi.qual not in self.contracts:
            f = f.parent
        return (f or fr).fi.name

    def loop_ctx(self, s, fr, li, entry, k, it):
        L = NS()
        base = getattr(it, "base", 0)
        L.k = k if k is None or not base else simp(tz(k) + base)
        L.n = (simp(tz(it.n) + base) if base else it.n) if it is not None else None
        L.item = it.get if it is not None and not getattr(it, "effect", False) else None
        L.outer = list(self.outer_loops)
        L.locals = fr.locals
        L.entry = entry
        L.ghost = NS(**self.ghost)
        L.ctx = self.ctx
        L.old = self.ctx.old
        L.func = self.loop_owner(fr)
        L.nested = any(isinstance(x, (ast.For, ast.While)) for b in s.body for x in ast.walk(b))
        for p in self.contract.params:
            setattr(L, p, self.ctx.__dict__[p])
        L.mod_locals = {
            lk[2]: (fr.locals.get(lk[2]), entry.locals.get(lk[2]))
            for lk in li.mod
            if lk[0] == "local" and lk[1] == fr.depth and lk[2] in entry.locals
        }
        L.arrays = []  # every array modified by the loop: (name, current, entry value)
        L.ints = []
        L.bools = []
        L.lists = []
        for nm, (cur, ent) in L.mod_locals.items():
            self._classify(L, nm, cur, ent)
        for nm, v in fr.locals.items():
            if nm not in L.mod_locals and isinstance(v, (Arr, ListV)) and isinstance(entry.locals.get(nm), (Arr, ListV)):
                self._classify(L, nm, v, entry.locals[nm])
        for lk in li.mod:
            if lk[0] == "attr":
                try:
                    o = self.find_obj(lk[1], None)
                except Unsupported:
                    continue
                if o.ident is None and lk[2] in o.attrs:
                    eo = self._entry_obj(entry, o)
                    if eo is not None and lk[2] in eo.attrs:
                        self._classify(L, f"{o.cls}.{lk[2]}", o.attrs[lk[2]], eo.attrs[lk[2]])
        return L

    def _entry_obj(self, entry, o):
        for v in list(entry.locals.values()) + list(entry.args.__dict__.values()):
            if isinstance(v, Obj) and v.oid == o.oid:
                return v
        for n in entry.memo.values():
            if isinstance(n, Obj) and n.oid == o.oid:
                return n
        return None

    def _classify(self, L, nm, cur, ent):
        if isinstance(cur, Arr) and isinstance(ent, Arr):
            L.arrays.append((nm, cur, ent))
        elif is_num(cur) and is_num(ent) and not is_bool(cur):
            L.ints.append((nm, cur, ent))
        elif is_bool(cur) and is_bool(ent):
            L.bools.append((nm, cur, ent))
        elif isinstance(cur, ListV) and isinstance(ent, ListV):
            L.lists.append((nm, cur, ent))

    def candidates(self, s, fr, li, L, entry):
        out = []
        S = self.S
        seen = {}
        for nm, f in self.contract.invariants(S, L):
            seen[nm] = seen.get(nm, 0) + 1
            out.append((nm if seen[nm] == 1 else f"{nm} #{seen[nm]}", f))
        k = L.k
        from .registry import SCHEMA

        for lk in sorted(li.mod, key=str):
            if lk[0] != "attr":
                continue
            try:
                o = self.find_obj(lk[1], None)
            except Unsupported:
                continue
            sort = SCHEMA.get(o.cls, {}).get(lk[2])
            if o.ident is None and isinstance(sort, so.IntS) and is_int(o.attrs.get(lk[2])):
                ok = self.sort_ok(sort, o.attrs[lk[2]])
                if ok is not True:
                    out.append((f"{o.cls}.{lk[2]} stays in its documented range", ok))
        for nm, cur, ent in L.ints:
            if "." not in nm and is_int(cur) and is_int(ent):
                out.append((f"{nm}>=entry", tz(cur) >= tz(ent)))
                if k is not None:
                    out.append((f"{nm}==entry+k", tz(cur) == tz(ent) + tz(k)))
                    out.append((f"{nm}<=entry+k", tz(cur) <= tz(ent) + tz(k)))
                if L.item is None and L.n is None:  # a counter of a while loop
                    out.append((f"{nm}==entry-k", tz(cur) == tz(ent) - tz(k)))
                    out.append((f"{nm}>=0", tz(cur) >= 0))
        return out

    def iterate(self, v):
        if isinstance(v, IterV):
            return v
        if isinstance(v, ListV):
            if v.concrete:
                items = list(v.items)
                return IterV(len(items), lambda i: items[i])
            g = v.get
            return IterV(v.n, g)
        if isinstance(v, tuple):
            return IterV(len(v), lambda i: v[i])
        if isinstance(v, Arr):
            return IterV(v.shape[0], lambda i: v[i])
        if isinstance(v, DictV):
            if v.num is not None:
                raise Unsupported("iteration over a dictionary with unknown keys")
            ks = list(v.d)
            if any(p is not True for p, _ in v.d.values()):
                ks2 = []
                for k in ks:
                    if self.decide(v.d[k][0]):
                        ks2.append(k)
                ks = ks2
            return IterV(len(ks), lambda i: ks[i])
        if isinstance(v, str):
            return IterV(len(v), lambda i: v[i])
        if isinstance(v, Opaque) and "iter" in v.info:
            return v.info["iter"]
        h = self.valmeth.get(("iter", type(v).__name__))
        if h:
            return h(self, v)
        if v is None or is_num(v):
            raise PyExc("TypeError", "not iterable")
        if isinstance(v, Obj):
            ci = self.program.find_class(v.cls)
            if ci and not ci.bases and not {"__iter__", "__getitem__"} & set(ci.methods):
                raise PyExc("TypeError", "not iterable")
        raise Unsupported(f"iteration over {v!r}")

    # ------------------------------------------------------------ assignment targets
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_local(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            it = self.iterate(v)
            n = simp(it.n)
            if not isinstance(n, int):
                if self.decide(tz(n) == len(t.elts)):
                    n = len(t.elts)
                else:
                    raise PyExc("ValueError", "unpack")
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            if n != len(t.elts):
                raise PyExc("ValueError", "unpack")
            for i, e in enumerate(t.elts):
                self.assign(e, it.get(i), fr)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, fr))
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, fr))
            i = self.eval_index(t.slice, fr)
            self.setitem(o, i, self.force(v))
        else:
            raise Unsupported("assignment target")

    def mangle(self, name, fr):
        cls = fr.cls
        f = fr
        while cls is None and f.closure is not None:
            f = f.closure
            cls = f.cls
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return f"_{cls.name}{name}"
        return name

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            ci = self.program.find_class(o.cls)
            if ci and name in ci.setters:
                self.call_function(ci.setters[name], [v], {}, self_obj=o)
                return
            if ci and name in ci.props:
                raise PyExc("AttributeError", f"can't set {name}")
            self.set_attr_raw(o, name, v)
            return
        h = self.valmeth.get(("setattr", type(o).__name__))
        if h:
            return h(self, o, name, v)
        raise Unsupported(f"setting attribute {name} of {o!r}")

    def setitem(self, o, i, v):
        if isinstance(o, ListV):
            if isinstance(i, SliceV):
                raise Unsupported("slice assignment on a list")
            if isinstance(i, EnumV):
                raise Unsupported("index")
            n = o.length()
            i = self.norm_index(i, n)
            if o.concrete and isinstance(i, int):
                items = list(o.items)
                items[i] = v
                self.set_list(o, items)
            elif o.concrete:
                self.set_list(o, [ite(i == j, v, x) for j, x in enumerate(o.items)])
            else:
                g = o.get
                self.set_list(o, None, o.n, lambda j: ite(tz(j) == tz(i), v, g(j)))
            return
        if isinstance(o, DictV):
            if models_par.is_key(o, i):
                return models_par.num_set(self, o, i, v)
            if not isinstance(i, (str, int)) or o.num is not None:
                raise Unsupported(f"dict key {i!r}")
            self.set_dict(o, i, (True, v))
            return
        if isinstance(o, Arr):
            return self.arr_setitem(o, i, v)
        h = self.valmeth.get(("setitem", type(o).__name__))
        if h:
            return h(self, o, i, v)
        raise Unsupported(f"item assignment on {o!r}")

    def norm_index(self, i, n, exc="IndexError", what="index out of range"):
        i = num(simp(i))
        n = simp(n)
        if not is_int(i):
            raise PyExc("TypeError", "index is not an integer")
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n:
                return i if i >= 0 else i + n
            raise PyExc(exc, what)
        if isinstance(i, int) and i < 0:
            j = simp(tz(n) + i)
            if not self.decide(tz(j) >= 0):
                raise PyExc(exc, what)
            return j
        if not self.is_valid_qf(tz(i) >= 0):
            if not self.decide(tz(i) >= 0):
                j = simp(tz(n) + tz(i))
                if not self.decide(tz(j) >= 0):
                    raise PyExc(exc, what)
                return j
        if not self.decide(tz(i) < tz(n)):
            raise PyExc(exc, what)
        return i

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "eval_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.fi.name}:{getattr(e, 'lineno', '?')}")
        return m(e, fr)

    def eval_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return frac(v)
        return v

    def eval_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"use of {name}: {v.why}")
                return getattr(v, "alias", None) or v if isinstance(v, ListV) else v
            f = f.closure
        return self.load_global(name, fr.module)

    def load_global(self, name, mod):
        if name in mod.functions:
            fi = mod.functions[name]
            return FuncV("repo", fi=fi, name=name, self_obj=None, closure=None)
        if name in mod.classes:
            return ClassV(name, mod.classes[name])
        if name in mod.assigns:
            key = ("global", mod.name, name)
            if key not in self.elem_cache:
                fi = FuncInfo(mod, None, ast.parse("def _module(): pass").body[0])
                v = self.elem_cache[key] = self.eval(mod.assigns[name], Frame(fi, mod, None))
                if type(v).__name__ == "ParserV":
                    from . import models_cli

                    models_cli.declare(self, v, name, mod)
            return self.elem_cache[key]
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "module":
                return ModV(imp[1])
            return self.import_from(imp[1], imp[2])
        if name in self.builtins:
            return FuncV("builtin", name=name, self_obj=None)
        if name in ("__file__", "__name__"):
            return mod.path if name == "__file__" else mod.name
        if name in EXC_PARENTS:
            return ClassV(name)
        if name in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "object", "type", "slice", "bytes", "complex"):
            return ClassV(name)
        if name.endswith("Warning") or name in ("StopIteration", "KeyboardInterrupt"):
            return ClassV(name)
        raise Unsupported(f"unknown name {name}")

    def import_from(self, mod, name):
        full = f"{mod}.{name}" if mod else name
        if full in self.program.modules:
            return ModV(full)
        if mod in self.program.modules:
            return self.load_global(name, self.program.modules[mod])
        if mod and (mod == "ramp" or mod.startswith("ramp.")):
            raise Unsupported(f"cannot resolve {full}")
        return self.ext_member(mod, name)

    def ext_member(self, mod, name):
        full = f"{mod}.{name}"
        for v in (self.ext_consts.get(full, self.MISSING),):
            if v is not self.MISSING:
                return v() if callable(v) else v
        if full in EXT_MODULES:
            return ModV(full)
        if full in EXT_CLASSES:
            return ClassV(full)
        return FuncV("ext", name=full, self_obj=None)

    def eval_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.eval(v.value, fr))
                if v.format_spec is not None or v.conversion not in (-1,):
                    x = Opaque("formatted")
                parts.append(x)
        return self.text(parts)

    def text(self, parts):
        """the texts (or values written out) one after the other"""
        out = []
        for x in parts:
            for p in x.parts if isinstance(x, FStr) else [str(x) if isinstance(x, (bool, int)) else x]:
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], (str, Tok)):
            return out[0]
        return FStr(out)

    def eval_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.force(self.eval(x.value, fr)))
                if not isinstance(simp(it.n), int):
                    raise Unsupported("starred symbolic tuple")
                out.extend(it.get(i) for i in range(simp(it.n)))
            else:
                out.append(self.eval(x, fr))
        return TupleV(out)

    def eval_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            if len(e.elts) == 1:
                v = self.force(self.eval(e.elts[0].value, fr))
                return self.to_list(v)
            lv = ListV([], oid=self.new_oid())
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(lv, self.force(self.eval(x.value, fr)))
                else:
                    self.list_append(lv, self.eval(x, fr))
            return lv
        return ListV([self.eval(x, fr) for x in e.elts], oid=self.new_oid())

    def eval_Dict(self, e, fr):
        d = DictV({}, oid=self.new_oid())
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.force(self.eval(v, fr))
                if not isinstance(x, DictV):
                    raise Unsupported("dict unpack")
                d.d.update(x.d)
                continue
            kk = self.eval(k, fr)
            if not isinstance(kk, (str, int)):
                raise Unsupported(f"dict key {kk!r}")
            d.d[kk] = (True, self.eval(v, fr))
        return d

    def eval_Set(self, e, fr):
        return TupleV(self.eval(x, fr) for x in e.elts)

    def eval_Starred(self, e, fr):
        raise Unsupported("starred")

    def eval_Lambda(self, e, fr):
        return FuncV("lambda", node=e, frame=fr, name="<lambda>", self_obj=None)

    def eval_IfExp(self, e, fr):
        t = simp(self.truth_term(self.eval(e.test, fr)))
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, fr)
        if self.contract.merge_ifs:
            try:
                saved = self.nomerge
                self.nomerge = True
                try:
                    a = self.under(t, lambda: self.eval(e.body, fr))
                    b = self.under(z3.Not(t), lambda: self.eval(e.orelse, fr))
                finally:
                    self.nomerge = saved
                return ite(t, a, b)
            except (MergeFail, Unsupported, PyExc):
                pass
        return self.eval(e.body if self.decide(t) else e.orelse, fr)

    def under(self, cond, f):
        """f() where the condition is known to hold"""
        npc, nq = len(self.pc), len(self.facts_q)
        self.qf.push()
        self.qf.add(cond)
        self.pc.append(cond)
        try:
            return f()
        finally:
            self.qf.pop()
            del self.pc[npc:]
            del self.facts_q[nq:]

    def eval_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            v = self.force(self.eval(x, fr))
            if i == len(e.values) - 1:
                if not acc:
                    return v
                if is_bool(v) and all(is_bool(a) for a in acc):
                    return self.S.And(*acc, v) if is_and else self.S.Or(*acc, v)
                return v
            t = simp(self.truth_term(v))
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            if is_bool(v) and pure_expr(e.values[i + 1:]):
                # evaluate the rest under the assumption that they are reached
                rest_safe = True
                saved = self.nomerge
                try:
                    self.nomerge = True
                    rest = []
                    for y in e.values[i + 1:]:
                        if self.contract.merge_ifs:
                            reached = z3.And(t, *[tz(r) for r in rest]) if is_and else z3.Not(z3.Or(t, *[tz(r) for r in rest]))
                            w = self.under(reached, lambda: self.force(self.eval(y, fr)))
                        else:
                            w = self.eval(y, fr)
                        if not is_bool(w):
                            rest_safe = False
                            break
                        rest.append(w)
                except (MergeFail, PyExc, Unsupported):
                    rest_safe = False
                finally:
                    self.nomerge = saved
                if rest_safe:
                    return self.S.And(*acc, v, *rest) if is_and else self.S.Or(*acc, v, *rest)
            b = self.decide(t, "boolean operator")
            if b != is_and:
                return v if not is_bool(v) else b
        return v

    def eval_UnaryOp(self, e, fr):
        v = self.force(self.eval(e.operand, fr))
        op = type(e.op).__name__
        if op == "Not":
            t = simp(self.truth_term(v))
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(v, Arr):
            g = v.get
            if op == "USub":
                return Arr(v.shape, lambda *i: self.neg(g(*i)), v.kind, oid=self.new_oid())
            if op == "Invert" and v.kind == "b":
                return Arr(v.shape, lambda *i: self.S.Not(g(*i)), "b", oid=self.new_oid())
        if op == "USub":
            return self.neg(v)
        if op == "UAdd":
            return num(v)
        h = self.valmeth.get((op, type(v).__name__))
        if h:
            return h(self, v)
        raise Unsupported(f"unary {op} on {v!r}")

    def neg(self, v):
        return -num(v)

    def eval_BinOp(self, e, fr):
        a = self.force(self.eval(e.left, fr))
        b = self.force(self.eval(e.right, fr))
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, EnumV):
            a = self.enum_num(a)
        if isinstance(b, EnumV):
            b = self.enum_num(b)
        if (isinstance(a, Arr) or isinstance(b, Arr)) and not (type(a).__name__ == "SeriesV" or type(b).__name__ == "SeriesV"):
            return self.arr_binop(op, a, b)
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        h = self.valmeth.get(("binop", type(a).__name__)) or self.valmeth.get(("binop", type(b).__name__))
        if h:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        if op == "Add" and isinstance(a, (str, FStr, Tok)) and isinstance(b, (str, FStr, Tok)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            pa = a.parts if isinstance(a, FStr) else [a]
            pb = b.parts if isinstance(b, FStr) else [b]
            return FStr(list(pa) + list(pb))
        if op == "Add" and isinstance(a, ListV) and isinstance(b, ListV):
            lv = ListV(a.items, a.n, a.get, oid=self.new_oid(), elt=a.elt)
            lv.owner = a.owner
            if a.concrete:
                lv.items = list(a.items)
            saved = self.loop_stack
            self.loop_stack = []
            try:
                self.list_extend(lv, b)
            finally:
                self.loop_stack = saved
            return lv
        if op == "Add" and isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV(tuple(a) + tuple(b))
        if op == "Mult" and isinstance(a, ListV) and is_int(b):
            return self.list_repeat(a, b)
        if op == "Mult" and isinstance(b, ListV) and is_int(a):
            return self.list_repeat(b, a)
        if op == "Mod" and isinstance(a, str):
            import re

            bits = re.split(r"(%[ds])", a)
            vals = list(b) if isinstance(b, TupleV) else [b]
            if "%" in "".join(x for x in bits if not re.fullmatch(r"%[ds]", x)) or len(vals) != sum(bool(re.fullmatch(r"%[ds]", x)) for x in bits):
                raise Unsupported("format with %")
            parts = []
            for x in bits:
                if re.fullmatch(r"%[ds]", x):
                    v = vals.pop(0)
                    if x == "%d" and not is_int(v):
                        raise Unsupported("%d of another kind")
                    parts.append(v)
                elif x:
                    parts.append(x)
            return FStr(parts)
        raise Unsupported(f"{op} of {a!r} and {b!r}")

    def enum_num(self, v):
        if all(isinstance(x, (int, Fraction)) for x in v.values):
            if list(v.values) == list(range(len(v.values))):
                return v.term
            t = tz(v.values[-1])
            for i in range(len(v.values) - 2, -1, -1):
                t = z3.If(v.term == i, tz(v.values[i]), t)
            return t
        return v

    def list_repeat(self, a, b):
        b = simp(b)
        if a.concrete and isinstance(b, int):
            return ListV(list(a.items) * b, oid=self.new_oid())
        if a.concrete and len(a.items) == 1:
            v = a.items[0]
            n = z3.If(tz(b) >= 0, tz(b), z3.IntVal(0))
            return ListV(None, n, lambda i: v, oid=self.new_oid())
        if not isinstance(simp(a.length()), int):
            n1 = simp(a.length())
            if self.decide(tz(n1) == 1):
                v = a.at(0)
                n = z3.If(tz(b) >= 0, tz(b), z3.IntVal(0))
                return ListV(None, n, lambda i: v, oid=self.new_oid(), elt=a.elt)
        raise Unsupported("list repetition")

    def num_binop(self, op, a, b):
        a, b = num(a), num(b)
        py = not is_z3(a) and not is_z3(b)
        if op == "Add":
            return a + b if py else self._z(lambda x, y: x + y, a, b)
        if op == "Sub":
            return a - b if py else self._z(lambda x, y: x - y, a, b)
        if op == "Mult":
            return a * b if py else self._z(lambda x, y: x * y, a, b)
        if op == "Div":
            if py:
                if b == 0:
                    raise PyExc("ZeroDivisionError", "division by zero")
                return Fraction(a) / Fraction(b)
            if self.decide(tz(b) == 0, "division by zero"):
                raise PyExc("ZeroDivisionError", "division by zero")
            return tz(to_real(a)) / tz(to_real(b))
        if op in ("FloorDiv", "Mod"):
            if py:
                if b == 0:
                    raise PyExc("ZeroDivisionError", "division by zero")
                r = a // b if op == "FloorDiv" else a % b
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    r = Fraction(r)
                return r
            if self.decide(tz(b) == 0, "division by zero"):
                raise PyExc("ZeroDivisionError", "division by zero")
            if is_int(a) and is_int(b):
                x, y = tz(a), tz(b)
                if isinstance(b, int) and b > 0:
                    return x / y if op == "FloorDiv" else x % y
                if self.decide(y > 0):
                    return x / y if op == "FloorDiv" else x % y
            raise Unsupported("modulo")
        if op == "Pow":
            if py and isinstance(b, int) and b >= 0:
                return a**b
            if isinstance(b, int) and 0 <= b <= 3:
                r = 1
                for _ in range(b):
                    r = self.num_binop("Mult", r, a)
                return r
        if op in ("BitAnd", "BitOr") and is_bool(a) and is_bool(b):
            return self.S.And(a, b) if op == "BitAnd" else self.S.Or(a, b)
        raise Unsupported(f"operator {op}")

    def _z(self, f, a, b):
        x, y = unify(a, b)
        return f(x, y)

    def eval_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        conds = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                conds.append(c)
            left = right
        return self.S.And(*conds) if conds else True

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else self.S.Not(r)
        if op in ("In", "NotIn"):
            r = self.contains(self.force(b), self.force(a))
            return r if op == "In" else self.S.Not(r)
        if op in ("Eq", "NotEq"):
            if type(a).__name__ == "SeriesV" or type(b).__name__ == "SeriesV":
                return self.valmeth[("compare", "SeriesV")](self, op, self.force(a), self.force(b))
            r = self.equal(a, b)
            if isinstance(r, Arr):
                if op == "Eq":
                    return r
                g = r.get
                return Arr(r.shape, lambda *i: self.S.Not(g(*i)), "b", oid=self.new_oid())
            return r if op == "Eq" else self.S.Not(r)
        a, b = self.force(a), self.force(b)
        if isinstance(a, EnumV):
            a = self.enum_num(a)
        if isinstance(b, EnumV):
            b = self.enum_num(b)
        f = {
            "Lt": lambda x, y: x < y,
            "LtE": lambda x, y: x <= y,
            "Gt": lambda x, y: x > y,
            "GtE": lambda x, y: x >= y,
        }[op]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_map2(a, b, lambda x, y: self.cmp_num(f, x, y), "b")
        if is_num(a) and is_num(b):
            return self.cmp_num(f, a, b)
        if isinstance(a, DateV) and isinstance(b, DateV):
            return self.cmp_num(f, a.minutes, b.minutes)
        h = self.valmeth.get(("compare", type(a).__name__)) or self.valmeth.get(("compare", type(b).__name__))
        if h:
            return h(self, op, a, b)
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    def cmp_num(self, f, a, b):
        a, b = num(a), num(b)
        if not is_z3(a) and not is_z3(b):
            return bool(f(a, b))
        x, y = unify(a, b)
        return f(x, y)

    def is_same(self, a, b):
        if isinstance(a, Maybe) and b is None:
            return a.isnone
        if isinstance(b, Maybe) and a is None:
            return b.isnone
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if is_bool(x):
                if getattr(x, "npbool", False):
                    return False
                return x if y else self.S.Not(x)
            if isinstance(x, EnumV):
                return x == y if any(v is y for v in x.values) else False
            return False
        if isinstance(a, Heap) and isinstance(b, Heap):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.ident is not None and b.ident is not None:
                return a.cls == b.cls and self.eq_num(a.ident, b.ident)
            return a is b
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.name == b.name
        if isinstance(a, ModV) or isinstance(b, ModV):
            return isinstance(a, ModV) and isinstance(b, ModV) and a.name == b.name
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if type(a) != type(b) and not (is_num(a) and is_num(b)):
            return False
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def equal(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_map2(a, b, self.eq_num, "b")
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            if not isinstance(a, EnumV):
                a, b = b, a
            if isinstance(b, EnumV) and b.values != a.values:
                a, b = self.enum_num(a), self.enum_num(b)
                return self.eq_num(a, b)
            if is_num(b) and is_z3(b):
                return self.eq_num(self.enum_num(a), b)
            return a == b
        if is_num(a) and is_num(b):
            return self.eq_num(a, b)
        if isinstance(a, (str, Tok)) and isinstance(b, (str, Tok)):
            return self.eq_str(a, b)
        if a is None or b is None:
            return a is b
        if isinstance(a, Obj) and isinstance(b, Obj):
            ci = self.program.find_class(a.cls)
            if ci and "__eq__" in ci.methods:
                return self.call_function(ci.methods["__eq__"], [b], {}, self_obj=a)
            return a is b
        if isinstance(a, ListV) and isinstance(b, ListV) and a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return False
            return self.S.And(*[self.S.b(self.equal(x, y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a) != len(b):
                return False
            return self.S.And(*[self.S.b(self.equal(x, y)) for x, y in zip(a, b)])
        if isinstance(a, DateV) and isinstance(b, DateV):
            return self.eq_num(a.minutes, b.minutes)
        h = self.valmeth.get(("equal", type(a).__name__)) or self.valmeth.get(("equal", type(b).__name__))
        if h:
            return h(self, a, b)
        if isinstance(a, (str, Tok)) != isinstance(b, (str, Tok)) and (is_num(a) or is_num(b)):
            return False
        if isinstance(a, (FStr, str, Tok)) and isinstance(b, (FStr, str, Tok)):
            return self.eq_str(a, b)
        if isinstance(a, FStr) and isinstance(b, str) or isinstance(b, FStr) and isinstance(a, str):
            raise Unsupported("equality of formatted strings")
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.name == b.name
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def contains(self, coll, x):
        if isinstance(coll, DictV):
            if models_par.is_key(coll, x):
                return models_par.num_has(coll, x)
            if isinstance(x, str) or isinstance(x, int):
                return coll.has(x)
            raise Unsupported("dict membership")
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, (ListV, TupleV)):
            if isinstance(coll, TupleV) or coll.concrete:
                return self.S.Or(*[self.S.b(self.equal(x, y)) for y in coll])
            if isinstance(x, Obj):
                return self.obj_in_list(coll, x)
            j = z3.Int(self.name("in!j"))
            return z3.Exists([j], z3.And(j >= 0, j < tz(coll.n), tz(self.equal(coll.at(j), x))))
        if isinstance(coll, IterV):
            if isinstance(simp(coll.n), int):
                return self.S.Or(*[self.S.b(self.equal(x, coll.get(i))) for i in range(simp(coll.n))])
            if hasattr(coll, "affine"):
                st, step, n = coll.affine
                if step == 1 and is_int(x):
                    return z3.And(tz(x) >= tz(st), tz(x) < tz(st) + tz(n))
        if isinstance(coll, Arr):
            if coll.affine is not None and coll.affine[1] == 1:
                return z3.And(tz(num(x)) >= tz(coll.affine[0]), tz(num(x)) < tz(coll.affine[0]) + tz(coll.shape[0]))
            j = z3.Int(self.name("in!j"))
            return z3.Exists([j], z3.And(j >= 0, j < tz(coll.shape[0]), tz(self.eq_num(coll.get(j), x))))
        h = self.valmeth.get(("contains", type(coll).__name__))
        if h:
            return h(self, coll, x)
        raise Unsupported(f"membership in {coll!r}")

    def obj_in_list(self, coll, x):
        """some element is the object, or is equal to it as its class defines it"""
        ci = self.program.find_class(x.cls)
        eq = ci.methods.get("__eq__") if ci else None
        con = None
        if eq is not None:
            con = next((k for k in self.contracts.get(eq.qual, ()) if k.value is not None), None)
            if con is None:
                raise Unsupported(f"membership: {eq.qual} has no contract giving its value")
            self.used_contracts.add(con.target)
            names = list(con.params)

        def hit(j):
            e = coll.at(j)
            same = self.eq_num(self.refid(e), self.refid(x))
            if con is None:
                return same
            return self.S.Or(same, con.value(self.S, NS(**dict(zip(names, (e, x))))))

        return self.S.Exists(0, coll.n, hit)

    def truth_term(self, v):
        if isinstance(v, Maybe):
            v = self.force(v)
        if v is None:
            return False
        if isinstance(v, EnumV):
            return self.S.Or(*[v.term == i for i, x in enumerate(v.values) if x])
        if is_bool(v):
            return v
        if is_num(v):
            return self.S.Not(self.eq_num(v, 0))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, ListV):
            n = v.length()
            return n > 0 if isinstance(n, int) else tz(n) > 0
        if isinstance(v, TupleV):
            return len(v) > 0
        if isinstance(v, DictV):
            if v.num is not None:
                raise Unsupported("truth value of a dictionary with unknown keys")
            return self.S.Or(*[p for p, _ in v.d.values()])
        if isinstance(v, Arr):
            if all(isinstance(s, int) for s in v.shape) and len(v.shape) == 1 and v.shape[0] == 1:
                return self.truth_term(v.get(0))
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (Obj, FuncV, ClassV, ModV, DateV)):
            return True
        if isinstance(v, Tok):
            return v.term != str_term("")
        if isinstance(v, FStr):
            if any(isinstance(x, str) and x for x in v.parts):
                return True
            return fstr_term(v) != str_term("")
        raise Unsupported(f"truth value of {v!r}")

    def truth(self, v):
        return self.decide(self.truth_term(v))

    # ---------------------------------------------------------------- attributes
    def eval_Attribute(self, e, fr):
        o = self.force(self.eval(e.value, fr))
        return self.getattr(o, self.mangle(e.attr, fr))

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if o.ident is not None:
                v, ok = self.elem_attr(o, name)
                if ok:
                    return v
            elif name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"use of {o.cls}.{name}: {v.why}")
                return v
            ci = self.program.find_class(o.cls)
            if ci is not None:
                if name in ci.props:
                    return self.call_function(ci.props[name], [], {}, self_obj=o)
                if name in ci.methods:
                    fi = ci.methods[name]
                    return FuncV("repo", fi=fi, name=name, self_obj=None if fi.kind == "staticmethod" else o, closure=None)
                if name in ci.classmethods:
                    return FuncV("repo", fi=ci.classmethods[name], name=name, self_obj=ClassV(o.cls, ci), closure=None)
                if name in ci.consts:
                    fi = FuncInfo(ci.module, None, ast.parse("def _c(): pass").body[0])
                    return self.eval(ci.consts[name], Frame(fi, ci.module, None))
            if name == "__getattribute__":
                return FuncV("getattribute", obj=o, name=name, self_obj=None)
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name == "__class__":
                return ClassV(o.cls, ci)
            raise PyExc("AttributeError", f"{o.cls} has no attribute {name}")
        if isinstance(o, ModV):
            if o.name in self.program.modules:
                sub = f"{o.name}.{name}"
                if sub in self.program.modules:
                    return ModV(sub)
                return self.load_global(name, self.program.modules[o.name])
            return self.ext_member(o.name, name)
        if isinstance(o, ClassV):
            if o.info is not None:
                ci = o.info
                if name in ci.classmethods:
                    return FuncV("repo", fi=ci.classmethods[name], name=name, self_obj=o, closure=None)
                if name in ci.methods:
                    return FuncV("repo", fi=ci.methods[name], name=name, self_obj=None, closure=None)
            if name == "__name__":
                return o.name
            return self.ext_member(o.name, name)
        if isinstance(o, SliceV):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
        h = self.valmeth.get((type(o).__name__, name))
        if h is not None:
            if getattr(h, "is_attr", False):
                return h(self, o)
            return FuncV("valmeth", fn=h, obj=o, name=name, self_obj=None)
        h = self.valmeth.get(("getattr", type(o).__name__))
        if h is not None:
            return h(self, o, name)
        if is_num(o):
            h = self.valmeth.get(("num", name))
            if h is not None:
                if getattr(h, "is_attr", False):
                    return h(self, o)
                return FuncV("valmeth", fn=h, obj=o, name=name, self_obj=None)
        if o is None:
            raise PyExc("AttributeError", f"None has no attribute {name}")
        if isinstance(o, FuncV) and name == "__name__":
            return o.name
        if isinstance(o, FuncV) and o.kind == "builtin" and o.name in ("str", "dict", "int", "float"):
            return self.ext_member(o.name, name)
        raise Unsupported(f"attribute {name} of {o!r}")

    # ---------------------------------------------------------------- subscripts
    def eval_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return SliceV(
                None if sl.lower is None else self.force(self.eval(sl.lower, fr)),
                None if sl.upper is None else self.force(self.eval(sl.upper, fr)),
                None if sl.step is None else self.force(self.eval(sl.step, fr)),
            )
        if isinstance(sl, ast.Tuple):
            return TupleV(self.eval_index(x, fr) for x in sl.elts)
        return self.force(self.eval(sl, fr))

    def eval_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def eval_Subscript(self, e, fr):
        o = self.force(self.eval(e.value, fr))
        i = self.eval_index(e.slice, fr)
        return self.getitem(o, i)

    def slice_bounds(self, sl, n):
        """normalised (start, length) of a step-1 slice of a sequence of length n"""
        n = simp(n)

        def norm(x, default):
            if x is None:
                return default
            x = num(simp(x))
            if not is_int(x):
                raise PyExc("TypeError", "slice indices must be integers")
            if isinstance(x, int) and isinstance(n, int):
                return max(0, min(n, x + n if x < 0 else x))
            x, m = tz(x), tz(n)
            y = z3.If(x < 0, x + m, x)
            return simp(z3.If(y < 0, z3.IntVal(0), z3.If(y > m, m, y)))

        a, b = norm(sl.start, 0), norm(sl.stop, n)
        if isinstance(a, int) and isinstance(b, int):
            return a, max(0, b - a)
        d = tz(b) - tz(a)
        return a, simp(z3.If(d >= 0, d, z3.IntVal(0)))

    def getitem(self, o, i):
        if isinstance(o, TupleV):
            if isinstance(i, SliceV):
                return TupleV(tuple(o)[i.start:i.stop:i.step])
            i = simp(i)
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    raise PyExc("IndexError", "tuple index")
                return o[i]
            i = self.norm_index(i, len(o))
            v = o[-1]
            for j in range(len(o) - 2, -1, -1):
                v = ite(tz(i) == j, o[j], v)
            return v
        if isinstance(o, ListV):
            if isinstance(i, SliceV):
                if i.step is not None:
                    if o.concrete and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                        return ListV(o.items[i.start:i.stop:i.step], oid=self.new_oid())
                    raise Unsupported("list slice with step")
                st, n = self.slice_bounds(i, o.length())
                if o.concrete and isinstance(st, int) and isinstance(n, int):
                    return ListV(o.items[st:st + n], oid=self.new_oid())
                at = o.at if not o.concrete else ListV(list(o.items)).at
                return ListV(None, n, lambda j: at(simp(tz(st) + tz(j))), oid=self.new_oid(), elt=o.elt)
            i = self.norm_index(i, o.length(), what="list index out of range")
            return o.at(i)
        if isinstance(o, DictV):
            if models_par.is_key(o, i):
                return models_par.num_get(self, o, i)
            if not isinstance(i, (str, int)):
                raise Unsupported(f"dict key {i!r}")
            if i not in o.d:
                raise PyExc("KeyError", str(i))
            p, v = o.d[i]
            if p is not True and not self.decide(p):
                raise PyExc("KeyError", str(i))
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, Arr):
            return self.arr_getitem(o, i)
        if isinstance(o, str):
            if isinstance(i, int):
                return o[i]
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i.start:i.stop:i.step]
        h = self.valmeth.get(("getitem", type(o).__name__))
        if h:
            return h(self, o, i)
        raise Unsupported(f"subscript of {o!r}")

    # ---------------------------------------------------------------- calls
    def eval_Call(self, e, fr):
        f = self.force(self.eval(e.func, fr)) if not (isinstance(e.func, ast.Name) and e.func.id == "super") else None
        if f is None:
            raise Unsupported("super()")
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.force(self.eval(a.value, fr)))
                n = simp(it.n)
                if not isinstance(n, int):
                    raise Unsupported("star argument of unknown length")
                args.extend(it.get(i) for i in range(n))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comprehension(a, fr))
            else:
                args.append(self.eval(a, fr))
        for kw in e.keywords:
            if kw.arg is None:
                d = self.force(self.eval(kw.value, fr))
                if not isinstance(d, DictV):
                    raise Unsupported("** of unknown dictionary")
                for k, (p, v) in d.d.items():
                    if p is True:
                        kwargs[k] = v
                    elif p is not False:
                        kwargs[k] = MaybeArg(p, v)
            else:
                kwargs[kw.arg] = self.eval(kw.value, fr)
        self.call_site = (fr, e)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, FuncV):
            if f.kind == "repo":
                return self.call_function(f.fi, args, kwargs, self_obj=f.self_obj, closure=f.closure)
            if f.kind == "lambda":
                return self.call_lambda(f, args, kwargs)
            if f.kind == "builtin":
                return self.builtins[f.name](self, *[self.force(a) for a in args], **kwargs)
            if f.kind == "valmeth":
                return f.fn(self, f.obj, *[self.force(a) for a in args], **kwargs)
            if f.kind == "getattribute":
                return self.getattr(f.obj, args[0])
            if f.kind == "ext":
                return self.call_ext(f.name, args, kwargs)
            if f.kind == "py":
                return f.fn(*args, **kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            ci = self.program.find_class(f.cls)
            if ci and "__call__" in ci.methods:
                return self.call_function(ci.methods["__call__"], args, kwargs, self_obj=f)
        raise Unsupported(f"call of {f!r}")

    def call_ext(self, name, args, kwargs):
        h = self.ext.get(name)
        if h is None:
            raise Unsupported(f"external function {name}")
        self.externals.add(name)
        args = [self.force(a) for a in args]
        kwargs = {k: (v if isinstance(v, MaybeArg) else self.force(v)) for k, v in kwargs.items()}
        return h(self, *args, **kwargs)

    def call_lambda(self, f, args, kwargs):
        node = f.node
        fi = FuncInfo(f.frame.module, None, ast.parse("def _lambda(): pass").body[0])
        fi.node.args = node.args
        fr = Frame(fi, f.frame.module, None, parent=self.frame, closure=f.frame)
        fr.locals = self.bind(fi, args, kwargs)
        saved = self.frame
        self.frame = fr
        try:
            return self.eval(node.body, fr)
        finally:
            self.frame = saved

    def instantiate(self, c, args, kwargs):
        if c.info is not None:
            if any(b in EXC_PARENTS or b.endswith("Error") or b == "Exception" for b in c.info.bases):
                return Obj(c.name, {}, oid=self.new_oid())
            o = Obj(c.name, {}, oid=self.new_oid())
            o.nref = z3.IntVal(-o.oid - 1)
            init = c.info.methods.get("__init__")
            if init is not None:
                con = (self.contracts.get(init.qual) or [None])[0]
                if con is not None and not getattr(con, "inline", False):
                    from .registry import SCHEMA

                    for k, s in SCHEMA.get(c.name, {}).items():
                        o.attrs[k] = self.fresh(s, f"new{c.name}.{k}")
                self.call_function(init, args, kwargs, self_obj=o)
            elif args or kwargs:
                raise PyExc("TypeError", f"{c.name}() takes no arguments")
            return o
        if c.name in EXC_PARENTS or c.name.endswith("Warning"):
            return Obj(c.name, {"args": TupleV(args)}, oid=self.new_oid())
        b = self.builtins.get(c.name)
        if b is not None:
            return b(self, *[self.force(a) for a in args], **kwargs)
        return self.call_ext(c.name, args, kwargs)

    # ---------------------------------------------------------------- comprehensions
    def eval_ListComp(self, e, fr):
        return self.comprehension(e, fr)

    def eval_GeneratorExp(self, e, fr):
        return self.comprehension(e, fr)

    def eval_SetComp(self, e, fr):
        return self.comprehension(e, fr)

    def eval_DictComp(self, e, fr):
        """the loop it stands for, in a scope of its own"""
        if len(e.generators) != 1:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        it = self.iterate(self.force(self.eval(g.iter, fr)))
        n = simp(it.n)
        loop = getattr(e, "loop", None)
        if loop is None:
            st = ast.Assign([ast.Subscript(ast.Name("dict!comp", ast.Load()), e.key, ast.Store())], e.value)
            for c in reversed(g.ifs):
                st = ast.If(c, [st], [])
            loop = e.loop = ast.fix_missing_locations(ast.copy_location(ast.For(g.target, g.iter, [st], []), e))
        sub = self.comp_frame(fr)
        sub.locals["dict!comp"] = d = DictV({}, oid=self.new_oid())
        if not isinstance(n, int):
            if not self.map_loop(loop, sub, it, n):
                raise Unsupported("dict comprehension over unknown length")
            return sub.locals["dict!comp"]
        if n > self.MAX_UNROLL:
            raise Unsupported("comprehension too long")
        saved, self.frame = self.frame, sub
        try:
            for i in range(n):
                self.assign(g.target, it.get(i), sub)
                self.exec_block(loop.body, sub)
        finally:
            self.frame = saved
        return d

    def freeze(self, fr):
        """what a value computed later from this frame depends on, as it is now"""
        return Frozen(self, fr)

    def comp_frame(self, fr):
        sub = Frame(fr.fi, fr.module, fr.cls, parent=fr, closure=fr)
        return sub

    def comprehension(self, e, fr):
        sub = self.comp_frame(fr)
        saved = self.frame
        self.frame = sub
        try:
            return self._comp(e, e.generators, sub)
        finally:
            self.frame = saved

    def _comp(self, e, gens, fr):
        g = gens[0]
        it = self.iterate(self.force(self.eval(g.iter, fr)))
        n = simp(it.n)
        if is_z3(n) and has_ite(n) and self.is_valid_qf(z3.And(n >= 0, n <= 6)):
            # the number of iterations is one of few declared values: one case each
            for k in range(7):
                if self.decide(n == k, f"loop at {fr.fi.name}:{s.lineno} runs {k} times"):
                    n = k
                    break
        if isinstance(n, int):
            if n > self.MAX_UNROLL:
                raise Unsupported("comprehension too long")
            if 1 < n <= 6 and g.ifs and len(gens) == 1:
                r = self.merged_filter(e, g, it, n, fr)
                if r is not None:
                    return r
            out = []
            for i in range(n):
                self.assign(g.target, it.get(i), fr)
                if all(self.truth(self.eval(c, fr)) for c in g.ifs):
                    if len(gens) > 1:
                        r = self._comp(e, gens[1:], fr)
                        if not r.concrete:
                            lv = ListV(out, oid=self.new_oid())
                            self.list_extend(lv, r)
                            raise Unsupported("mixed comprehension")
                        out.extend(r.items)
                    else:
                        out.append(self.eval(e.elt, fr))
            return ListV(out, oid=self.new_oid())
        # symbolic length
        if len(gens) == 1 and not g.ifs:
            now = self.freeze(fr.parent)
            checked = False

            def get(i):
                saved, sn = self.frame, self.nomerge
                sq, self.obliged = self.obliged, self.obliged or checked
                with now as base:
                    f2 = Frame(fr.fi, fr.module, fr.cls, parent=base, closure=base)
                    self.frame = f2
                    self.nomerge = True
                    try:
                        self.assign_quiet(g.target, it.get(i), f2)
                        r = self.eval(e.elt, f2)
                    except MergeFail:
                        raise Unsupported("comprehension element needs a case split")
                    finally:
                        self.frame, self.nomerge, self.obliged = saved, sn, sq
                return now.thaw(r)

            i = self.freshint("comp.i", 0)
            sb, self.probe_bound = self.probe_bound, self.probe_bound + [i < tz(n)]
            try:
                get(i)  # what the element requires is shown for any one position
            finally:
                self.probe_bound = sb
            checked = True
            return ListV(None, n, get, oid=self.new_oid())
        # filtered / nested: characterised by membership
        return self.filtered_comp(e, gens, fr, it, n)

    def map_sym(self, n, at, f):
        """[f(at(i)) for i in range(n)]"""

        checked = False
        now = self.freeze(f.frame if isinstance(f, FuncV) and f.kind == "lambda" else None)
        if isinstance(f, FuncV) and f.kind == "lambda":
            f = FuncV("lambda", **{**{k: v for k, v in f.__dict__.items() if k != "kind"}, "frame": now.frame})

        def get(i):
            sn, self.nomerge = self.nomerge, True
            sq, self.obliged = self.obliged, self.obliged or checked
            try:
                with now:
                    r = self.call(f, [at(i)])
                return now.thaw(r)
            except MergeFail:
                raise Unsupported("mapped function needs a case split")
            finally:
                self.nomerge, self.obliged = sn, sq

        n = simp(n)
        if isinstance(n, int) and n <= 16:
            return ListV([get(i) for i in range(n)], oid=self.new_oid())
        i = self.freshint("map.i", 0)
        if self.decide(tz(n) > 0, "anything mapped"):
            self.assume(i < tz(n))
            get(i)  # what the calls require is shown for any one position
        checked = True
        return ListV(None, n, get, oid=self.new_oid())

    def merged_filter(self, e, g, it, n, fr):
        """[elt for x in <n items> if cond] without a case split per item, when everything evaluated is pure"""
        f2 = self.comp_frame(fr.parent)
        saved, sn, oid = self.frame, self.nomerge, self.oid
        n_ev, n_dr = len(self.events), len(self.draws)
        self.frame, self.nomerge = f2, True
        conds, elts = [], []
        try:
            if not pure_expr([e.elt] + g.ifs):
                return None
            for i in range(n):
                self.assign_quiet(g.target, it.get(i), f2)
                conds.append(self.S.And(*[self.truth_term(self.eval(c, f2)) for c in g.ifs]))
                elts.append(self.eval(e.elt, f2))
            if all(isinstance(simp(c), bool) for c in conds) or len(self.events) != n_ev or len(self.draws) != n_dr:
                return None
            pos, total = [], 0
            for c in conds:
                pos.append(total)
                total = simp(tz(total) + tz(ite(c, 1, 0)))

            def get(i):
                r = elts[-1]
                for c, p, v in reversed(list(zip(conds[:-1], pos[:-1], elts[:-1]))):
                    r = ite(simp(z3.And(tz(c), tz(i) == tz(p))), v, r)
                return r

            get(z3.Int("probe!"))
            return ListV(None, total, get, oid=self.new_oid())
        except (MergeFail, PyExc, Unsupported):
            return None
        finally:
            self.frame, self.nomerge = saved, sn

    def assign_quiet(self, t, v, fr):
        saved = self.loop_stack
        self.loop_stack = []
        try:
            self.assign(t, v, fr)
        finally:
            self.loop_stack = saved

    def filtered_comp(self, e, gens, fr, it0, n0):
        """list L with: every element comes from a qualifying combination, every combination is in L"""
        bound, conds = [], []
        f2 = self.comp_frame(fr.parent)
        saved, sn, tl = self.frame, self.nomerge, self.trail
        self.frame = f2
        self.nomerge = True
        try:
            for gi, g in enumerate(gens):
                it = it0 if gi == 0 else self.iterate(self.force(self.eval(g.iter, f2)))
                j = z3.Int(self.name(f"comp!j{gi}"))
                bound.append(j)
                conds += [j >= 0, j < tz(it.n)]
                self.assign_quiet(g.target, it.get(j), f2)
                for c in g.ifs:
                    conds.append(tz(self.S.b(self.truth_term(self.eval(c, f2)))))
            elt = self.eval(e.elt, f2)
        except MergeFail:
            raise Unsupported("comprehension needs a case split")
        finally:
            self.frame, self.nomerge = saved, sn
        cond = z3.And(*conds)
        n = self.freshint("comp.len", 0)
        if len(bound) == 1:
            it_n = it0.n
            self.assume(n == self.counted(it_n, bound[0], z3.And(*conds[2:]) if len(conds) > 2 else z3.BoolVal(True)))
        wit = [z3.Function(self.name("comp.w"), z3.IntSort(), z3.IntSort()) for _ in bound]
        pos = z3.Function(self.name("comp.pos"), *([z3.IntSort()] * len(bound)), z3.IntSort())

        def at(i):
            i = tz(i)
            sub = [(b, w(i)) for b, w in zip(bound, wit)]
            return subst_value(elt, sub)

        i = z3.Int("comp!i")
        sub = [(b, w(i)) for b, w in zip(bound, wit)]
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.substitute(cond, *sub))))
        p = pos(*bound)
        self.assume(
            z3.ForAll(
                bound,
                z3.Implies(cond, z3.And(p >= 0, p < n, *[w(p) == b for b, w in zip(bound, wit)])),
            )
        )
        if len(bound) == 1:
            a, b = z3.Ints("comp!a comp!b")
            self.assume(
                z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), wit[0](a) < wit[0](b)))
            )
        return ListV(None, n, at, oid=self.new_oid())

    # ---------------------------------------------------------------- lists
    def to_list(self, v):
        it = self.iterate(v)
        n = simp(it.n)
        if isinstance(n, int):
            return ListV([it.get(i) for i in range(n)], oid=self.new_oid())
        lv = ListV(None, n, it.get, oid=self.new_oid())
        if hasattr(it, "affine"):
            lv.affine = it.affine
        return lv

    def list_append(self, lv, v):
        if lv.concrete:
            self.set_list(lv, list(lv.items) + [v])
        else:
            n, g = lv.n, lv.get
            if isinstance(v, Obj) and v.ident is None and isinstance(lv.elt, so.ObjListS):
                v = self.elem_obj(v.cls, self.refid(v), lv.owner)
            self.set_list(lv, None, simp(tz(n) + 1), lambda i: ite(simp(tz(i) == tz(n)), v, g(i)))

    def list_extend(self, lv, other):
        it = self.iterate(other)
        m = simp(it.n)
        if lv.concrete and isinstance(m, int):
            self.set_list(lv, list(lv.items) + [it.get(i) for i in range(m)])
            return
        if lv.concrete and not lv.items:
            self.set_list(lv, None, m, it.get, elt=getattr(other, "elt", None))
            return
        n = lv.length()
        at = ListV(lv.items, lv.n, lv.get).at if not lv.concrete else ListV(list(lv.items)).at
        get = it.get
        ka, kb = self.kind_of(lv), self.kind_of(other) if isinstance(other, ListV) else None
        elt = so.ObjListS(ka[1][1]) if kb == ka and ka[1] is not None and ka[1][0] == "ref" else None
        self.set_list(
            lv, None, simp(tz(n) + tz(m)), lambda i: ite(simp(tz(i) < tz(n)), at(i), get(simp(tz(i) - tz(n)))), elt=elt
        )

    def list_pop(self, lv, i=None):
        n = lv.length()
        if i is None:
            i = -1
        i = self.norm_index(i, n, what="pop index out of range")
        if lv.concrete and isinstance(i, int):
            items = list(lv.items)
            v = items.pop(i)
            self.set_list(lv, items)
            return v
        at = ListV(lv.items, lv.n, lv.get).at
        v = at(i)
        self.set_list(lv, None, simp(tz(n) - 1), lambda j: ite(simp(tz(j) < tz(i)), at(j), at(simp(tz(j) + 1))))
        return v

    def list_insert(self, lv, i, v):
        n = lv.length()
        i = simp(i)
        if lv.concrete and isinstance(i, int):
            items = list(lv.items)
            items.insert(i, v)
            self.set_list(lv, items)
            return
        st, _ = self.slice_bounds(SliceV(i, None), n)
        at = ListV(lv.items, lv.n, lv.get).at
        self.set_list(
            lv,
            None,
            simp(tz(n) + 1),
            lambda j: ite(simp(tz(j) < tz(st)), at(j), ite(simp(tz(j) == tz(st)), v, at(simp(tz(j) - 1)))),
        )

    def dict_pop(self, d, k, *default):
        if k not in d.d:
            if default:
                return default[0]
            raise PyExc("KeyError", str(k))
        p, v = d.d[k]
        if p is not True:
            if default:
                r = ite(p, v, default[0])
                self.set_dict(d, k, None)
                return r
            if not self.decide(p):
                raise PyExc("KeyError", str(k))
        self.set_dict(d, k, None)
        return v


class MaybeArg:
    def __init__(self, present, value):
        self.present, self.value = present, value


def subst_value(v, sub):
    if is_z3(v):
        return z3.substitute(v, *sub)
    if isinstance(v, SliceV):
        return SliceV(subst_value(v.start, sub), subst_value(v.stop, sub))
    if isinstance(v, TupleV):
        return TupleV(subst_value(x, sub) for x in v)
    if isinstance(v, (bool, int, Fraction, str)) or v is None:
        return v
    if isinstance(v, Tok):
        return Tok(z3.substitute(v.term, *sub))
    raise Unsupported(f"comprehension element {v!r}")


def kinds_equal(a, b):
    return str(a) == str(b)


def writes_nonlocal(writes, li, fr):
    """does the continuing iteration change anything that the next one reads?"""
    for loc in writes:
        if loc[0] == "local" and loc[1] == fr.depth:
            continue
        return True
    return False


class Builder(tuple):
    pass


def builder_of(s):
    """(name, key expression or None, value expression) when the loop body computes one element per iteration"""
    if s.orelse:
        return None
    bound = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    temps = {st.targets[0].id for st in s.body if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)}
    build = None

    def fresh_read(e, name):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and (x.id == name or x.id in temps and x.id not in bound):
                return False
            if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda)):
                return False
        return True

    for st in s.body:
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            if not fresh_read(st.value, None):
                return None
            bound.add(st.targets[0].id)
        elif build is None and isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 1 and not st.value.keywords:
            nm = st.value.func.value.id
            if not fresh_read(st.value.args[0], nm):
                return None
            build = Builder((nm, None, st.value.args[0]))
            build.stmt = st
        elif build is None and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                and isinstance(st.targets[0].value, ast.Name) and not isinstance(st.targets[0].slice, ast.Slice):
            nm = st.targets[0].value.id
            if not fresh_read(st.value, nm) or not fresh_read(st.targets[0].slice, nm):
                return None
            build = Builder((nm, st.targets[0].slice, st.value))
            build.stmt = st
        else:
            return None
    if build is None or s.body[-1] is not build.stmt:
        return None
    if any(isinstance(x, ast.Name) and x.id == build[0] for st in s.body if st is not build.stmt for x in ast.walk(st)):
        return None
    return build


def pure_expr(exprs):
    for e in exprs:
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Lambda, ast.NamedExpr, ast.ListComp, ast.GeneratorExp)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "slice", "range", "tuple", "int", "float", "abs", "min", "max", "isinstance", "range_within_window"):
                    continue
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("is_integer", "isnan", "isna", "notna", "isnull", "notnull"):
                    continue
                return False
    return True


def same_dim(a, b):
    a, b = simp(a), simp(b)
    return (isinstance(a, int) and isinstance(b, int) and a == b) or (is_z3(a) and is_z3(b) and a.eq(b))


EXT_MODULES = {
    "numpy.random", "os.path", "pandas.api", "multiprocessing.pool", "numpy.core", "matplotlib.pyplot", "plotly.express",
    "plotly.graph_objects",
}
EXT_CLASSES = {
    "pandas.DataFrame", "pandas.Series", "pandas.Timedelta", "pandas.DatetimeIndex", "pandas.Timestamp",
    "datetime.timedelta", "datetime.datetime", "datetime.date", "numpy.ndarray", "typing.List", "typing.Union",
    "numpy.intc", "numpy.float64", "numpy.integer", "numpy.floating", "numpy.number", "numpy.int64", "numbers.Number", "numbers.Real",
    "pandas.ExcelWriter", "pandas.Period", "openpyxl.worksheet.cell_range.CellRange", "json.JSONDecodeError",
}
