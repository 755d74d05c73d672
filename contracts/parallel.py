"""ramp/core/core.py: the parallel mode: which profiles are asked of the worker processes and how they are added up"""
import z3
from pydv.registry import contract, Contract
from pydv.sorts import *
from pydv.values import Arr, DateV, DictV, ListV, Obj, TupleV, is_z3, simp, tz
from pydv.models_par import NumDict
from .simulation import C, DATES, GEN_ATTRS, declared_ok, user_ok
from .dates import weekend


@contract
class Worker(Contract):
    """what one task gives; it runs in another process"""

    target = C + "single_appliance_daily_load_profile"
    props = ("C11",)
    params = dict(args=TupleS(ElemS("Appliance"), IntS(0, 3), TupleS(IntS(0), AffineS(1), IntS(0, 1))))
    modifies_elems = {"Appliance": GEN_ATTRS, "User": ("rand_daily_pref",)}
    returns = TupleS(IntS(0), ArrS((1440,)))
    ghost = dict(acc=ArrS((1440,)), cnt=IntS())
    raises = {"ValueError": ("only", None)}
    light_callees = True

    def requires(self, S, c):
        app, pref, (day, peak, daytype) = c.args
        out = [
            ("the appliance is declared within the documented ranges", declared_ok(S, app)),
            ("the appliance has a power for the day", S.lt(day, S.len(app.power))),
        ]
        if S.eng.contract is self:
            out.append(("nothing generated yet", S.eq(c.ghost.cnt, 0)))
        return out

    def on_call(self, S, c, callee, ghost):
        if callee != "Appliance.generate_load_profile":
            return ()
        app, pref, (day, peak, daytype) = S.eng.ctx.old.args
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("the appliance of the task is simulated", S.same(c.old.self, app))
        ob("for the day of the task", S.eq(c.old.prof_i, day))
        ob("for the day type of the task", S.eq(c.old.day_type, daytype))
        ob("with the peak time range of the task", S.eq(c.old.peak_time_range, peak))
        ob("with the preference of the task", S.eq(c.old.self.user.rand_daily_pref, pref))
        du = c.self.daily_use
        return [("acc", S.eng.derived_arr((1440,), lambda m: S.at(du, m), "f")), ("cnt", S.add(ghost["cnt"], 1))]

    def ensures(self, S, c):
        day, prof = c.result
        out = [("the day of the task is returned", S.eq(day, c.old.args[2][0]))]
        if c.draws is not None:
            out += [
                ("one profile is generated", S.eq(c.ghost.cnt, 1)),
                ("the profile generated is returned", S.And(S.eq(S.len(prof), 1440), S.ForAll(0, 1440, lambda m: S.eq(S.at(prof, m), S.at(c.ghost.acc, m))))),
            ]
        return out


def fn(name, n):
    return z3.Function(name, *([z3.IntSort()] * (n + 1)))


class Places:
    """the order in which the profiles are asked for: day by day, category by category, single user by single user,
    appliance by appliance. number(d, u, s, a) counts the profiles before the one of appliance a of single user s of
    category u on day d, drawn(d, u, s) the preferences drawn before the one of that single user. Both are defined by
    recursion over that order (`steps` gives the defining equations at one place). Going through the places in that
    order, number takes each of 0 .. number(number of days, 0, 0, 0) - 1 exactly once; day/user/single/app of such a
    number are the coordinates of its place (`inverse`)."""

    def __init__(self, S, top):
        self.S, self.top, self.users = S, top, top.users
        self.nd = tz(top._UseCase__num_days)
        self.U = tz(S.len(self.users))
        self.number, self.drawn = fn("number", 4), fn("drawn", 3)
        self.inv = [fn(f"{x} of number", 1) for x in ("day", "user", "single", "app")]

    def user(self, u):
        return self.S.at(self.users, u)

    def A(self, u):
        return tz(self.S.len(self.user(u).App_list))

    def N(self, u):
        return tz(self.user(u).num_users)

    def steps(self, d, u, s, a):
        n, q, S = self.number, self.drawn, self.S
        d, u, s, a = (tz(x) for x in (d, u, s, a))
        here = q(d, u, s)
        return [
            n(0, 0, 0, 0) == 0, q(0, 0, 0) == 0,
            n(d, u, s, a + 1) == n(d, u, s, a) + 1,
            n(d, u, s + 1, 0) == n(d, u, s, self.A(u)), q(d, u, s + 1) == here + z3.If(tz(self.user(u).user_preference) == 0, 0, 1),
            n(d, u + 1, 0, 0) == n(d, u, self.N(u), 0), q(d, u + 1, 0) == q(d, u, self.N(u)),
            n(d + 1, 0, 0, 0) == n(d, self.U, 0, 0), q(d + 1, 0, 0) == q(d, self.U, 0),
            self.inverse(d, u, s, a),
        ]

    def valid(self, d, u, s, a):
        return z3.And(d >= 0, d < self.nd, u >= 0, u < self.U, s >= 0, s < self.N(u), a >= 0, a < self.A(u))

    def inverse(self, *place):
        i = self.number(*place)
        return z3.Implies(self.valid(*place), z3.And(*[f(i) == x for f, x in zip(self.inv, place)]))

    def block(self, d, u, s):
        """the appliances of one single user follow each other (by induction from `steps`)"""
        d, u, s = (tz(x) for x in (d, u, s))
        first, A, i = self.number(d, u, s, 0), self.A(u), z3.Int("block!i")
        ok = z3.And(self.valid(d, u, s, 0), i >= first, i < first + A)
        here = z3.And(*[f(i) == x for f, x in zip(self.inv, (d, u, s, i - first))])
        return [self.number(d, u, s, A) == first + A, z3.ForAll([i], z3.Implies(ok, here), patterns=[self.inv[0](i)])]

    def every(self, tasks, f):
        if tasks.concrete and not tasks.items:
            return True

        def one(i):
            app, pref, (day, peak, daytype) = tasks.at(i)
            place = [g(tz(i)) for g in self.inv]
            return f(place, app, pref, day, peak, daytype)

        return self.S.ForAll(0, self.S.len(tasks), one)

    def matches(self, tasks, dv, nd):
        """task number i is the one of place number i: [(what, formula)]"""
        S, top = self.S, self.top

        def appliance(p, app, *_):
            return S.And(self.valid(*p), S.eq(S.eng.refid(app), self.user(p[1]).App_list.ref(p[3])))

        def preference(p, app, pref, *_):
            k = self.drawn(*p[:3])
            return S.If(S.eq(self.user(p[1]).user_preference, 0), S.eq(pref, 0), S.And(S.lt(k, nd), S.eq(pref, S.at(dv, k))))

        def day(p, app, pref, day, peak, daytype):
            return S.And(S.eq(day, p[0]), S.eq(daytype, weekend(S, S.at(top.days, p[0]))))

        def peak(p, app, pref, day, peak, daytype):
            return same_range(S, peak, top.peak_time_range)

        return [(nm, self.every(tasks, f)) for nm, f in (
            ("each is of the appliance, category, single user and day that come next", appliance),
            ("each has the preference drawn for its single user", preference),
            ("each has the index and the day type of its day", day),
            ("each has the peak time range of the use case", peak))]


def same_range(S, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr) and a.affine is not None and b.affine is not None and a.affine[1] == b.affine[1]:
        return S.And(S.eq(S.len(a), S.len(b)), S.eq(a.affine[0], b.affine[0]))
    return S.eq(a, b)


def in_range(S, P, tasks):
    """every task is within the documented ranges of what a worker takes: [(what, formula)]"""

    def numbers(p, app, pref, day, peak, daytype):
        return S.And(S.between(0, pref, 3), S.between(0, day, P.nd - 1), S.ge(S.len(peak), 1), S.between(0, daytype, 1))

    def declared(p, app, pref, day, *_):
        return S.And(declared_ok(S, app), S.lt(P.nd - 1, S.len(app.power)))

    return [("tasks within the documented ranges", P.every(tasks, numbers)), ("appliances of the tasks declared", P.every(tasks, declared))]


class _Parallel(Contract):
    target = C + "UseCase.generate_daily_load_profiles_parallel"
    props = ("C11",)
    modifies = ()
    returns = ArrS((None,))
    ghost = dict(tot=ArrS((None, 1440)), dv=ArrS((None,), "i"), nd=IntS(0), asked=IntS(0))
    raises = {"ValueError": ("only", None)}
    light_callees = True
    flat = True

    def requires(self, S, c):
        u = c.self
        nd = u._UseCase__num_days
        out = [
            ("initialised: one date per day", S.eq(S.len(u.days), nd)),
            ("appliances declared within the documented ranges", S.ForAll(0, S.len(u.users), lambda i: user_ok(
                S, S.at(u.users, i), S.sub(nd, 1)))),
        ]
        if S.eng.contract is self and "nd" in self.ghost:
            out += [("nothing generated yet", S.And(
                S.eq(c.ghost.nd, 0), S.eq(c.ghost.asked, 0),
                S.ForAll(0, nd, lambda d: S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.tot, d, m), 0)))))]
        return out

    def on_draw(self, S, draw, ghost):
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("preferences are drawn from 1 on", S.And(draw.kind == "randint", S.eq(draw.params.get("a", 0), 1)))
        us = [x for x in self.levels(S, S.eng.outer_loops) if x[0] == "user"]
        if us:
            p = S.at(S.eng.ctx.old.self.users, us[-1][1]).user_preference
            ob("preferences are drawn up to the declared number", S.eq(draw.params.get("b", 0), p))
        n, dv = ghost["nd"], ghost["dv"]
        return [("dv", S.eng.derived_arr((None,), lambda k: S.If(S.eq(k, n), draw.value, S.at(dv, k)), "i")), ("nd", S.add(n, 1))]

    def on_call(self, S, c, callee, ghost):
        top = S.eng.ctx.old.self
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        nd = top._UseCase__num_days
        if callee == "tasks":
            P = Places(S, top)
            for f in P.steps(nd, 0, 0, 0):
                S.eng.assume(f)
            tasks = c.tasks
            ob("one profile per appliance, single user and day", S.And(
                S.eq(ghost["asked"], 0), isinstance(tasks, ListV), S.eq(S.len(tasks), P.number(tz(nd), 0, 0, 0))))
            for nm, f in P.matches(tasks, ghost["dv"], ghost["nd"]):
                ob(nm, f)
            ob("one preference is drawn per single user and day", S.eq(ghost["nd"], P.drawn(tz(nd), 0, 0)))
            return [("asked", S.add(ghost["asked"], 1))]
        if callee != "single_appliance_daily_load_profile":
            return ()
        day, prof = c.result
        tot = ghost["tot"]
        return [("tot", S.eng.derived_arr((None, 1440), lambda e, m: S.If(S.eq(e, day), S.add(S.at(tot, e, m), S.at(prof, m)), S.at(tot, e, m)), "f"))]

    def ensures(self, S, c):
        nd, r, g = c.old.self._UseCase__num_days, c.result, c.ghost
        if c.draws is None:
            return self.at_calls(S, nd, r)
        if self.flat:
            shape = S.And(len(r.shape) == 1, S.eq(S.len(r), S.mul(nd, 1440)))
            val = S.ForAll(0, S.mul(nd, 1440), lambda i: S.eq(S.at(r, i), S.at(g.tot, S.div_int(i, 1440), S.mod(i, 1440)))) if len(r.shape) == 1 else False
        else:
            ok = len(r.shape) == 2
            shape = S.And(S.eq(r.shape[0], nd), S.eq(r.shape[1], 1440)) if ok else False
            val = S.ForAll(0, nd, lambda d: S.ForAll(0, 1440, lambda m: S.eq(S.at(r, d, m), S.at(g.tot, d, m)))) if ok else False
        return [
            ("the profiles are asked for once", S.eq(g.asked, 1)),
            ("1440 minutes per day", shape),
            ("each day is the sum of the profiles returned for it", val),
        ]

    def at_calls(self, S, nd, r):
        if len(r.shape) == 2:
            return [("1440 minutes per day", S.And(S.eq(r.shape[0], nd), S.eq(r.shape[1], 1440)))]
        return [("1440 minutes per day", S.eq(S.len(r), S.mul(nd, 1440)))]

    def levels(self, S, loops):
        """what the loops under way go through: [(day | user | single | app, index of the element under way)]"""
        top = S.eng.ctx.old.self
        out = []
        for L in loops:
            kind = self.kind(S, top, L, out)
            if kind is None:
                return []
            out.append((kind, L.k))
        return out

    def kind(self, S, top, L, outer):
        if L.item is None:
            return None
        x = L.item(0)
        parts = list(x) if isinstance(x, TupleV) else [x]
        for p in parts:
            if isinstance(p, DateV):
                return "day"
            if isinstance(p, Obj) and p.cls == "User":
                return "user"
            if isinstance(p, Obj) and p.cls == "Appliance":
                return "app"
        us = [k for nm, k in outer if nm == "user"]
        if us and self.provably(S, L.n, S.at(top.users, us[-1]).num_users):
            return "single"
        if not outer and self.provably(S, L.n, top._UseCase__num_days):
            return "day"
        return None

    def provably(self, S, a, b):
        a, b = simp(tz(a)), simp(tz(b))
        if not is_z3(a) or not is_z3(b):
            return a == b
        return a.eq(b) or a.eq(simp(z3.If(b >= 0, b, 0)))

    def place(self, S, L):
        """the place the loop head stands for, if the loops go through days, categories, single users and appliances"""
        ls = self.levels(S, list(L.outer) + [L])
        names = [nm for nm, _ in ls]
        if not names or names != ["day", "user", "single", "app"][:len(names)]:
            return None
        return tuple([k for _, k in ls] + [0] * (4 - len(ls)))

    def invariants(self, S, L):
        top, out = L.old.self, []
        P = Places(S, top)
        pl = self.place(S, L)
        if pl is not None and S.eng.qf.check(tz(L.entry.ghost.asked) != 0) == z3.unsat:
            app = len(L.outer) == 3
            for f in P.steps(*pl) + (P.block(*pl[:3]) if len(L.outer) == 2 and not L.nested else []):
                S.eng.assume(f)
            d, u, s, a = pl
            q = P.drawn(tz(d), tz(u), tz(s) + 1 if app else tz(s))
            out.append(("preferences drawn so far", S.eq(L.ghost.nd, q)))
            for nm, cur, ent in L.lists:
                if not self.is_tasks(cur):
                    continue
                out.append((f"{nm}: one task per place so far", S.eq(S.len(cur), P.number(*(tz(x) for x in pl)))))
                out.extend((f"{nm}: {what}", f) for what, f in P.matches(cur, L.ghost.dv, L.ghost.nd) + in_range(S, P, cur))
        out.append(("no profile is asked for meanwhile", S.eq(L.ghost.asked, L.entry.ghost.asked)))
        nd = top._UseCase__num_days
        for nm, d, tot in self.dicts(S, L):
            out.append((f"{nm}: profiles of each day so far", S.And(
                S.ForAll(0, nd, lambda j: S.Implies(d.has(j), S.And(S.gt(d.n(j), 0), S.ForAll(0, 1440, lambda m: S.eq(d.tot(j, m), S.at(tot, j, m)))))),
                S.ForAll(0, nd, lambda j: S.Implies(S.Not(d.has(j)), S.ForAll(0, 1440, lambda m: S.eq(S.at(tot, j, m), 0)))))))
        for nm, cur, ent in L.arrays:
            if len(cur.shape) == 2:
                k = L.k
                out.append((f"{nm}: finished days hold their total", S.ForAll(0, nd, lambda e: S.Implies(
                    S.lt(e, k), S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, e, m), S.at(L.ghost.tot, e, m)))))))
                out.append((f"{nm}: days still to come are zero", S.ForAll(0, nd, lambda e: S.Implies(
                    S.ge(e, k), S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, e, m), 0))))))
                out.append((f"{nm}: the sum of what came back so far", S.ForAll(0, nd, lambda e: S.ForAll(0, 1440, lambda m: S.eq(
                    S.at(cur, e, m), S.at(L.ghost.tot, e, m))))))
        return out

    def is_tasks(self, v):
        if v.concrete and not v.items:
            return True
        try:
            t = v.at(0)
        except Exception:
            return False
        return isinstance(t, TupleV) and len(t) == 3 and isinstance(t[2], TupleV) and len(t[2]) == 3

    def dicts(self, S, L):
        for nm, v in L.locals.items():
            if isinstance(v, DictV) and (v.num is not None or not v.d):
                yield nm, v.num or NumDict(lambda j: False, lambda j: 0, lambda j, m: 0, 1440), L.ghost.tot


@contract
class ParallelFlat(_Parallel):
    case = "flat"
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(True), **DATES), days=ConstS(None), flat=ConstS(True))


@contract
class ParallelRows(_Parallel):
    case = "one row per day"
    flat = False
    returns = ArrS((None, 1440))
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(True), **DATES), days=ConstS(None), flat=ConstS(False))


class _DailyParallel(Contract):
    """generate_daily_load_profiles of a use case in parallel mode"""

    target = C + "UseCase.generate_daily_load_profiles"
    props = ("C11",)
    modifies = ()
    returns = ArrS((None,))
    ghost = dict(par=ArrS((None, 1440)), asked=IntS(0))
    raises = {"ValueError": ("only", None)}
    light_callees = True
    flat = True
    at_calls = _Parallel.at_calls

    def requires(self, S, c):
        out = _Parallel.requires(self, S, c)
        if S.eng.contract is self:
            out.append(("nothing generated yet", S.eq(c.ghost.asked, 0)))
        return out

    def on_call(self, S, c, callee, ghost):
        if not callee.startswith("UseCase.generate_daily_load_profiles_parallel"):
            return ()
        S.eng.oblige(f"{self.short}: the days of the use case itself are simulated", S.same(c.old.self, S.eng.ctx.old.self), "post")
        r = c.result
        get = (lambda d, m: S.at(r, d, m)) if len(r.shape) == 2 else (lambda d, m: S.at(r, S.add(S.mul(d, 1440), m)))
        return [("par", S.eng.derived_arr((None, 1440), get, "f")), ("asked", S.add(ghost["asked"], 1))]

    def ensures(self, S, c):
        nd, r, g = c.old.self._UseCase__num_days, c.result, c.ghost
        if c.draws is None:
            return self.at_calls(S, nd, r)
        if self.flat:
            shape = S.And(len(r.shape) == 1, S.eq(S.len(r), S.mul(nd, 1440)))
            val = S.ForAll(0, S.mul(nd, 1440), lambda i: S.eq(S.at(r, i), S.at(g.par, S.div_int(i, 1440), S.mod(i, 1440)))) if len(r.shape) == 1 else False
        else:
            ok = len(r.shape) == 2
            shape = S.And(S.eq(r.shape[0], nd), S.eq(r.shape[1], 1440)) if ok else False
            val = S.ForAll(0, nd, lambda d: S.ForAll(0, 1440, lambda m: S.eq(S.at(r, d, m), S.at(g.par, d, m)))) if ok else False
        return [
            ("the parallel simulation runs once", S.eq(g.asked, 1)),
            ("1440 minutes per day", shape),
            ("the days are those of the parallel simulation", val),
        ]


@contract
class DailyParallelFlat(_DailyParallel):
    case = "parallel, flat"
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(True), **DATES), days=ConstS(None), flat=ConstS(True), cases=ConstS(None), verbose=BoolS())


@contract
class DailyParallelRows(_DailyParallel):
    case = "parallel, one row per day"
    flat = False
    returns = ArrS((None, 1440))
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(True), **DATES), days=ConstS(None), flat=ConstS(False), cases=ConstS(None), verbose=BoolS())
