"""ramp/core/core.py: how the loads of appliances, single users, user categories and days are composed"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .schema import windows_ok
from .appliance_c import A, cw_ok
from .appliance_day import parts_ok
from .dates import weekend

C = "ramp.core.core:"
GEN_ATTRS = ("daily_use", "free_spots", "current_duty_cycle_id", "random_cycle1", "random_cycle2", "random_cycle3")


DATES = dict(_date_start=AnyS(), _date_end=AnyS())  # not read any more once the calendar is set


def declared_ok(S, a):
    return S.And(windows_ok(S, a), cw_ok(S, a), parts_ok(S, a))


def user_ok(S, u, day=None):
    """every appliance of the category is declared within the documented ranges (and has a power for the day)"""
    return S.ForAll(0, S.len(u.App_list), lambda i: S.And(
        declared_ok(S, S.at(u.App_list, i)),
        True if day is None else S.lt(day, S.len(S.at(u.App_list, i).power))))


def arrays_track(S, L, total, extra=()):
    """candidate invariants: every daily profile the loop builds equals the ghost total"""
    out = []
    for nm, cur, ent in L.arrays:
        if cur.shape == (1440,):
            out.append((f"{nm} is the sum so far", S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, m), S.at(total, m)))))
    return out


class _Single(Contract):
    target = C + "User.generate_single_load_profile"
    props = ("C10", "C11")
    modifies = ("self.rand_daily_pref",)
    modifies_elems = {"Appliance": GEN_ATTRS}
    returns = ArrS((1440,))
    ghost = dict(acc=ArrS((1440,)), cnt=IntS())
    raises = {"ValueError": ("only", None)}
    light_callees = True

    def peak(self, c):
        return c.peak_time_range

    def requires(self, S, c):
        out = [("appliances declared within the documented ranges", user_ok(S, c.self, c.prof_i))]
        if "acc" in c.ghost.__dict__ and S.eng.contract is self:
            out += [("nothing generated yet", S.And(S.eq(c.ghost.cnt, 0), S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.acc, m), 0))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if callee != "Appliance.generate_load_profile":
            return ()
        top = S.eng.ctx.old
        n = ghost["cnt"]
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("appliances are simulated one after the other, each once", S.And(
            S.lt(n, S.len(top.self.App_list)), S.is_elem(c.old.self, top.self.App_list, n)))
        ob("for the day asked for", S.eq(c.old.prof_i, top.prof_i))
        ob("for the day type asked for", S.eq(c.old.day_type, top.day_type))
        ob("with the peak time range asked for", S.eq(c.old.peak_time_range, self.peak(top)))
        pref = [d for d in S.eng.draws]
        ob("with the preference of this single user", self.pref_ok(S, top, c.old.self.user.rand_daily_pref, pref))
        acc, du = ghost["acc"], c.self.daily_use
        return [("acc", S.eng.derived_arr((1440,), lambda m: S.add(S.at(acc, m), S.at(du, m)), "f")), ("cnt", S.add(n, 1))]

    def pref_ok(self, S, top, val, draws):
        p = top.self.user_preference
        ds = [d for d in draws if d.kind == "randint"]
        drawn = [S.And(S.eq(d.params["a"], 1), S.eq(d.params["b"], p), S.eq(val, d.value)) for d in ds]
        if len(ds) > 1:
            return False
        return S.If(S.eq(p, 0), S.And(S.eq(val, 0), len(ds) == 0), S.Or(*drawn))

    def ensures(self, S, c):
        p = c.old.self.user_preference
        v = c.self.rand_daily_pref
        out = [("a preference between 1 and the declared number, 0 if there is none",
                S.Or(S.And(S.eq(p, 0), S.eq(v, 0)), S.And(S.ge(p, 1), S.between(1, v, p))))]
        if c.draws is not None:
            out += [
                ("every appliance is simulated once", S.eq(c.ghost.cnt, S.len(c.old.self.App_list))),
                ("the load is the sum of the profiles generated", S.And(
                    S.eq(S.len(c.result), 1440),
                    S.ForAll(0, 1440, lambda m: S.eq(S.at(c.result, m), S.at(c.ghost.acc, m))))),
                ("one preference is drawn", self.pref_ok(S, c.old, v, S.draws(c))),
            ]
        return out

    def invariants(self, S, L):
        if L.func != "generate_single_load_profile":
            return []
        out = arrays_track(S, L, L.ghost.acc)
        out.append(("appliances simulated so far", S.eq(L.ghost.cnt, L.k)))
        out.append(("at most all appliances", S.le(L.ghost.cnt, S.len(L.old.self.App_list))))
        return out


@contract
class Single(_Single):
    case = "peak time range given"
    params = dict(self=ObjS("User"), prof_i=IntS(0), peak_time_range=AffineS(1), day_type=IntS(0, 1))


@contract
class SingleDefault(_Single):
    case = "peak time range of the use case"
    params = dict(self=ObjS("User", usecase=ObjS("UseCase")), prof_i=IntS(0), peak_time_range=ConstS(None), day_type=IntS(0, 1))

    def peak(self, c):
        return c.self.usecase.peak_time_range


@contract
class Aggregated(Contract):
    target = C + "User.generate_aggregated_load_profile"
    props = ("C10",)
    params = dict(self=ObjS("User"), prof_i=IntS(0), peak_time_range=AffineS(1), day_type=IntS(0, 1))
    modifies = ("self.rand_daily_pref", "self.load")
    modifies_elems = {"Appliance": GEN_ATTRS}
    returns = ArrS((1440,))
    ghost = dict(acc=ArrS((1440,)), cnt=IntS())
    raises = {"ValueError": ("only", None)}
    light_callees = True

    def requires(self, S, c):
        out = [("appliances declared within the documented ranges", user_ok(S, c.self, c.prof_i))]
        if "acc" in c.ghost.__dict__ and S.eng.contract is self:
            out += [("nothing generated yet", S.And(S.eq(c.ghost.cnt, 0), S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.acc, m), 0))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if not callee.startswith("User.generate_single_load_profile"):
            return ()
        top = S.eng.ctx.old
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("single users of the category itself", S.same(c.old.self, top.self))
        ob("for the day asked for", S.eq(c.old.prof_i, top.prof_i))
        ob("for the day type asked for", S.eq(c.old.day_type, top.day_type))
        ob("with the peak time range asked for", S.eq(c.old.peak_time_range, top.peak_time_range))
        acc, r = ghost["acc"], c.result
        return [("acc", S.eng.derived_arr((1440,), lambda m: S.add(S.at(acc, m), S.at(r, m)), "f")), ("cnt", S.add(ghost["cnt"], 1))]

    def ensures(self, S, c):
        ld = c.self.load
        out = [("the load is returned", S.And(S.eq(S.len(c.result), 1440), S.ForAll(0, 1440, lambda m: S.eq(S.at(c.result, m), S.at(ld, m)))))]
        if c.draws is not None:
            out += [
                ("as many single users as the category has", S.eq(c.ghost.cnt, c.old.self.num_users)),
                ("the load is the sum of the single users' loads", S.And(
                    S.eq(S.len(ld), 1440), S.ForAll(0, 1440, lambda m: S.eq(S.at(ld, m), S.at(c.ghost.acc, m))))),
            ]
        return out

    def invariants(self, S, L):
        if L.func != "generate_aggregated_load_profile":
            return []
        return arrays_track(S, L, L.ghost.acc) + [
            ("single users so far", S.eq(L.ghost.cnt, L.k)), ("a documented preference", S.between(0, S.eng.ctx.self.rand_daily_pref, 3))]


def shape_at_calls(S, nd, r):
    if len(r.shape) == 2:
        return [("1440 minutes per day", S.And(S.eq(r.shape[0], nd), S.eq(r.shape[1], 1440)))]
    return [("1440 minutes per day", S.eq(S.len(r), S.mul(nd, 1440)))]


class _Daily(Contract):
    """sequential simulation of the days of an initialised use case"""

    target = C + "UseCase.generate_daily_load_profiles"
    props = ("C10",)
    modifies = ()
    modifies_elems = {"Appliance": GEN_ATTRS, "User": ("rand_daily_pref", "load")}
    returns = ArrS((None,))
    ghost = dict(tot=ArrS((None, 1440)), ucnt=ArrS((None,), "i"))
    raises = {"ValueError": ("only", None)}
    light_callees = True
    flat = True

    def requires(self, S, c):
        u = c.self
        nd = u._UseCase__num_days
        out = [
            ("initialised: one date per day", S.eq(S.len(u.days), nd)),
            ("appliances declared within the documented ranges", S.ForAll(0, S.len(u.users), lambda i: user_ok(
                S, S.at(u.users, i), S.sub(nd, 1)))),
        ]
        if S.eng.contract is self:
            out += [("nothing generated yet", S.And(
                S.ForAll(0, nd, lambda d: S.eq(S.at(c.ghost.ucnt, d), 0)),
                S.ForAll(0, nd, lambda d: S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.tot, d, m), 0)))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if not callee.startswith("User.generate_aggregated_load_profile"):
            return ()
        top = S.eng.ctx.old.self
        d = c.old.prof_i
        uc, tot, r = ghost["ucnt"], ghost["tot"], c.result
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("a simulated day", S.between(0, d, S.sub(top._UseCase__num_days, 1)))
        ob("user categories one after the other, each once a day", S.And(
            S.lt(S.at(uc, d), S.len(top.users)), S.is_elem(c.old.self, top.users, S.at(uc, d))))
        ob("with the day type of that date", S.eq(c.old.day_type, weekend(S, S.at(top.days, d))))
        ob("with the peak time range of the use case", S.eq(c.old.peak_time_range, top.peak_time_range))
        return [
            ("tot", S.eng.derived_arr((None, 1440), lambda e, m: S.If(S.eq(e, d), S.add(S.at(tot, e, m), S.at(r, m)), S.at(tot, e, m)), "f")),
            ("ucnt", S.eng.derived_arr((None,), lambda e: S.If(S.eq(e, d), S.add(S.at(uc, e), 1), S.at(uc, e)), "i")),
        ]

    def ensures(self, S, c):
        if c.draws is None:
            return shape_at_calls(S, c.old.self._UseCase__num_days, c.result)
        u = c.old.self
        nd, r = u._UseCase__num_days, c.result
        every = S.ForAll(0, nd, lambda d: S.eq(S.at(c.ghost.ucnt, d), S.len(u.users)))
        if self.flat:
            shape = S.And(len(r.shape) == 1, S.eq(S.len(r), S.mul(nd, 1440)))
            val = S.ForAll(0, S.mul(nd, 1440), lambda i: S.eq(S.at(r, i), S.at(c.ghost.tot, S.div_int(i, 1440), S.mod(i, 1440))))
        else:
            shape = S.And(len(r.shape) == 2, S.eq(r.shape[0], nd), S.eq(r.shape[1], 1440)) if len(r.shape) == 2 else False
            val = S.ForAll(0, nd, lambda d: S.ForAll(0, 1440, lambda m: S.eq(S.at(r, d, m), S.at(c.ghost.tot, d, m)))) if len(r.shape) == 2 else False
        return [
            ("every user category is simulated once on every day", every),
            ("1440 minutes per day", shape),
            ("each day is the sum of the loads of the user categories", val),
        ]

    def invariants(self, S, L):
        if L.func != "generate_daily_load_profiles":
            return []
        top = L.old.self
        nd = top._UseCase__num_days
        uc, tot = L.ghost.ucnt, L.ghost.tot
        out = []
        d = L.locals.get("day_idx") if False else None
        outer = L.n is not None and not hasattr(L, "outer")
        U = S.len(top.users)
        # outer loop: days before k are complete, the others untouched
        k = L.k
        done = S.And(
            S.ForAll(0, nd, lambda e: S.Implies(S.lt(e, k), S.eq(S.at(uc, e), U))),
            S.ForAll(0, nd, lambda e: S.Implies(S.ge(e, k), S.And(S.eq(S.at(uc, e), 0), S.ForAll(0, 1440, lambda m: S.eq(S.at(tot, e, m), 0))))))
        out.append(("days before this one are complete, later ones untouched", done))
        for nm, cur, ent in L.arrays:
            if len(cur.shape) == 2:
                out.append((f"{nm}: finished days hold their total", S.ForAll(0, nd, lambda e: S.Implies(
                    S.lt(e, k), S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, e, m), S.at(tot, e, m)))))))
        # inner loop: the day under way
        for v, day in self.day_terms(S, L):
            out.append((f"the day under way ({v}): categories so far", S.eq(S.at(uc, day), k)))
            out.append((f"days other than {v} do not change", S.And(
                S.ForAll(0, nd, lambda e: S.Implies(S.ne(e, day), S.eq(S.at(uc, e), S.at(L.entry.ghost.ucnt, e)))),
                S.ForAll(0, nd, lambda e: S.Implies(S.ne(e, day), S.ForAll(0, 1440, lambda m: S.eq(
                    S.at(tot, e, m), S.at(L.entry.ghost.tot, e, m))))))))
            for nm, cur, ent in L.arrays:
                if cur.shape == (1440,):
                    out.append((f"{nm}: load of the categories so far on {v}", S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, m), S.at(tot, day, m)))))
        return out

    def day_terms(self, S, L):
        """candidates for the index of the day under way: integer locals that do not change in the loop"""
        return [(n, v) for n, v in L.locals.items() if n not in L.mod_locals and S.is_int(v) and not isinstance(v, (int, bool))]


@contract
class DailyFlat(_Daily):
    case = "flat"
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(False), **DATES), days=ConstS(None), flat=ConstS(True), cases=ConstS(None), verbose=BoolS())


@contract
class DailyRows(_Daily):
    case = "one row per day"
    flat = False
    returns = ArrS((None, 1440))
    params = dict(self=ObjS("UseCase", parallel_processing=ConstS(False), **DATES), days=ConstS(None), flat=ConstS(False), cases=ConstS(None), verbose=BoolS())
