"""ramp/core/core.py: theoretical maximum profiles and the peak time range drawn around their maximum"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .schema import UNREAD

C = "ramp.core.core:"


def in_window(S, a, m):
    return S.Or(*[S.And(S.le(S.at(w, 0), m), S.lt(m, S.at(w, 1))) for w in (a.window_1, a.window_2, a.window_3)])


@contract
class ApplianceMax(Contract):
    target = C + "Appliance.maximum_profile"
    props = ("C13", "C12")
    params = dict(self=ObjS("Appliance"))
    returns = ArrS((1440,))

    def requires(self, S, c):
        return [("windows end no earlier than they start", S.And(*[
            S.le(S.at(getattr(c.self, f"window_{i}"), 0), S.at(getattr(c.self, f"window_{i}"), 1)) for i in (1, 2, 3)]))]

    def ensures(self, S, c):
        a = c.old.self
        top = S.mul(S.R("0.001"), S.mean(a.power), a.number)
        return [
            ("1440 values", S.eq(S.len(c.result), 1440)),
            ("proportional to mean power times number inside the declared windows, 0 elsewhere", S.ForAll(
                0, 1440, lambda m: S.eq(S.at(c.result, m), S.If(in_window(S, a, m), top, 0)))),
        ]


def windows_all(S, u):
    return S.ForAll(0, S.len(u.App_list), lambda i: S.And(*[
        S.le(S.at(getattr(S.at(u.App_list, i), f"window_{j}"), 0), S.at(getattr(S.at(u.App_list, i), f"window_{j}"), 1))
        for j in (1, 2, 3)]))


def tracked(S, L, val):
    """candidates: an array or a matrix of rows that adds up to val so far"""
    out = []
    for nm, cur, ent in L.arrays:
        if cur.shape == (1440,):
            out.append((f"{nm} is the sum so far", S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, m), val(m)))))
        elif len(cur.shape) == 2 and cur.shape[1] == 1440:
            cs = S.colsum(cur)
            out.append((f"{nm} adds up to the sum so far", S.ForAll(0, 1440, lambda m: S.eq(S.at(cs, m), val(m)))))
    return out


@contract
class UserMax(Contract):
    target = C + "User.maximum_profile"
    props = ("C13", "C12")
    params = dict(self=ObjS("User"))
    returns = ArrS((1440,))
    ghost = dict(acc=ArrS((1440,)), cnt=IntS())
    peel = ("maximum_profile",)

    def requires(self, S, c):
        out = [("windows end no earlier than they start", windows_all(S, c.self)),
               ("at least one appliance", S.ge(S.len(c.self.App_list), 1))]
        if S.eng.contract is self:
            out += [("nothing added yet", S.And(S.eq(c.ghost.cnt, 0), S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.acc, m), 0))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if callee != "Appliance.maximum_profile":
            return ()
        top = S.eng.ctx.old
        n = ghost["cnt"]
        S.eng.oblige(f"{self.short}: the appliances of the category, each once", S.And(
            S.lt(n, S.len(top.self.App_list)), S.is_elem(c.old.self, top.self.App_list, n)), "post")
        acc, r = ghost["acc"], c.result
        return [("acc", S.eng.derived_arr((1440,), lambda m: S.add(S.at(acc, m), S.at(r, m)), "f")), ("cnt", S.add(n, 1))]

    def ensures(self, S, c):
        out = [("1440 values", S.eq(S.len(c.result), 1440))]
        if c.draws is not None:
            out += [
                ("every appliance is counted", S.eq(c.ghost.cnt, S.len(c.old.self.App_list))),
                ("the sum over the appliances times the number of users", S.ForAll(0, 1440, lambda m: S.eq(
                    S.at(c.result, m), S.mul(S.at(c.ghost.acc, m), c.old.self.num_users)))),
            ]
        return out

    def invariants(self, S, L):
        if L.func != "maximum_profile":
            return []
        return tracked(S, L, lambda m: S.at(L.ghost.acc, m)) + [("appliances so far", S.eq(L.ghost.cnt, L.k))]


@contract
class Peak(Contract):
    target = C + "UseCase.calc_peak_time_range"
    props = ("C12",)
    params = dict(self=ObjS("UseCase", **UNREAD), peak_enlarge=ConstS(None))
    returns = AffineS(1)
    ghost = dict(tot=ArrS((1440,)), cnt=IntS())

    def requires(self, S, c):
        us = c.self.users
        out = [("every category has an appliance", S.ForAll(0, S.len(us), lambda i: S.And(
            S.ge(S.len(S.at(us, i).App_list), 1), windows_all(S, S.at(us, i)))))]
        if S.eng.contract is self:
            out += [("nothing added yet", S.And(S.eq(c.ghost.cnt, 0), S.ForAll(0, 1440, lambda m: S.eq(S.at(c.ghost.tot, m), 0))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if callee != "User.maximum_profile":
            return ()
        top = S.eng.ctx.old
        n = ghost["cnt"]
        S.eng.oblige(f"{self.short}: the user categories, each once", S.And(
            S.lt(n, S.len(top.self.users)), S.is_elem(c.old.self, top.self.users, n)), "post")
        tot, r = ghost["tot"], c.result
        return [("tot", S.eng.derived_arr((1440,), lambda m: S.add(S.at(tot, m), S.at(r, m)), "f")), ("cnt", S.add(n, 1))]

    def ensures(self, S, c):
        r = c.result
        out = [("a run of minutes, never empty", S.And(S.ge(S.len(r), 1), S.ForAll(0, S.len(r), lambda i: S.eq(
            S.at(r, i), S.add(S.at(r, 0), i)))))]
        if c.draws is None:
            return out
        tot = c.ghost.tot
        top = S.amax(tot)
        pos = S.positions(1440, lambda m: S.eq(S.at(tot, m), top))
        ds = S.draws(c, "normal")
        out.append(("every user category is counted", S.eq(c.ghost.cnt, S.len(c.old.self.users))))
        out.append(("two normal draws", len(S.draws(c)) == 2 and len(ds) == 2))
        if len(ds) != 2:
            return out
        d0, d1 = ds
        n = S.len(pos)
        span = S.sub(S.at(pos, S.sub(n, 1)), S.at(pos, 0))
        peak = S.round(d0.value)
        e = S.max(S.round(S.abs(S.sub(peak, d1.value))), 1)
        out += [
            ("peak time: normal around the rounded mean of the minutes of highest theoretical demand", S.eq(
                d0.params["mu"], S.round(S.mean(pos)))),
            ("peak time: standard deviation of a third of their span", S.eq(d0.params["sigma"], S.div(span, 3))),
            ("enlargement: normal around the peak time", S.eq(d1.params["mu"], peak)),
            ("enlargement: standard deviation peak_enlarge times the peak time", S.eq(
                d1.params["sigma"], S.mul(c.old.self._peak_enlarge, peak))),
            ("from e before the peak time up to e after it", S.And(
                S.eq(S.at(r, 0), S.sub(peak, e)), S.eq(S.len(r), S.mul(2, e)))),
        ]
        return out

    def invariants(self, S, L):
        if L.func != "calc_peak_time_range":
            return []
        return tracked(S, L, lambda m: S.at(L.ghost.tot, m)) + [("categories so far", S.eq(L.ghost.cnt, L.k))]


@contract
class PeakEnlarge(Contract):
    target = C + "UseCase.peak_enlarge.setter"
    props = ("C12",)
    case = "a fraction"
    params = dict(self=ObjS("UseCase", **UNREAD), new_peak_enlarge=RealS())
    modifies = ("self._peak_enlarge", "self.peak_time_range")
    raises = {"ValueError": ("iff", lambda S, c: S.lt(c.new_peak_enlarge, 0))}

    def requires(self, S, c):
        us = c.self.users
        return [("every category has an appliance", S.ForAll(0, S.len(us), lambda i: S.And(
            S.ge(S.len(S.at(us, i).App_list), 1), windows_all(S, S.at(us, i)))))]

    def ensures(self, S, c):
        out = [("the enlargement given is stored", S.eq(c.self._peak_enlarge, c.old.new_peak_enlarge))]
        if c.draws is not None:
            rs = S.calls(c, "calc_peak_time_range")
            out += [("the peak time range is drawn anew", len(rs) >= 1 and S.eq(c.self.peak_time_range, rs[-1].result)),
                    ("it is drawn with the new enlargement", len(rs) >= 1 and S.eq(rs[-1].args.self._peak_enlarge, c.old.new_peak_enlarge))]
        return out


@contract
class PeakEnlargeOther(Contract):
    """only a float is accepted"""

    target = C + "UseCase.peak_enlarge.setter"
    props = ("C12",)
    case = "not a float"
    params = dict(self=ObjS("UseCase", **UNREAD), new_peak_enlarge=OneOf(ConstS(None), IntS(), StrS()))
    raises = {"TypeError": ("iff", lambda S, c: True)}
