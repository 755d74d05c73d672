"""ramp/core/core.py: power values per day, the appliances of a use case and its calendar"""
import z3
from pydv.registry import contract, Contract
from pydv.sorts import *
from .schema import UNREAD
from .peak import windows_all

tz_ = lambda x: x if hasattr(x, "sort") else z3.IntVal(x)
C = "ramp.core.core:"


def constant_ok(S, a):
    """a constant power is the same on every day"""
    return S.Implies(a._Appliance__constant_power, S.ForAll(0, S.len(a.power), lambda d: S.eq(S.at(a.power, d), S.at(a.power, 0))))


@contract
class CheckPower(Contract):
    target = C + "Appliance.check_power_values"
    props = ("C17",)
    params = dict(self=ObjS("Appliance", user=ObjS("User")), num_days=IntS(1))
    modifies = ("self.power",)
    raises = {"ValueError": ("iff", lambda S, c: S.And(S.Not(c.self._Appliance__constant_power), S.lt(S.len(c.self.power), c.num_days)))}

    def requires(self, S, c):
        return [("a constant power is the same on every day", constant_ok(S, c.self))]

    def ensures(self, S, c):
        p, q = c.old.self.power, c.self.power
        const = c.old.self._Appliance__constant_power
        return [
            ("there is a power for every day", S.ge(S.len(q), c.num_days)),
            ("a constant power applies to every day", S.Implies(const, S.ForAll(0, S.len(q), lambda d: S.eq(S.at(q, d), S.at(p, 0))))),
            ("a power series is not changed", S.Implies(S.Not(const), S.And(
                S.eq(S.len(q), S.len(p)), S.ForAll(0, S.len(p), lambda d: S.eq(S.at(q, d), S.at(p, d)))))),
        ]


off = z3.Function("appliances_before", z3.IntSort(), z3.IntSort())


def off_def(S, us):
    """number of appliances of the user categories before the i-th"""
    i = z3.Int("off!i")
    n = lambda k: S.len(S.at(us, k).App_list)
    return [off(0) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.len(us)), off(i + 1) == off(i) + n(i)), patterns=[n(i)]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.len(us)), off(i) >= 0), patterns=[off(i)])]


def same_obj(S, a, b):
    return S.eng.eq_num(a.ident, b.ident)


def collected(S, lst, us, k):
    """lst is the appliances of the first k user categories, in order"""
    A = lambda i: S.at(us, i).App_list
    if lst.concrete and not lst.items:
        return S.And(S.eq(0, off(tz_(S.num(k)))), S.ForAll(0, k, lambda i: S.eq(S.len(A(i)), 0)))
    return S.And(S.eq(S.len(lst), off(tz_(S.num(k)))), S.ForAll(0, k, lambda i: S.And(
        S.le(S.add(off(i), S.len(A(i))), S.len(lst)),
        S.ForAll(0, S.len(A(i)), lambda j: same_obj(S, S.at(lst, S.add(off(i), j)), S.at(A(i), j))))))


@contract
class Collect(Contract):
    target = C + "UseCase.collect_appliances_from_users"
    props = ("C17", "C20")
    params = dict(self=ObjS("UseCase", **UNREAD))
    modifies = ("self.appliances",)

    def definitions(self, S, c):
        return off_def(S, c.self.users)

    def ensures(self, S, c):
        us = c.old.self.users
        return [("the appliances of all user categories, in order", collected(S, c.self.appliances, us, S.len(us)))]

    def invariants(self, S, L):
        if L.func != "collect_appliances_from_users":
            return []
        us = L.old.self.users
        out = []
        if hasattr(L.k, "sort") or isinstance(L.k, int):
            for nm, cur, ent in L.lists:
                if getattr(cur, "ref", None) is not None or (cur.concrete and not cur.items):
                    out.append((f"{nm}: appliances of the categories so far", collected(S, cur, us, L.k)))
        return out


def power_all(S, us, upto, nd):
    """every appliance of the first user categories has a power for every day"""
    return S.ForAll(0, upto, lambda i: S.ForAll(0, S.len(S.at(us, i).App_list), lambda j: S.ge(
        S.len(S.at(S.at(us, i).App_list, j).power), nd)))


def known(S, x):
    return x is not None


class _Init(Contract):
    target = C + "UseCase.initialize"
    props = ("C14", "C17")
    modifies = ("self.days", "self._UseCase__num_days", "self._UseCase__datetimeindex", "self.peak_time_range", "self.appliances", "self._peak_enlarge")
    modifies_elems = {"Appliance": ("power",)}
    precise_elems = {"Appliance": ("power",)}
    tags = {"power": ("C17",), "calendar": ("C14",), "days": ("C14",), "minute": ("C14",)}
    refuse = ("ValueError", "power")

    def requires(self, S, c):
        us = c.self.users
        out = [
            ("every category has an appliance with proper windows", S.ForAll(0, S.len(us), lambda i: S.And(
                S.ge(S.len(S.at(us, i).App_list), 1), windows_all(S, S.at(us, i))))),
            ("class invariant: constant powers are the same on every day", S.every("Appliance", lambda a: constant_ok(S, a))),
        ]
        if known(S, c.self._date_start) and known(S, c.self._date_end):
            out.append(("the start is not after the end", S.le(S.ordinal(c.self._date_start), S.ordinal(c.self._date_end))))
        elif known(S, c.self._date_end) and not known(S, c.self._date_start):
            n = c.num_days if c.num_days is not None else c.self._UseCase__num_days
            if n is not None:
                out.append(("the first day is in the calendar", S.le(n, S.ordinal(c.self._date_end))))
        return out

    def definitions(self, S, c):
        return off_def(S, c.self.users)

    def calendar(self, S, c):
        """first day and number of days asked for"""
        o = c.old.self
        ds, de, n = o._date_start, o._date_end, c.old.num_days
        if ds is not None and de is not None and n is None:
            return S.ordinal(ds), S.add(S.sub(S.ordinal(de), S.ordinal(ds)), 1)
        if n is None:  # initialised before: for as many days
            n = o._UseCase__num_days
        if ds is not None:
            return S.ordinal(ds), n
        if de is not None:
            return S.add(S.sub(S.ordinal(de), n), 1), n
        ts = S.draws(c, "today") if c.draws is not None else ()
        return (S.div_int(ts[0].value, 1440) if ts else None), n

    def ensures(self, S, c):
        s = c.self
        first, n = self.calendar(S, c)
        days, idx = s.days, s._UseCase__datetimeindex
        if c.draws is None and first is None:  # at a call: some day
            first = S.div_int(S.minutes(S.at(days, 0)), 1440)
        if first is None or days is None or idx is None:
            return [("the calendar is set", False)]
        us = c.old.self.users
        return [
            ("calendar: the number of days is the length of the list", S.And(S.eq(s._UseCase__num_days, S.len(days)), S.eq(S.len(days), n))),
            ("calendar: consecutive days from the first one", S.ForAll(0, n, lambda i: S.eq(S.minutes(S.at(days, i)), S.mul(1440, S.add(first, i))))),
            ("1440 minutes per day from midnight of the first day", S.And(
                S.eq(S.len(idx), S.mul(1440, n)),
                S.ForAll(0, S.len(idx), lambda i: S.eq(S.minutes(S.at(idx, i)), S.add(S.mul(1440, first), i))))),
            ("there is a peak time range", s.peak_time_range is not None),
            ("power: every appliance has a power for every day", power_all(S, us, S.len(us), n)),
        ]

    raises = {"ValueError": ("only", None)}

    def ensures_exc(self, S, c):
        # refused only when some power series is too short: stated on the call that refused
        rs = [r for r in S.refusals(c) if r[0].startswith("Appliance.check_power_values")]
        return [("power: refused because of an appliance's power series", len(rs) >= 1)]

    def on_call(self, S, c, callee, ghost):
        if callee.startswith("Appliance.check_power_values"):
            top = S.eng.ctx.self
            S.eng.oblige(f"{self.short}: power checked for the number of days", S.eq(c.old.num_days, top._UseCase__num_days), "post")
        return ()

    def invariants(self, S, L):
        if L.func != "initialize":
            return []
        us = L.old.self.users
        nd = L.ctx.self._UseCase__num_days
        apps = L.ctx.self.appliances
        out = []
        if L.k is not None and nd is not None and S.is_int(nd):
            out.append(("power: enough values for the appliances so far", S.ForAll(0, L.k, lambda j: S.ge(S.len(S.at(apps, j).power), nd))))
            out.append(("power: constant powers stay the same on every day", S.every("Appliance", lambda a: constant_ok(S, a))))
        return out


def fresh_case(nm, ds, de, n, pe=ConstS(None)):
    cls = type("Init_" + nm, (_Init,), dict(
        case=nm,
        params=dict(self=ObjS("UseCase", _date_start=DateS() if ds else ConstS(None), _date_end=DateS() if de else ConstS(None),
                              days=ConstS(None), _UseCase__num_days=ConstS(None), _UseCase__datetimeindex=ConstS(None),
                              peak_time_range=ConstS(None)),
                    num_days=IntS(1) if n else ConstS(None), peak_enlarge=pe, force=BoolS())))
    contract(cls)


fresh_case("both dates", True, True, False)
fresh_case("both dates and a number of days", True, True, True)
fresh_case("start and a number of days", True, False, True)
fresh_case("end and a number of days", False, True, True)
fresh_case("a number of days", False, False, True)
fresh_case("both dates and a peak enlargement", True, True, False, RealS(0))


@contract
class InitAgain(Contract):
    """a second initialisation changes nothing unless forced"""

    target = C + "UseCase.initialize"
    props = ("C14",)
    case = "already initialised"
    params = dict(self=ObjS("UseCase"), num_days=OneOf(ConstS(None), IntS(1)), peak_enlarge=OneOf(ConstS(None), RealS(0)), force=ConstS(False))


def forced_case(nm, ds, de, n):
    """initialised before; the dates may have been changed since"""
    contract(type("Forced", (_Init,), dict(case="forced, " + nm, params=dict(
        self=ObjS("UseCase", _date_start=DateS() if ds else ConstS(None), _date_end=DateS() if de else ConstS(None)),
        num_days=IntS(1) if n else ConstS(None), peak_enlarge=ConstS(None), force=ConstS(True)))))


for _n, _t in ((True, " and a number of days"), (False, "")):
    forced_case("both dates" + _t, True, True, _n)
    forced_case("start" + _t, True, False, _n)
    forced_case("end" + _t, False, True, _n)
    forced_case("no date" + _t, False, False, _n)
