"""ramp/core/core.py: creation of appliances"""
import z3
from pydv.registry import contract, Contract
from pydv.sorts import *
from .calendar import constant_ok

C = "ramp.core.core:"
STORED = dict(
    number=IntS(1), num_windows=EnumS(1, 2, 3), func_time=IntS(0, 1440), time_fraction_random_variability=RealS(0, 1),
    func_cycle=IntS(1, 1440), fixed=EnumS("yes", "no"), fixed_cycle=IntS(0, 3), continuous_duty_cycle=IntS(0, 1),
    occasional_use=RealS(0, 1), flat=EnumS("yes", "no"), thermal_p_var=RealS(0, 1), pref_index=IntS(0, 3), wd_we_type=IntS(0, 2), name=StrS())
ZERO_PAIRS = (*(f"cw{k}{i}" for k in (1, 2, 3) for i in (1, 2)), "window_1", "window_2", "window_3")
ZERO = (*(f"{n}_{k}{i}" for k in (1, 2, 3) for n in "pt" for i in (1, 2)), "r_c1", "r_c2", "r_c3", "random_var_w",
        "random_var_1", "random_var_2", "random_var_3", "current_duty_cycle_id")
NONE_YET = dict(days=ConstS(None), _UseCase__num_days=ConstS(None), _UseCase__datetimeindex=ConstS(None), peak_time_range=ConstS(None))


class _New(Contract):
    target = C + "Appliance.__init__"
    props = ("C16", "C17")
    tags = {"power": ("C17",)}
    modifies = ("self.*",)
    sets = {"self.user": lambda args: args["user"]}
    havoc_sorts = {"self.free_spots": NoneS()}
    assumed_power = None

    def requires(self, S, c):
        return [("no power rating is negative", f) for f in self.assumed_power(S, c)] if self.assumed_power else []

    def ensures(self, S, c):
        a = c.self
        out = [(f"{n} is stored in the parameter of that name", S.eq(getattr(a, n), getattr(c, n))) for n in STORED]
        out.append(("the appliance belongs to the user", S.is_(a.user, c.user)))
        out += [(f"{n}: not declared yet", S.eq(getattr(a, n), 0)) for n in ZERO]
        out += [(f"{n}: not declared yet", S.And(S.eq(S.len(getattr(a, n)), 2), S.eq(S.at(getattr(a, n), 0), 0), S.eq(S.at(getattr(a, n), 1), 0)))
                for n in ZERO_PAIRS]
        return out + self.power(S, c)


def new_case(nm, sort, power, raises=None, user=None, assumed=None):
    users = dict(
        alone=ObjS("User", usecase=ConstS(None)),
        initialised=ObjS("User", usecase=ObjS("UseCase")),
        waiting=ObjS("User", usecase=ObjS("UseCase", **NONE_YET)))
    for u, us in users.items():
        if user and u != user:
            continue
        cls = type("New", (_New,), dict(
            case=f"{nm}, user {u}", params=dict(self=ObjS("Appliance"), user=us, power=sort, **STORED), power=power, raises=raises or {}, assumed_power=assumed))
        contract(cls)


def constant(self, S, c):
    p = c.self.power
    out = [
        ("power: constant on every day", S.And(S.ge(S.len(p), 1), S.ForAll(0, S.len(p), lambda d: S.eq(S.at(p, d), c.power)))),
        ("power: remembered as a constant", c.self._Appliance__constant_power),
    ]
    return out


def table(self, S, c):
    p, t = c.self.power, c.power
    return [
        ("power: the i-th value of the table on day i", S.And(
            S.eq(S.len(p), t.n), S.ForAll(0, S.len(p), lambda d: S.eq(S.at(p, d), t.get(S.tz(d), z3.IntVal(0)))))),
        ("power: not a constant", S.Not(c.self._Appliance__constant_power)),
    ]


def json_text(self, S, c):
    rows, val, cols = S.json(c.power)
    p = c.self.power
    return [
        ("power: the i-th value of the text on day i", S.And(
            S.eq(S.len(p), rows), S.ForAll(0, S.len(p), lambda d: S.eq(S.at(p, d), val(d, cols - 1))))),
        ("power: not a constant", S.Not(c.self._Appliance__constant_power)),
    ]


def refused(self, S, c):
    return [("power: an unsupported kind is refused", False)]


new_case("constant power", RealS(0), constant)
new_case("constant integer power", IntS(0), constant, user="alone")
def table_domain(self, S, c):
    return [S.ForAll(0, c.power.n, lambda d: S.ge(c.power.get(S.tz(d), z3.IntVal(0)), 0))]


def json_domain(self, S, c):
    rows, val, cols = S.json(c.power)
    return [S.ge(rows, 1), S.ge(cols, 1), S.ForAll(0, rows, lambda d: S.ge(val(d, cols - 1), 0))]


new_case("table", FrameS(1, 1), table, user="alone", assumed=table_domain)
new_case("JSON text", StrS(), json_text, user="alone", assumed=json_domain)
new_case("no power", ConstS(None), refused, raises={"ValueError": ("iff", lambda S, c: True)}, user="alone")
new_case("list of powers", ListS(RealS()), refused, raises={"ValueError": ("iff", lambda S, c: True)}, user="alone")
new_case("array of powers", ArrS((None,), "f"), refused, raises={"ValueError": ("iff", lambda S, c: True)}, user="alone")
