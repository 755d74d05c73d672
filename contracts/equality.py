"""ramp/core/core.py: equality of appliances"""
from pydv.registry import contract, Contract
from pydv.sorts import *

C = "ramp.core.core:"
SCALARS = ("name", "number", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
           "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "random_var_w",
           *(f"{n}_{k}{i}" for k in (1, 2, 3) for n in "pt" for i in (1, 2)), "r_c1", "r_c2", "r_c3")
PAIRS = (*(f"cw{k}{i}" for k in (1, 2, 3) for i in (1, 2)), "window_1", "window_2", "window_3")


def same_pair(S, a, b):
    return S.And(S.eq(S.at(a, 0), S.at(b, 0)), S.eq(S.at(a, 1), S.at(b, 1)))


def same_series(S, a, b):
    return S.And(S.eq(S.len(a), S.len(b)), S.ForAll(0, S.len(a), lambda i: S.eq(S.at(a, i), S.at(b, i))))


def same_parameters(S, a, b):
    """every declared parameter is equal"""
    return S.And(*[S.eq(getattr(a, n), getattr(b, n)) for n in SCALARS],
                 *[same_pair(S, getattr(a, n), getattr(b, n)) for n in PAIRS], same_series(S, a.power, b.power))


@contract
class Equal(Contract):
    target = C + "Appliance.__eq__"
    merge_ifs = True
    props = ("C20",)
    params = dict(self=ObjS("Appliance"), other_appliance=ObjS("Appliance"))
    returns = BoolS()
    draws = False

    def value(self, S, c):
        """equal exactly when every declared parameter is equal"""
        return same_parameters(S, c.self, c.other_appliance)


@contract
class AddOne(Contract):
    target = C + "User._add_appliance_instance"
    props = ("C20",)
    case = "one appliance"
    params = dict(self=ObjS("User", usecase=AnyS()), appliances=ElemS("Appliance"))
    modifies = ("self.App_list", "appliances.name")
    modifies_elems = {"Appliance": ("name",)}
    precise_elems = modifies_elems
    draws = False

    def ensures(self, S, c):
        old, new = c.old.self.App_list, c.self.App_list
        app, was = c.appliances, c.old.appliances
        n = S.len(old)
        me = S.refid(was)
        dup = S.Exists(0, n, lambda i: S.Or(S.eq(old.ref(S.tz(i)), me), same_parameters(S, S.at(old, i), was)))
        prefix = S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))
        return [
            ("the other appliances keep their name", S.others_keep(c, "Appliance", "name", me)),
            ("the appliances already listed stay in front, in order", prefix),
            ("one equal to a listed one is skipped", S.Implies(dup, S.And(S.eq(S.len(new), n), S.eq(app.name, was.name)))),
            ("a new one is added exactly once, at the end", S.Implies(S.Not(dup), S.And(
                S.eq(S.len(new), S.add(n, 1)), S.is_elem(app, new, n)))),
            ("a new one without a name is named after its position", S.Implies(S.Not(dup), S.eq(
                app.name, S.If(S.eq(was.name, ""), S.text("appliance_", S.add(n, 1)), was.name)))),
        ]


@contract
class AddSeveral(Contract):
    """a list of appliances of any length"""

    target = C + "User._add_appliance_instance"
    props = ("C20",)
    case = "appliances"
    params = dict(self=ObjS("User", usecase=AnyS()), appliances=ObjListS("Appliance"))
    modifies = ("self.App_list",)
    modifies_elems = {"Appliance": ("name",)}
    precise_elems = modifies_elems
    draws = False

    def state(self, S, old, new, given, k):
        n = S.len(old)
        return [
            ("the appliances already listed stay in front, in order", S.And(S.le(n, S.len(new)), S.ForAll(
                0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i)))))),
            ("each one added is one of those given", S.ForAll(n, S.len(new), lambda i: S.Exists(
                0, k, lambda j: S.eq(new.ref(S.tz(i)), given.ref(S.tz(j)))))),
            ("none is added twice", S.ForAll(n, S.len(new), lambda i: S.ForAll(0, i, lambda j: S.ne(new.ref(S.tz(i)), new.ref(S.tz(j)))))),
            ("each one given is listed, or equal to a listed one", S.ForAll(0, k, lambda j: S.Exists(0, S.len(new), lambda i: S.Or(
                S.eq(new.ref(S.tz(i)), given.ref(S.tz(j))), same_parameters(S, S.at(new, i), S.at(given, j)))))),
        ]

    def ensures(self, S, c):
        return self.state(S, c.old.self.App_list, c.self.App_list, c.appliances, S.len(c.appliances))

    def invariants(self, S, L):
        if L.func != "_add_appliance_instance":
            return []
        return self.state(S, L.old.self.App_list, S.eng.ctx.self.App_list, S.eng.ctx.appliances, L.k)


@contract
class AddOther(Contract):
    """anything that is not an appliance is refused"""

    target = C + "User._add_appliance_instance"
    props = ("C20",)
    case = "no appliance"
    params = dict(self=ObjS("User", usecase=AnyS()), appliances=OneOf(
        ObjS("User"), ConstS(None), IntS(), FixedListS(ObjS("User")), FixedListS(IntS()), TupleS(StrS()), TupleS(ElemS("Appliance"), ObjS("User"))))
    modifies = ("self.App_list",)
    modifies_elems = {"Appliance": ("name",)}
    raises = {"TypeError": ("iff", lambda S, c: True)}
    draws = False
