"""ramp/core/core.py: User.add_appliance, one call that declares an appliance completely"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .construct import STORED, ZERO_PAIRS, NONE_YET, table_domain
from .declare import WIN, AssignWindows, bad_windows, cycle_names, given_windows, windows_stored
from .equality import SCALARS, PAIRS, same_parameters

C = "ramp.core.core:"
ORDER = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
         "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")
DEFAULTS = dict(
    number=1, power=0, num_windows=1, func_time=0, time_fraction_random_variability=0, func_cycle=1, fixed="no", fixed_cycle=0,
    continuous_duty_cycle=1, occasional_use=1, flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, name="")
CYCLES = {}
for _k in (1, 2, 3):
    CYCLES.update({f"p_{_k}1": RealS(0), f"t_{_k}1": IntS(0, 1440), f"p_{_k}2": RealS(0), f"t_{_k}2": IntS(0, 1440), f"r_c{_k}": RealS(0, 1),
                   f"cw{_k}1": PairS(0, 1440), f"cw{_k}2": PairS(0, 1440)})
WINDOWS = {f"window_{i}": PairS(0, 1440) for i in (1, 2, 3)} | {"random_var_w": RealS(0, 1)}
ALONE = ObjS("User", usecase=ConstS(None))


def one_cycle(k):
    return tuple(n for n in CYCLES if n[2 if n.startswith(("p_", "t_", "cw")) else 3] == str(k))


class _Add(Contract):
    target = C + "User.add_appliance"
    props = ("C16", "C20")
    tags = {"listed": ("C20",), "stored": ("C16",), "returned": ("C16", "C20"), "window": ("C16",), "cycle": ("C16",)}
    modifies = ("self.App_list", "kwargs")
    modifies_elems = {"Appliance": ("name",)}
    precise_elems = modifies_elems
    merge_ifs = True
    budget_s = 300
    table = False

    def arg(self, S, c, n):
        """what was given for the parameter, its default otherwise"""
        i = ORDER.index(n) if n in ORDER else None
        if i is not None and i < len(c.args):
            return c.args[i]
        return S.opt(c.kwargs, n, DEFAULTS.get(n, 0))

    def given(self, S, c):
        return {i: S.maybe(c.kwargs, f"window_{i}") for i in (1, 2, 3)}

    def any_window(self, S, c):
        return S.Or(*[S.has(c.kwargs, n) for n in WINDOWS])

    def requires(self, S, c):
        lst = c.self.App_list
        out = [("the appliances listed were created before", S.ForAll(0, S.len(lst), lambda i: S.ge(lst.ref(S.tz(i)), 0)))]
        for i in (1, 2, 3):
            g = S.maybe(c.kwargs, f"window_{i}")
            if g is not None:
                w = S.val(g)
                out.append((f"window {i} ends no earlier than it starts", S.Or(S.isnone(g), S.le(S.at(w, 0), S.at(w, 1)))))
        if self.table:
            out += [("no power rating is negative", f) for f in table_domain(self, S, type("N", (), {"power": c.kwargs.d["power"][1]}))]
        return out

    def refused(self, S, c):
        fresh = type("Fresh", (), {})()
        fresh.num_windows, fresh.func_time = self.arg(S, c, "num_windows"), self.arg(S, c, "func_time")
        for i in (1, 2, 3):
            setattr(fresh, f"window_{i}", (0, 0))
        return S.And(self.any_window(S, c), bad_windows(S, self.given(S, c), fresh))

    raises = {"InvalidWindow": ("iff", lambda S, c: S.eng.contract.refused(S, c))}

    def ensures(self, S, c):
        a, o = c.result, c.old
        if a is None:
            return [("the appliance is returned", False)]
        out = []
        for n in ORDER:
            if n in ("name", "power"):
                continue
            out.append((f"{n}: stored as given, its default otherwise", S.eq(getattr(a, n), self.arg(S, o, n))))
        pw = self.arg(S, o, "power")
        if self.table:
            out.append(("power stored: the i-th value of the table on day i", S.And(
                S.eq(S.len(a.power), pw.n), S.ForAll(0, S.len(a.power), lambda d: S.eq(S.at(a.power, d), pw.get(S.tz(d), S.tz(0)))))))
        else:
            out.append(("power stored: constant on every day", S.And(
                S.ge(S.len(a.power), 1), S.ForAll(0, S.len(a.power), lambda d: S.eq(S.at(a.power, d), pw)))))
        # windows
        given, anyw = self.given(S, o), self.any_window(S, o)
        rand = S.If(anyw, S.opt(o.kwargs, "random_var_w", 0), 0)
        out.append(("window variability stored", S.eq(a.random_var_w, rand)))
        ws = {}
        for i in (1, 2, 3):
            base = (S.If(anyw, 0, 0), S.If(anyw, 1440 if i == 1 else 0, 0))
            w = S.val(given[i])
            lo, hi = base if w is None else tuple(S.If(S.isnone(given[i]), base[j], S.at(w, j)) for j in (0, 1))
            ws[i] = lo, hi
            x = getattr(a, f"window_{i}")
            out.append((f"window {i} stored", S.And(S.eq(S.at(x, 0), lo), S.eq(S.at(x, 1), hi))))
            out.append((f"random range of window {i} stored", S.eq(getattr(a, f"random_var_{i}"), S.floor(S.mul(rand, S.sub(hi, lo))))))
        # duty cycles
        one = S.And(anyw, S.eq(self.arg(S, o, "fixed_cycle"), 1))
        for k in (1, 2, 3):
            for n in cycle_names(k):
                out.append((f"cycle {k}: {n} stored", S.eq(getattr(a, n), S.opt(o.kwargs, n, 0))))
            for j in (1, 2):
                n = f"cw{k}{j}"
                g, x = S.maybe(o.kwargs, n), getattr(a, n)
                w = S.val(g)
                for e in (0, 1):
                    dflt = S.If(one, ws[j][e], 0) if k == 1 else 0
                    out.append((f"cycle {k}: {n} stored", S.eq(S.at(x, e), dflt if w is None else S.If(S.isnone(g), dflt, S.at(w, e)))))
        # the list of the user
        old, new = o.self.App_list, c.self.App_list
        n = S.len(old)
        dup = S.Exists(0, n, lambda i: same_parameters_named(S, S.at(old, i), a, self.arg(S, o, "name")))
        out += [
            ("listed appliances stay in front, in order", S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))),
            ("listed appliances keep their name", S.others_keep(c, "Appliance", "name")),
            ("one equal to a listed one is not listed again", S.Implies(dup, S.eq(S.len(new), n))),
            ("a new one is listed exactly once, at the end, and returned", S.Implies(S.Not(dup), S.And(
                S.eq(S.len(new), S.add(n, 1)), S.is_elem(a, new, n)))),
            ("a new one without a name is named after its position when listed", S.eq(
                a.name, S.If(S.And(S.Not(dup), S.eq(self.arg(S, o, "name"), "")), S.text("appliance_", S.add(n, 1)), self.arg(S, o, "name")))),
        ]
        return out


def same_parameters_named(S, x, a, name):
    """x equals the new appliance as it was declared (before it is named after its position)"""
    b = type("Declared", (), {})()
    for n in (*SCALARS, *PAIRS, "power"):
        setattr(b, n, getattr(a, n))
    b.name = name
    return same_parameters(S, x, b)


def optional(names):
    out = {}
    for n in names:
        s = CYCLES.get(n) or WINDOWS.get(n) or (RealS(0) if n == "power" else STORED[n])
        out[n] = MaybeS(s)
    return out


def add_case(nm, npos=0, names=None, user=ALONE, **over):
    names = names if names is not None else [*ORDER[npos:], *WINDOWS, *CYCLES]
    pos = [RealS(0) if n == "power" else STORED[n] for n in ORDER[:npos]]
    contract(type("Add", (_Add,), dict(
        case=nm, params=dict(self=user, args=TupleS(*pos), kwargs=OptDictS(**{**optional(names), **over})), table="power" in over)))


add_case("by keyword")
REST = lambda k: [*ORDER[k:], *WINDOWS]
add_case("all parameters by position", 15, [*WINDOWS, *cycle_names(1), "cw11", "cw12"])
for _n in (1, 2, 4, 7, 10, 13):
    add_case(f"the first {_n} by position", _n, REST(_n))
add_case("table of powers", 0, REST(0), power=FrameS(1, 1))
add_case("a user of an initialised use case", 0, [*ORDER, *cycle_names(2)], user=ObjS("User", usecase=ObjS("UseCase")))
add_case("a user of a use case not initialised yet", 0, [*ORDER, *cycle_names(3)], user=ObjS("User", usecase=ObjS("UseCase", **NONE_YET)))


class _Refuse(_Add):
    """nothing is listed when the declaration is refused"""

    modifies = ("kwargs",)
    modifies_elems = {}
    precise_elems = {}
    merge_ifs = False

    def requires(self, S, c):
        return []

    def ensures(self, S, c):
        return [("the declaration is refused", False)]

    def ensures_exc(self, S, c):
        old, new = c.old.self.App_list, c.self.App_list
        return [("nothing is listed", S.And(S.eq(S.len(old), S.len(new)), S.ForAll(0, S.len(old), lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))))]


def refuse_case(nm, exc, **kw):
    contract(type("Refuse", (_Refuse,), dict(
        case=nm, raises={exc: ("iff", lambda S, c: True)}, params=dict(self=ALONE, args=TupleS(), kwargs=OptDictS(**kw)))))


refuse_case("unknown parameter", "TypeError", number=IntS(1), powr=RealS(0))
refuse_case("no power rating", "ValueError", power=ConstS(None))
refuse_case("list of powers", "ValueError", power=ListS(RealS()))


@contract
class AddInstance(Contract):
    """an appliance declared elsewhere"""

    target = C + "User.add_appliance"
    props = ("C20",)
    case = "an appliance"
    params = dict(self=ALONE, args=TupleS(ElemS("Appliance")), kwargs=OptDictS())
    modifies = ("self.App_list",)
    modifies_elems = {"Appliance": ("name",)}
    precise_elems = modifies_elems
    inline_calls = (C + "User._add_appliance_instance",)

    def ensures(self, S, c):
        a, was = c.args[0], c.old.args[0]
        old, new, n = c.old.self.App_list, c.self.App_list, S.len(c.old.self.App_list)
        me = S.refid(was)
        dup = S.Exists(0, n, lambda i: S.Or(S.eq(old.ref(S.tz(i)), me), same_parameters(S, S.at(old, i), was)))
        return [
            ("listed appliances stay in front, in order", S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))),
            ("one equal to a listed one is skipped", S.Implies(dup, S.eq(S.len(new), n))),
            ("a new one is added exactly once, at the end", S.Implies(S.Not(dup), S.And(S.eq(S.len(new), S.add(n, 1)), S.is_elem(a, new, n)))),
        ]


@contract
class AddTwo(AddInstance):
    case = "two appliances"
    params = dict(self=ALONE, args=TupleS(ElemS("Appliance"), ElemS("Appliance")), kwargs=OptDictS())

    def ensures(self, S, c):
        old, new = c.old.self.App_list, c.self.App_list
        n = S.len(old)
        out = [("listed appliances stay in front, in order", S.And(S.le(n, S.len(new)), S.le(S.len(new), S.add(n, 2)), S.ForAll(
            0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))))]
        for a in c.args:
            out.append(("each is listed, or equal to a listed one", S.Exists(0, S.len(new), lambda i: S.Or(
                S.eq(new.ref(S.tz(i)), S.refid(a)), same_parameters(S, S.at(new, i), a)))))
        return out


@contract
class AddMixed(_Refuse):
    case = "an appliance and something else"
    params = dict(self=ALONE, args=TupleS(ElemS("Appliance"), OneOf(IntS(), ConstS(None), ObjS("User"))), kwargs=OptDictS())
    props = ("C20",)
    modifies = ("self.App_list",)
    modifies_elems = {"Appliance": ("name",)}
    inline_calls = (C + "User._add_appliance_instance",)
    raises = {"TypeError": ("iff", lambda S, c: True)}

    def ensures_exc(self, S, c):
        return []


LEGACY = {"thermal_P_var": "thermal_p_var"}


@contract
class Legacy(_Add):
    """the deprecated way to declare an appliance: User.Appliance"""

    target = C + "User.Appliance"
    case = None
    inline_calls = (C + "User.add_appliance",)
    modifies = ("self.App_list",)
    params = dict(self=ALONE, **{
        {v: k for k, v in LEGACY.items()}.get(n, n): (RealS(0) if n == "power" else STORED[n]) for n in ORDER if n != "continuous_duty_cycle"})
    raises = {}

    def requires(self, S, c):
        lst = c.self.App_list
        return [("the appliances listed were created before", S.ForAll(0, S.len(lst), lambda i: S.ge(lst.ref(S.tz(i)), 0)))]

    def ensures(self, S, c):
        d = type("D", (), {})()
        d.d = {LEGACY.get(n, n): (True, getattr(c.old, n)) for n in self.params if n != "self"}
        c.kwargs, c.args = d, ()
        c.old.kwargs, c.old.args = d, ()
        return super().ensures(S, c)


@contract
class Windows(Contract):
    target = C + "Appliance.windows"
    props = ("C16", "C20")
    tags = {"listed": ("C20",), "stored": ("C16",), "InvalidWindow": ("C16",), "marks": ("C16",), "random range": ("C16",), "cw1": ("C16",)}
    params = dict(self=ObjS("Appliance", user=ObjS("User", usecase=AnyS()), free_spots=AnyS()),
                  window_1=WIN(), window_2=WIN(), random_var_w=RealS(0, 1), window_3=WIN())
    modifies = tuple("self." + x for x in (
        "window_1", "window_2", "window_3", "random_var_w", "random_var_1", "random_var_2", "random_var_3", "daily_use", "cw11", "cw12",
        "name", "user.App_list"))
    modifies_elems = {"Appliance": ("name",)}
    precise_elems = modifies_elems
    raises = {"InvalidWindow": ("iff", lambda S, c: bad_windows(S, given_windows(c), c.self))}

    def requires(self, S, c):
        return AssignWindows.requires(self, S, c)

    def ensures(self, S, c):
        old, new = c.old.self.user.App_list, c.self.user.App_list
        n = S.len(old)
        a, was = c.self, c.old.self
        me = S.refid(was)
        dup = S.Exists(0, n, lambda i: S.Or(S.eq(old.ref(S.tz(i)), me), same_parameters_named(S, S.at(old, i), a, was.name)))
        return windows_stored(S, given_windows(c), c.random_var_w, a, was) + [
            ("listed appliances stay in front, in order", S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))),
            ("one equal to a listed one is not listed again", S.Implies(dup, S.eq(S.len(new), n))),
            ("a new one is listed exactly once, at the end", S.Implies(S.Not(dup), S.And(S.eq(S.len(new), S.add(n, 1)), S.is_elem(a, new, n)))),
        ]
