"""ramp/core/core.py: user categories added to a use case"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .calendar import constant_ok
from .peak import windows_all
from .schema import UNREAD

C = "ramp.core.core:"
CASE = ObjS("UseCase", **UNREAD)


def linked(S, u, case):
    return S.eq(S.refid(u.usecase), S.refid(case))


class _AddUser(Contract):
    target = C + "UseCase.add_user"
    props = ("C20",)
    modifies = ("self.users",)
    modifies_elems = {"User": ("usecase",)}
    precise_elems = modifies_elems
    draws = False


@contract
class AddUser(_AddUser):
    case = "a user"
    params = dict(self=CASE, user=ElemS("User"))
    modifies = ("self.users", "user.usecase")
    sets = {"user.usecase": lambda args: args["self"]}

    def ensures(self, S, c):
        old, new, n = c.old.self.users, c.self.users, S.len(c.old.self.users)
        me = S.refid(c.user)
        return [
            ("the other users stay where they are", S.others_keep(c, "User", "usecase", me)),
            ("the users already there stay in front, in order", S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))),
            ("the user is added once, at the end", S.And(S.eq(S.len(new), S.add(n, 1)), S.eq(new.ref(S.tz(n)), me))),
            ("the user is linked to the use case", linked(S, c.user, c.self)),
        ]


@contract
class AddUsers(_AddUser):
    """a list of users of any length"""

    case = "users"
    params = dict(self=CASE, user=ObjListS("User"))

    def requires(self, S, c):
        return [("the users given were created before", S.ForAll(0, S.len(c.user), lambda j: S.ge(c.user.ref(S.tz(j)), 0)))]

    def state(self, S, c, old, new, given, k):
        n = S.len(old)
        return [
            ("the users already there stay in front, in order", S.ForAll(0, n, lambda i: S.eq(new.ref(S.tz(i)), old.ref(S.tz(i))))),
            ("the users given follow, in order", S.And(S.eq(S.len(new), S.add(n, k)), S.ForAll(
                0, k, lambda j: S.eq(new.ref(S.tz(S.add(n, j))), given.ref(S.tz(j)))))),
            ("each is linked to the use case", S.ForAll(0, k, lambda j: linked(S, S.at(given, j), c.self))),
        ]

    def ensures(self, S, c):
        return self.state(S, c, c.old.self.users, c.self.users, c.user, S.len(c.user))

    def invariants(self, S, L):
        if L.func != "add_user":
            return []
        return self.state(S, S.eng.ctx, L.old.self.users, S.eng.ctx.self.users, S.eng.ctx.user, L.k)


@contract
class AddOther(_AddUser):
    """anything that is not a user is refused"""

    case = "no user"
    params = dict(self=CASE, user=OneOf(
        ObjS("Appliance", user=AnyS(), free_spots=AnyS()), ConstS(None), IntS(), StrS(), TupleS(ElemS("User")), FixedListS(IntS()), FixedListS(StrS()),
        FixedListS(ElemS("User"), ConstS(None)), FixedListS(ElemS("User"), FixedListS(StrS()))))
    raises = {"InvalidType": ("iff", lambda S, c: True)}


def midnight(S, t):
    return S.eq(S.mod(S.minutes(t), 1440), 0)


def the_date(S, v):
    """the date a text or a date stands for"""
    from pydv.values import Tok

    return S.iso_date(v) if isinstance(v, Tok) else v


class _New(Contract):
    """a use case is created: seeded first, then its users, then its calendar"""

    target = C + "UseCase.__init__"
    props = ("C21", "C20", "C14")
    seeds = True
    tags = {"seed": ("C21",), "drawn": ("C21",), "user": ("C20",), "calendar": ("C14",), "date": ("C14",), "minute": ("C14",)}
    modifies = ("self.*",)
    modifies_elems = {"User": ("usecase",), "Appliance": ("power",)}
    precise_elems = modifies_elems
    havoc_sorts = {"self." + k: v for k, v in UNREAD.items() if k != "appliances"}
    raises = {"ValueError": ("only", None)}
    dates = (False, False)

    def requires(self, S, c):
        out = []
        if c.users is not None:
            us = c.users
            out += [("the users given were created before", S.ForAll(0, S.len(us), lambda j: S.ge(us.ref(S.tz(j)), 0))),
                    ("every category has an appliance with proper windows", S.ForAll(0, S.len(us), lambda i: S.And(
                        S.ge(S.len(S.at(us, i).App_list), 1), windows_all(S, S.at(us, i)))))]
        out.append(("class invariant: constant powers are the same on every day", S.every("Appliance", lambda a: constant_ok(S, a))))
        for v in (c.date_start, c.date_end):
            if v is not None:
                d = the_date(S, v)
                if d is not v:
                    out.append(("the text is a date", S.And(S.iso_valid(v), S.ge(S.minutes(d), 1440))))
                out.append(("the date is a day", midnight(S, d)))
        if c.date_start is not None and c.date_end is not None:
            out.append(("the start is not after the end", S.le(S.ordinal(the_date(S, c.date_start)), S.ordinal(the_date(S, c.date_end)))))
        return out

    def seeded(self, S, c):
        if c.draws is None:  # at a call
            return []
        seeds = [i for i, e in enumerate(c.events) if e[0] == "seed"]
        drawn = [i for i, e in enumerate(c.events) if e[0] in ("draw", "draws", "other_rng")]
        if c.random_seed is None:
            return [("without a seed the generator is not seeded", not seeds)]
        return [
            ("the generator is seeded with the seed given, whatever it is", len(seeds) >= 1 and S.And(*[S.eq(c.events[i][1], c.old.random_seed) for i in seeds])),
            ("nothing is drawn before the generator is seeded", len(seeds) >= 1 and (not drawn or max(seeds) < drawn[0])),
        ]

    def ensures(self, S, c):
        s, o = c.self, c.old
        out = self.seeded(S, c)
        out += [("seed: remembered", s.random_seed is None if c.random_seed is None else S.eq(s.random_seed, o.random_seed))]
        if o.users is None:
            out.append(("no users", S.eq(S.len(s.users), 0)))
        else:
            g = o.users
            n = S.len(g)
            out += [
                ("the users given, in order", S.And(S.eq(S.len(s.users), n), S.ForAll(0, n, lambda j: S.eq(s.users.ref(S.tz(j)), g.ref(S.tz(j)))))),
                ("each user is linked to the use case", S.ForAll(0, n, lambda j: linked(S, S.at(c.users, j), s))),
            ]
        for k in ("start", "end"):
            d, x = getattr(o, "date_" + k), getattr(s, "_date_" + k)
            out.append((f"the {k} date is the one given", x is None if d is None else x is not None and S.eq(S.minutes(x), S.minutes(the_date(S, d)))))
        if o.date_start is None or o.date_end is None:
            out.append(("calendar: not initialised without both dates", S.And(s.days is None, s._UseCase__num_days is None, s.peak_time_range is None)))
            return out
        first = S.ordinal(the_date(S, o.date_start))
        n = S.add(S.sub(S.ordinal(the_date(S, o.date_end)), first), 1)
        days, idx = s.days, s._UseCase__datetimeindex
        if days is None or idx is None:
            return out + [("the calendar is set", False)]
        out += [
            ("calendar: the number of days", S.And(S.eq(s._UseCase__num_days, S.len(days)), S.eq(S.len(days), n))),
            ("calendar: consecutive days from the start", S.ForAll(0, n, lambda i: S.eq(S.minutes(S.at(days, i)), S.mul(1440, S.add(first, i))))),
            ("1440 minutes per day from midnight of the first day", S.And(
                S.eq(S.len(idx), S.mul(1440, n)), S.ForAll(0, S.len(idx), lambda i: S.eq(S.minutes(S.at(idx, i)), S.add(S.mul(1440, first), i))))),
        ]
        return out

    def ensures_exc(self, S, c):
        rs = [r for r in S.refusals(c) if r[0].startswith(("UseCase.initialize", "Appliance.check_power_values"))]
        return [("calendar: refused only because of a power series", len(rs) >= 1)] + self.seeded(S, c)


def new_case(nm, start, end):
    contract(type("NewCase", (_New,), dict(case=nm, params=dict(
        self=ObjS("UseCase"), name=StrS(), users=OneOf(ConstS(None), ObjListS("User")), date_start=start, date_end=end,
        parallel_processing=BoolS(), peak_enlarge=RealS(0), random_seed=OneOf(ConstS(None), IntS())))))


new_case("no dates", ConstS(None), ConstS(None))
new_case("one date", OneOf(ConstS(None), DateS()), OneOf(ConstS(None), StrS()))
new_case("both dates", DateS(), DateS())
new_case("both dates as text", StrS(), OneOf(StrS(), DateS()))


class _Setter(Contract):
    props = ("C14",)

    def requires(self, S, c):
        v = c.new_date
        d = None if v is None else the_date(S, v)
        return [("the text is a date", S.And(S.iso_valid(v), S.ge(S.minutes(d), 1440), midnight(S, d)))] if d is not v else []

    def ensures(self, S, c):
        v, x = c.old.new_date, getattr(c.self, self.attr)
        return [("the date is the one given", x is None if v is None else x is not None and S.eq(S.minutes(x), S.minutes(the_date(S, v))))]


for _k in ("start", "end"):
    contract(type("Set", (_Setter,), dict(
        target=C + f"UseCase.date_{_k}.setter", attr=f"_date_{_k}", havoc_sorts={f"self._date_{_k}": AnyS()}, modifies=(f"self._date_{_k}",),
        params=dict(self=ObjS("UseCase", **UNREAD), new_date=OneOf(ConstS(None), DateS(), StrS())))))
