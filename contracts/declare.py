"""ramp/core/core.py: declaring windows and duty cycles of an appliance"""
from pydv.registry import contract, Contract
from pydv.sorts import *

C = "ramp.core.core:"
WIN = lambda: MaybeS(PairS(0, 1440))


def width(S, w):
    return S.sub(S.at(w, 1), S.at(w, 0))


def pair_eq(S, a, b):
    return S.And(S.eq(S.len(a), S.len(b)), S.eq(S.at(a, 0), S.at(b, 0)), S.eq(S.at(a, 1), S.at(b, 1)))


def win(S, given, a, i):
    """bounds of window i once the declaration is stored"""
    v = getattr(a, f"window_{i}")
    before = (0, 1440) if i == 1 else (S.at(v, 0), S.at(v, 1))
    w = S.val(given[i])
    if w is None:
        return before
    return tuple(S.If(S.isnone(given[i]), before[j], S.at(w, j)) for j in (0, 1))


def given_windows(c):
    return {i: getattr(c, f"window_{i}") for i in (1, 2, 3)}


def bad_windows(S, given, a):
    """fewer windows than declared, or too short for the time of use"""
    missing = S.Or(
        S.And(S.isnone(given[2]), S.ge(a.num_windows, 2)),
        S.And(S.isnone(given[3]), S.eq(a.num_windows, 3)))
    tot = 0
    for i in (1, 2, 3):
        lo, hi = win(S, given, a, i)
        tot = S.add(tot, S.If(S.ge(a.num_windows, i), S.sub(hi, lo), 0))
    return S.Or(missing, S.lt(tot, a.func_time))


def windows_stored(S, given, rand, a, o):
    """a: the appliance afterwards, o: before"""
    out = [("the variability of the windows is stored", S.eq(a.random_var_w, rand))]
    ins = []
    for i in (1, 2, 3):
        lo, hi = win(S, given, o, i)
        w = getattr(a, f"window_{i}")
        out += [
            (f"window {i} is stored as given, as before otherwise", S.And(S.eq(S.len(w), 2), S.eq(S.at(w, 0), lo), S.eq(S.at(w, 1), hi))),
            (f"random range of window {i}: length times variability, rounded down", S.eq(
                getattr(a, f"random_var_{i}"), S.floor(S.mul(rand, S.sub(hi, lo))))),
        ]
        ins.append((lo, hi))
    out.append(("the daily use marks the declared windows", S.And(S.eq(S.len(a.daily_use), 1440), S.ForAll(0, 1440, lambda m: S.eq(
        S.at(a.daily_use, m), S.If(S.Or(*[S.And(S.le(l, m), S.lt(m, h)) for l, h in ins]), S.R("0.001"), 0))))))
    one = S.eq(o.fixed_cycle, 1)
    for k, i in (("cw11", 1), ("cw12", 2)):
        w, (lo, hi) = getattr(a, k), win(S, given, o, i)
        b = getattr(o, k)
        out.append((f"{k}: the window of use of a single duty cycle, as before otherwise", S.And(
            S.eq(S.at(w, 0), S.If(one, lo, S.at(b, 0))), S.eq(S.at(w, 1), S.If(one, hi, S.at(b, 1))))))
    return out


@contract
class AssignWindows(Contract):
    target = C + "Appliance._assign_windows"
    props = ("C16",)
    params = dict(self=ObjS("Appliance", user=ObjS("User", usecase=AnyS()), free_spots=AnyS()), window_1=WIN(), window_2=WIN(), random_var_w=RealS(0, 1), window_3=WIN())
    modifies = tuple("self." + x for x in (
        "window_1", "window_2", "window_3", "random_var_w", "random_var_1", "random_var_2", "random_var_3", "daily_use", "cw11", "cw12"))
    raises = {"InvalidWindow": ("iff", lambda S, c: bad_windows(S, given_windows(c), c.self))}

    def requires(self, S, c):
        g = given_windows(c)
        out = []
        for i in (1, 2, 3):
            w = S.val(g[i])
            if w is not None:
                out.append((f"window {i} ends no earlier than it starts", S.Or(S.isnone(g[i]), S.le(S.at(w, 0), S.at(w, 1)))))
            v = getattr(c.self, f"window_{i}")
            out.append((f"the window {i} there was ends no earlier than it starts", S.le(S.at(v, 0), S.at(v, 1))))
        return out

    def ensures(self, S, c):
        return windows_stored(S, given_windows(c), c.random_var_w, c.self, c.old.self)


def cycle_names(k):
    return (f"p_{k}1", f"t_{k}1", f"p_{k}2", f"t_{k}2", f"r_c{k}")


def cycle_stored(S, k, c, a, o):
    out = [(f"{n} is stored", S.eq(getattr(a, n), getattr(c, n))) for n in cycle_names(k)]
    for w in (f"cw{k}1", f"cw{k}2"):
        g, x, b = getattr(c, w), getattr(a, w), getattr(o, w)
        v = S.val(g)
        same = pair_eq(S, x, b)
        out.append((f"{w} is stored as given, as before otherwise", same if v is None else S.If(S.isnone(g), same, pair_eq(S, x, v))))
    return out


def _cycle(k):
    names = {f"p_{k}1": RealS(0), f"t_{k}1": IntS(0, 1440), f"p_{k}2": RealS(0), f"t_{k}2": IntS(0, 1440), f"r_c{k}": RealS(0, 1)}

    class Cycle(Contract):
        target = C + f"Appliance.specific_cycle_{k}"
        props = ("C16",)
        params = dict(self=ObjS("Appliance", free_spots=AnyS()), **names, **{f"cw{k}1": WIN(), f"cw{k}2": WIN()})
        modifies = tuple("self." + x for x in (*names, f"cw{k}1", f"cw{k}2"))

        def ensures(self, S, c):
            return cycle_stored(S, k, c, c.self, c.old.self)

    return contract(Cycle)


for _k in (1, 2, 3):
    _cycle(_k)

CW = ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32")


@contract
class CycleBehaviour(Contract):
    target = C + "Appliance.cycle_behaviour"
    props = ("C16",)
    params = dict(self=ObjS("Appliance", free_spots=AnyS()), **{w: PairS(0, 1440) for w in CW})
    modifies = tuple("self." + w for w in CW)

    def ensures(self, S, c):
        return [(f"{w} is stored", pair_eq(S, getattr(c.self, w), getattr(c, w))) for w in CW]
