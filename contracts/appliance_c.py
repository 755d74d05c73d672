"""ramp/core/core.py, class Appliance: the stochastic process (steps 2a-2e) under contract"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .schema import windows_ok
from .utils_c import overlaps, two_stretches, part_len

A = "ramp.core.core:Appliance."


# ---------------------------------------------------------------------------------------------- C03
class _RandWindow(Contract):
    target = A + "calc_rand_window"
    props = ("C03", "C01", "C09")
    returns = FixedListS(IntS(), IntS())
    wi = 1
    budget_s = 60

    def requires(self, S, c):
        return [("declared windows are windows of the day", windows_ok(S, c.self))]

    def ensures(self, S, c):
        w = getattr(c.old.self, f"window_{self.wi}")
        rv = getattr(c.old.self, f"random_var_{self.wi}")
        r0, r1 = S.at(c.result, 0), S.at(c.result, 1)
        return [
            ("inside the day, start no later than end", S.And(S.le(0, r0), S.le(r0, r1), S.le(r1, 1440))),
            ("start within its random range", S.between(S.max(0, S.sub(S.at(w, 0), rv)), r0, S.add(S.at(w, 0), rv))),
            ("end within its random range", S.between(S.sub(S.at(w, 1), rv), r1, S.min(1440, S.add(S.at(w, 1), rv)))),
        ]


for _i in (1, 2, 3):
    contract(
        type(
            f"RandWindow{_i}",
            (_RandWindow,),
            dict(wi=_i, case=f"window {_i}", params=dict(self=ObjS("Appliance"), window_idx=ConstS(_i))),
        )
    )


# ---------------------------------------------------------------------------------------------- C02
@contract
class RandTotalTime(Contract):
    target = A + "rand_total_time_of_use"
    props = ("C02",)
    _w = OneOf(FixedListS(IntS(0, 1440), IntS(0, 1440)))
    params = dict(self=ObjS("Appliance"), rand_window_1=FixedListS(IntS(0, 1440), IntS(0, 1440)),
                  rand_window_2=FixedListS(IntS(0, 1440), IntS(0, 1440)),
                  rand_window_3=FixedListS(IntS(0, 1440), IntS(0, 1440)))
    returns = IntS()

    @staticmethod
    def total(S, c):
        ws = (c.rand_window_1, c.rand_window_2, c.rand_window_3)
        return S.add(*[S.sub(S.at(w, 1), S.at(w, 0)) for w in ws])

    raises = {"ValueError": ("iff", lambda S, c: S.gt(c.self.func_cycle, S.mul(S.R("0.99"), RandTotalTime.total(S, c))))}

    def requires(self, S, c):
        return [("windows end no earlier than they start", S.And(
            *[S.le(S.at(w, 0), S.at(w, 1)) for w in (c.rand_window_1, c.rand_window_2, c.rand_window_3)]))]

    def lemmas(self, S, c):
        a = c.old.self
        r, ft = a.time_fraction_random_variability, a.func_time
        out = [("a share of the time", S.Implies(S.And(S.ge(ft, 0), S.ge(r, 0)), S.And(
            S.le(S.mul(ft, S.sub(1, r)), ft), S.le(ft, S.mul(ft, S.add(1, r))))))]
        for d in S.draws(c, "uniform")[:1]:
            x = d.value
            out.append(("monotone product", S.Implies(S.And(S.ge(ft, 0), S.ge(x, S.sub(1, r)), S.le(x, S.add(1, r))), S.And(
                S.le(S.mul(ft, S.sub(1, r)), S.mul(ft, x)), S.le(S.mul(ft, x), S.mul(ft, S.add(1, r)))))))
        for d in S.draws(c, "uniform")[1:2]:
            for n in (d.params["a"], d.params["b"]):
                u = d.value
                out.append(("rounding keeps whole bounds", S.And(
                    S.Implies(S.le(n, u), S.le(n, S.round(u))), S.Implies(S.le(u, n), S.le(S.round(u), n)))))
        return out

    def ensures(self, S, c):
        a = c.old.self
        avail = S.mul(S.R("0.99"), self.total(S, c))
        r, ft = a.time_fraction_random_variability, a.func_time
        lo, hi = S.mul(ft, S.sub(1, r)), S.mul(ft, S.add(1, r))
        return [
            ("at least the minimum switch-on duration", S.ge(c.result, a.func_cycle)),
            ("at most 99% of the time offered by the windows", S.le(c.result, avail)),
            ("not below (1-r) of the functioning time unless the windows are too short",
             S.Or(S.ge(S.add(c.result, 1), lo), S.gt(S.add(c.result, 1), avail))),
            ("not above (1+r) of the functioning time unless the minimum duration asks for it",
             S.Or(S.le(c.result, S.add(hi, 1)), S.eq(c.result, a.func_cycle))),
        ]


# ---------------------------------------------------------------------------------------------- C05
@contract
class Coincidence(Contract):
    target = A + "calc_coincident_switch_on"
    props = ("C05", "C01")
    params = dict(self=ObjS("Appliance"), inside_peak_window=BoolS())
    returns = IntS()

    def ensures(self, S, c):
        n = c.old.self.number
        fixed = S.eq(c.old.self.fixed, "yes")
        out = [
            ("between one and all units", S.between(1, c.result, n)),
            ("all units when the appliance is fixed", S.Implies(fixed, S.eq(c.result, n))),
        ]
        if c.draws is None:
            return out
        # distribution: which sample decides, and how
        from .params import calibration

        s, mu, op = calibration(S)
        peak = S.And(S.Not(fixed), c.inside_peak_window)
        offpeak = S.And(S.Not(fixed), S.Not(c.inside_peak_window))
        good_peak = S.Or(*[
            S.And(S.eq(d.params["mu"], S.mul(mu, n)), S.eq(d.params["sigma"], S.mul(s, mu, n)),
                  S.eq(c.result, S.min(n, S.max(1, S.ceil(d.value)))))
            for d in S.draws(c, "normal")] or [False])
        good_off = S.Or(*[
            S.And(S.eq(d.params["a"], 0), S.eq(d.params["b"], S.div(S.sub(n, op), n)),
                  S.le(S.sub(c.result, 1), S.mul(d.value, n)), S.lt(S.mul(d.value, n), c.result))
            for d in S.draws(c, "uniform")] or [False])
        out += [
            ("on-peak: rounded-up normal sample with mean mu*n and deviation s*mu*n, clipped", S.Implies(peak, good_peak)),
            ("off-peak: determined by a uniform sample of the off-peak probability", S.Implies(offpeak, good_off)),
        ]
        return out


# ---------------------------------------------------------------------------------------------- C06
def declared_cycle(S, a, i, arr, q1, q2, n1, n2):
    """arr is one of cycle i's declared cycles with powers q1, q2 varied by at most the thermal variability"""
    p1, p2 = getattr(a, f"p_{i}1"), getattr(a, f"p_{i}2")
    t1, t2, r = getattr(a, f"t_{i}1"), getattr(a, f"t_{i}2"), getattr(a, f"r_c{i}")
    v = a.thermal_p_var
    near = lambda q, p: S.between(S.mul(p, S.sub(1, v)), q, S.mul(p, S.add(1, v)))
    normal = two_stretches(S, arr, n1, n2, r, t1, q1, t2, q2)
    reverse = two_stretches(S, arr, n1, n2, r, t2, q2, t1, q1)
    return S.And(near(q1, p1), near(q2, p2), S.Or(normal, S.And(S.ge(a.fixed_cycle, 3), reverse)))


@contract
class AssignRandomCycles(Contract):
    target = A + "assign_random_cycles"
    props = ("C06", "C01", "C07")
    params = dict(self=ObjS("Appliance"))
    modifies = ("self.random_cycle1", "self.random_cycle2", "self.random_cycle3")

    def ensures(self, S, c):
        a = c.old.self
        calls = [] if c.draws is None else S.calls(c, "duty_cycle") + S.calls(c, "random_choice")

        def cand_p(arg, i, k):
            return lambda: [S.arg(r, arg) for r in calls]

        def cand_n(name):
            return lambda: [r.ctx.wit[name] for r in calls]

        out = []
        fc = a.fixed_cycle
        for i in (1, 2, 3):
            arr = getattr(c.self, f"random_cycle{i}")
            src_guard = S.ge(fc, i)

            def body(q1, q2, n1, n2, i=i, arr=arr):
                return declared_cycle(S, a, i, arr, q1, q2, n1, n2)

            if c.draws is None:
                ex = S.some(c, [(f"q{i}1", RealS(), None), (f"q{i}2", RealS(), None),
                                (f"n{i}1", IntS(), None), (f"n{i}2", IntS(), None)], body)
            else:
                ex = S.Or(*[body(S.arg(r, "p1"), S.arg(r, "p2"), r.ctx.wit["n1"], r.ctx.wit["n2"])
                            for r in calls if r.result is arr] or [False])
            out.append((f"cycle {i} has its declared shape and powers", S.Implies(src_guard, ex)))
            if i > 1:
                out.append((f"cycle {i} repeats the first when not declared separately", S.Implies(
                    S.And(S.ge(fc, 1), S.lt(fc, i)), S.eq(arr, c.self.random_cycle1))))
            old = getattr(c.old.self, f"random_cycle{i}")
            out.append((f"cycle {i} untouched without duty cycles", S.Implies(S.lt(fc, 1), S.eq(arr, old))))
        return out


# ---------------------------------------------------------------------------------------------- C04
def spots_wf(S, spots):
    """every free stretch is a stretch of the day"""
    return S.ForAll(0, S.len(spots), lambda i: S.And(
        S.le(0, S.at(spots, i).start), S.le(S.at(spots, i).start, S.at(spots, i).stop), S.le(S.at(spots, i).stop, 1440)))


def in_spot(S, spots, i, m):
    return S.And(S.le(S.at(spots, i).start, m), S.lt(m, S.at(spots, i).stop))


def is_free(S, spots, m, hints=()):
    return S.Exists(0, S.len(spots), lambda i: in_spot(S, spots, i, m), hints=hints)


def spots_ordered(S, spots):
    """the free stretches are pairwise disjoint"""
    return S.ForAll(0, S.len(spots), lambda i: S.ForAll(0, S.len(spots), lambda j: S.Or(
        S.eq(i, j), S.le(S.at(spots, i).stop, S.at(spots, j).start), S.le(S.at(spots, j).stop, S.at(spots, i).start))))


@contract
class UpdateFree(Contract):
    target = A + "update_available_time_for_switch_on_events"
    props = ("C04", "C03")
    params = dict(self=ObjS("Appliance"), indexes=AffineS(1))
    modifies = ("self.free_spots",)
    merge_ifs = False

    def requires(self, S, c):
        sp = c.self.free_spots
        lo = S.at(c.indexes, 0)
        hi = S.add(lo, S.len(c.indexes))
        return [
            ("free stretches lie in the day", spots_wf(S, sp)),
            ("the event lies in one free stretch", S.Exists(0, S.len(sp), lambda i: S.And(
                S.le(S.at(sp, i).start, lo), S.le(hi, S.at(sp, i).stop)))),
        ]

    def ensures(self, S, c):
        c.__dict__.setdefault("top", True)
        old, new = c.old.self.free_spots, c.self.free_spots
        lo = S.at(c.indexes, 0)
        hi = S.add(lo, S.len(c.indexes))
        disjoint = spots_ordered(S, old)
        return [
            ("free stretches lie in the day", spots_wf(S, new)),
            ("disjoint stretches stay disjoint", S.Implies(disjoint, spots_ordered(S, new))),
            ("no stretch grows or appears elsewhere", S.ForAll(0, S.len(new), lambda k: S.Exists(0, S.len(old), lambda i: S.And(
                S.le(S.at(old, i).start, S.at(new, k).start), S.le(S.at(new, k).stop, S.at(old, i).stop))))),
            ("the minutes of the event are not free any more", S.Implies(disjoint, S.ForAll(0, S.len(new), lambda k: S.Or(
                S.le(S.at(new, k).stop, S.at(new, k).start), S.le(S.at(new, k).stop, lo), S.le(hi, S.at(new, k).start))))),
            ("every other free minute stays free", S.ForAll(0, S.len(old), lambda i: S.ForAll(0, 1440, lambda m: S.Implies(
                S.And(in_spot(S, old, i, m), S.Or(S.lt(m, lo), S.le(hi, m))),
                is_free(S, new, m, hints=() if c.draws is None or not getattr(c, "top", False) else (i, S.add(i, 1), S.sub(i, 1))))))),
        ]


# ---------------------------------------------------------------------------------------------- C04, C07
def hits(S, a, lo, hi, i):
    """the run lo..hi overlaps one of the declared windows of cycle i"""
    out = []
    for k in (1, 2):
        w = getattr(a, f"cw{i}{k}")
        out.append(S.And(S.lt(S.at(w, 0), S.at(w, 1)), overlaps(S, lo, hi, S.at(w, 0), S.at(w, 1))))
    return S.Or(*out)


def chosen(S, a, lo, hi, ident):
    h1, h2, h3 = hits(S, a, lo, hi, 1), hits(S, a, lo, hi, 2), hits(S, a, lo, hi, 3)
    return S.And(
        S.Or(h1, h2, h3),
        S.eq(ident, S.If(h1, 1, S.If(h2, 2, 3))),
    )


def cw_ok(S, a):
    return S.And(*[S.le(S.at(getattr(a, f"cw{i}{k}"), 0), S.at(getattr(a, f"cw{i}{k}"), 1)) for i in (1, 2, 3) for k in (1, 2)])


def cycle_len(S, a, ident):
    return S.If(S.eq(ident, 1), S.len(a.random_cycle1), S.If(S.eq(ident, 2), S.len(a.random_cycle2), S.len(a.random_cycle3)))


def cycles_nonempty(S, a):
    return S.And(*[S.Implies(S.Or(S.lt(S.at(getattr(a, f"cw{i}1"), 0), S.at(getattr(a, f"cw{i}1"), 1)),
                                  S.lt(S.at(getattr(a, f"cw{i}2"), 0), S.at(getattr(a, f"cw{i}2"), 1))),
                             S.ge(S.len(getattr(a, f"random_cycle{i}")), 1)) for i in (1, 2, 3)])


@contract
class SwitchOn(Contract):
    target = A + "rand_switch_on_window"
    props = ("C04", "C07", "C02")
    params = dict(self=ObjS("Appliance"), rand_time=IntS(1))
    modifies = ("self.current_duty_cycle_id",)
    returns = MaybeS(AffineS(0))
    budget_s = 300

    def requires(self, S, c):
        a = c.self
        return [
            ("free stretches lie in the day", spots_wf(S, a.free_spots)),
            ("time of use can hold a minimum switch-on event", S.ge(c.rand_time, a.func_cycle)),
            ("cycle windows end no earlier than they start", cw_ok(S, a)),
            ("duty cycles last at least a minute", S.Implies(S.gt(a.fixed_cycle, 0), cycles_nonempty(S, a))),
        ]

    def ensures(self, S, c):
        a, old = c.self, c.old.self
        sp = old.free_spots
        none = S.isnone(c.result)
        nothing_fits = S.ForAll(0, S.len(sp), lambda i: S.lt(S.sub(S.at(sp, i).stop, S.at(sp, i).start), old.func_cycle))
        out = [("nothing found only when no free stretch can hold an event", S.Implies(none, nothing_fits))]
        if none is True:
            return out
        r = S.val(c.result)
        lo, n = S.at(r, 0), S.len(r)
        ident = a.current_duty_cycle_id
        full_end = "full_end"
        once = S.And(S.gt(old.fixed_cycle, 0), S.eq(old.continuous_duty_cycle, 0))
        clen = cycle_len(S, old, ident)

        def event(k, hi):
            """drawn event lo..hi lies in free stretch k; the result is that event, cut to its cycle if in once mode"""
            return S.And(
                S.le(0, k), S.lt(k, S.len(sp)),
                S.le(S.at(sp, k).start, lo), S.le(hi, S.at(sp, k).stop),
                S.between(old.func_cycle, S.sub(hi, lo), c.rand_time),
                S.Implies(S.Not(once), S.eq(n, S.sub(hi, lo))),
                S.Implies(once, S.eq(n, S.min(S.sub(hi, lo), clen))),
                S.Implies(S.gt(old.fixed_cycle, 0), chosen(S, old, lo, S.sub(hi, 1), ident)),
            )

        def some_k(hi):
            return S.Exists(0, S.len(sp), lambda k: event(k, hi))

        def cand():
            r_ = [S.add(lo, n)]
            r_ += [S.add(lo, S.trunc(d.value)) for d in S.draws(c, "uniform")]
            r_ += [S.add(lo, d.value) for d in S.draws(c, "randint")]
            r_ += [S.add(lo, old.func_cycle)]
            r_ += [q.ctx.wit["hi"] for q in S.calls(c, "rand_switch_on_window") if "wit" in q.ctx.__dict__]
            return r_

        out += [
            ("the event is a run of at least one minute", S.Or(none, S.ge(n, 1))),
            ("the event lies in a free stretch, lasts at least the minimum duration and at most the time of use",
             S.Or(none, S.some(c, [("hi", IntS(), cand)], some_k))),
        ]
        return out

    def invariants(self, S, L):
        sp = L.old.self.free_spots
        fc = L.old.self.func_cycle
        out = []
        for nm, cur, ent in L.lists:
            if cur is ent:
                continue
            if L.k is not None:
                def inv(cur=cur):
                    return S.ForAll(0, S.len(cur), lambda i: S.Exists(0, L.k, lambda k: S.And(
                        S.le(S.at(sp, k).start, S.at(cur, i)), S.le(S.at(cur, i), S.sub(S.at(sp, k).stop, fc)))))

                def inv2(cur=cur):
                    return S.Implies(S.Exists(0, L.k, lambda k: S.ge(S.sub(S.at(sp, k).stop, S.at(sp, k).start), fc)),
                                     S.gt(S.len(cur), 0))

                from pydv.values import Unsupported

                for n2, f in ((f"{nm}: every choice is a start minute in a stretch seen so far", inv),
                              (f"{nm}: a stretch with room seen so far offers a choice", inv2)):
                    try:
                        out.append((n2, f()))
                    except Unsupported:
                        pass
        return out


# ---------------------------------------------------------------------------------------------- C07, C01, C04
def event_power(S, a, k, P, x):
    """x is k units at power P, within the thermal variability"""
    base = S.mul(k, P)
    return S.between(S.mul(base, S.sub(1, a.thermal_p_var)), x, S.mul(base, S.add(1, a.thermal_p_var)))


@contract
class UpdateDailyUse(Contract):
    target = A + "update_daily_use"
    props = ("C07", "C01", "C03", "C04")
    params = dict(self=ObjS("Appliance"), coincidence=IntS(1), power=RealS(0), indexes=AffineS(1))
    modifies = ("self.daily_use", "self.free_spots")
    merge_ifs = False

    def requires(self, S, c):
        a = c.self
        return UpdateFree().requires(S, c) + [
            ("a duty cycle was chosen", S.Implies(S.gt(a.fixed_cycle, 0), S.And(
                S.between(1, a.current_duty_cycle_id, 3), S.ge(cycle_len(S, a, a.current_duty_cycle_id), 1))))]

    def ensures(self, S, c):
        a, old = c.self, c.old.self
        lo = S.at(c.indexes, 0)
        n = S.len(c.indexes)
        hi = S.add(lo, n)
        k = c.coincidence
        cyc = S.gt(old.fixed_cycle, 0)
        ident = old.current_duty_cycle_id

        def plays(cycle, m):
            j = S.sub(m, lo)
            return S.eq(S.at(a.daily_use, m), S.mul(S.at(cycle, S.mod(j, S.len(cycle))), k))

        c.__dict__["top"] = False
        out = [
            ("no minute outside the event changes", S.ForAll(0, 1440, lambda m: S.Implies(
                S.Or(S.lt(m, lo), S.le(hi, m)), S.eq(S.at(a.daily_use, m), S.at(old.daily_use, m))))),
            ("the minutes of the event receive the power of the coincident units", S.Implies(S.Not(cyc), S.ForAll(
                0, 1440, lambda m: S.Implies(S.And(S.le(lo, m), S.lt(m, hi)), event_power(S, old, k, c.power, S.at(a.daily_use, m)))))),
        ]
        for i in (1, 2, 3):
            cycle = getattr(old, f"random_cycle{i}")
            out.append((f"the minutes of the event play cycle {i} in order", S.Implies(
                S.And(cyc, S.eq(ident, i)), S.ForAll(lo, hi, lambda m, cycle=cycle: plays(cycle, m)))))
        return out + UpdateFree().ensures(S, c)
