"""ramp/core/core.py, Appliance.generate_load_profile: one day of one appliance (steps 2a-2e together)"""
from pydv.registry import contract, Contract, lemma
from pydv.sorts import *
from .schema import windows_ok
from .appliance_c import A, cw_ok, spots_wf, spots_ordered, in_spot, event_power, RandTotalTime, _RandWindow

STANDBY = "0.001"


def parts_ok(S, a):
    """declared duty cycles last at least a minute and their windows belong to them (domain)"""
    out = []
    for i in (1, 2, 3):
        t1, t2, r = getattr(a, f"t_{i}1"), getattr(a, f"t_{i}2"), getattr(a, f"r_c{i}")
        out.append(S.Implies(S.ge(a.fixed_cycle, i), S.ge(
            S.add(S.trunc(S.mul(t1, S.sub(1, r))), S.trunc(S.mul(t2, S.sub(1, r)))), 1)))
    return S.And(*out)


def in_windows(S, W, m):
    return S.Or(*[S.And(S.le(S.at(w, 0), m), S.lt(m, S.at(w, 1))) for w in W])


def windows_disjoint(S, W):
    out = []
    for i in range(len(W)):
        for j in range(i):
            out.append(S.Or(S.le(S.at(W[i], 1), S.at(W[j], 0)), S.le(S.at(W[j], 1), S.at(W[i], 0))))
    return S.And(*out)


def others_skip(S, a, day_type):
    """reasons other than the occasional-use draw for which the appliance does not run"""
    return S.Or(
        S.And(S.ne(a.pref_index, 0), S.ne(a.user.rand_daily_pref, a.pref_index)),
        S.And(S.ne(a.wd_we_type, day_type), S.ne(a.wd_we_type, 2)),
        S.eq(a.func_time, 0),
    )


def drawn_windows(S, c):
    return [r.result for r in S.calls(c, "calc_rand_window")]


def cycle_powers(S, c):
    """powers drawn for the duty cycles of the day: [(declared cycle i, q_i1, q_i2)]"""
    for r in S.calls(c, "assign_random_cycles"):
        w = r.ctx.wit
        return [(i, w[f"q{i}1"], w[f"q{i}2"]) for i in (1, 2, 3)]
    return None


def demand(S, a, P, qs, k, x):
    """x is the demand of k units, k a whole number between 1 and the declared number"""
    plain = event_power(S, a, k, P, x)
    out = [S.between(1, k, a.number), S.Implies(S.le(a.fixed_cycle, 0), plain)]
    out.append(S.Implies(S.gt(a.fixed_cycle, 0), False if qs is None else S.Or(*[
        S.And(S.ge(a.fixed_cycle, i), S.Or(S.eq(x, S.mul(q1, k)), S.eq(x, S.mul(q2, k)))) for i, q1, q2 in qs])))
    return S.And(*out)


@contract
class GenerateDay(Contract):
    target = A + "generate_load_profile"
    props = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09")
    params = dict(self=ObjS("Appliance"), prof_i=IntS(0), peak_time_range=AffineS(1), day_type=IntS(0, 1), power=RealS(0))
    modifies = ("self.daily_use", "self.free_spots", "self.current_duty_cycle_id",
                "self.random_cycle1", "self.random_cycle2", "self.random_cycle3")
    ghost = dict(placed=IntS(), written=ArrS((1440,), "b"), units=ArrS((1440,), "i"))
    raises = {"ValueError": ("only", lambda S, c: S.Not(others_skip(S, c.self, c.day_type)))}
    budget_s = 400
    merge_ifs = False
    tags = {
        "a value for every minute": ("C01",),
        "powers of the duty cycles": ("C01", "C06"),
        "each window of the day moved": ("C03",),
        "no demand outside the windows": ("C03", "C09"),
        "flat: exactly": ("C09",),
        "standby or a demand inside": ("C01", "C03"),
        "runs only when": ("C08",),
        "skipped only for": ("C08",),
        "a skipped appliance": ("C08", "C01"),
        "the events together last": ("C02",),
        "demand only in the minutes of the events": ("C02",),
        "stops early only": ("C02",),
        "an event takes no minute": ("C04",),
    }

    def requires(self, S, c):
        a = c.self
        out = [
            ("declared windows are windows of the day", windows_ok(S, a)),
            ("cycle windows end no earlier than they start", cw_ok(S, a)),
            ("duty cycles last at least a minute", parts_ok(S, a)),
            ("the day has a declared power", S.lt(c.prof_i, S.len(a.power))),
            ("the power is the one declared for the day", S.eq(c.power, S.at(a.power, c.prof_i))),
        ]
        if "placed" in c.ghost.__dict__:
            out += [("nothing placed yet", S.eq(c.ghost.placed, 0)),
                    ("no minute written yet", S.ForAll(0, 1440, lambda m: S.Not(S.at(c.ghost.written, m))))]
        return out

    def on_call(self, S, c, callee, ghost):
        if callee == "Appliance.update_daily_use" and "placed" in ghost:
            lo, n = S.at(c.old.indexes, 0), S.len(c.old.indexes)
            hi = S.add(lo, n)
            W = drawn_windows(S, S.eng.ctx)
            old = ghost["written"]
            if len(W) == 3:
                S.eng.oblige(
                    "Appliance.generate_load_profile: an event takes no minute of an earlier event when the windows do not overlap",
                    S.Implies(windows_disjoint(S, W), S.ForAll(lo, hi, lambda m: S.Not(S.at(old, m)))), "post")
            new = S.eng.derived_arr((1440,), lambda m: S.Or(S.And(S.le(lo, m), S.lt(m, hi)), S.at(old, m)), "b")
            ou = ghost["units"]
            units = S.eng.derived_arr((1440,), lambda m: S.If(S.And(S.le(lo, m), S.lt(m, hi)), c.old.coincidence, S.at(ou, m)), "i")
            return [("placed", S.add(ghost["placed"], n)), ("written", new), ("units", units)]
        return ()

    def ensures(self, S, c):
        a, old = c.self, c.old.self
        du = a.daily_use
        zero = S.ForAll(0, 1440, lambda m: S.eq(S.at(du, m), 0))
        own = c.draws is not None
        P = S.at(old.power, c.prof_i)
        units = S.mul(old.number, P)

        def window_ok(i, w):
            class cc:
                pass

            cc.old, cc.result = c.old, w
            return S.And(*[f for _, f in type("_W", (_RandWindow,), dict(wi=i))().ensures(S, cc)])

        def runs(W, qs, k):
            """the appliance ran in the windows W of the day"""
            flat = S.eq(old.flat, "yes")
            near = lambda q, p: S.between(S.mul(p, S.sub(1, old.thermal_p_var)), q, S.mul(p, S.add(1, old.thermal_p_var)))
            return [
                ("powers of the duty cycles are the declared ones within the thermal variability", S.Or(flat, S.And(*[
                    S.Implies(S.ge(old.fixed_cycle, i), S.And(near(q1, getattr(old, f"p_{i}1")), near(q2, getattr(old, f"p_{i}2"))))
                    for i, q1, q2 in qs or []]))),
                ("each window of the day moved within its declared range", S.And(*[window_ok(i + 1, w) for i, w in enumerate(W)])),
                ("no demand outside the windows of the day", S.ForAll(0, 1440, lambda m: S.Implies(
                    S.Not(in_windows(S, W, m)), S.eq(S.at(du, m), 0)))),
                ("flat: exactly number*power inside the windows", S.Implies(flat, S.ForAll(0, 1440, lambda m: S.Implies(
                    in_windows(S, W, m), S.eq(S.at(du, m), units))))),
                ("standby or a demand inside the windows", S.Implies(S.Not(flat), S.ForAll(0, 1440, lambda m: S.Implies(
                    in_windows(S, W, m), S.Or(S.eq(S.at(du, m), S.R(STANDBY)), demand(S, old, P, qs, S.at(k, m), S.at(du, m))))))),
            ]

        out = [("a value for every minute of the day", S.eq(S.len(du), 1440))]
        if not own and getattr(S.eng.contract, "light_callees", False):
            return out  # the caller's argument needs no more than this
        skip = others_skip(S, old, c.day_type)
        if own:
            W = drawn_windows(S, c)
            qs = cycle_powers(S, c)
            occ = [S.And(S.eq(d.params["a"], 0), S.eq(d.params["b"], 1), S.gt(d.value, old.occasional_use))
                   for d in S.draws(c, "uniform")[:1]]
            if W:
                # a day on which the appliance runs
                out.append(("runs only when nothing forbids it", S.Not(skip)))
                out.append(("runs only when the occasional-use draw allows it", S.And(*[
                    S.And(S.eq(d.params["a"], 0), S.eq(d.params["b"], 1), S.le(d.value, old.occasional_use))
                    for d in S.draws(c, "uniform")[:1]] or [False])))
                out += runs(W[:3], qs, c.ghost.units)
                rt = [r.result for r in S.calls(c, "rand_total_time_of_use")]
                if rt:
                    flat = S.eq(old.flat, "yes")
                    out.append(("the events together last no longer than the time of use", S.Or(flat, S.le(c.ghost.placed, rt[0]))))
                    out.append(("demand only in the minutes of the events", S.Or(flat, S.ForAll(0, 1440, lambda m: S.Or(
                        S.at(c.ghost.written, m), S.eq(S.at(du, m), S.If(in_windows(S, W[:3], m), S.R(STANDBY), 0)))))))
                    sp = a.free_spots
                    out.append(("stops early only when no free stretch can hold an event", S.Or(
                        flat, S.eq(c.ghost.placed, rt[0]),
                        S.ForAll(0, S.len(sp), lambda i: S.lt(S.sub(S.at(sp, i).stop, S.at(sp, i).start), old.func_cycle)))))
            else:
                out.append(("skipped only for a declared reason", S.Or(skip, *occ)))
                out.append(("a skipped appliance demands nothing", zero))
        else:
            W = [S.eng.fresh(FixedListS(IntS(), IntS()), f"day.w{i}") for i in (1, 2, 3)]
            qs = [(i, S.eng.fresh(RealS(), f"day.q{i}1"), S.eng.fresh(RealS(), f"day.q{i}2")) for i in (1, 2, 3)]
            ran = S.eng.freshbool("day.ran")
            c.__dict__["ran"] = ran
            out.append(("a skipped appliance demands nothing", S.Or(ran, zero)))
            out.append(("never runs when something forbids it", S.Implies(ran, S.Not(skip))))
            for nm, f in runs(W, qs, S.eng.fresh(ArrS((1440,), "i"), "day.units")):
                out.append((nm, S.Implies(ran, f)))
        return out

    def invariants(self, S, L):
        if L.func != "generate_load_profile" or "placed" not in L.ghost.__dict__:
            return []
        c = L.ctx
        W = drawn_windows(S, c)
        if len(W) < 3:
            return []
        a, old = c.self, L.old.self
        du, sp, wr = a.daily_use, a.free_spots, L.ghost.written
        P = S.at(old.power, c.prof_i)
        qs = cycle_powers(S, c)
        out = [
            ("free stretches lie in the day", spots_wf(S, sp)),
            ("free stretches lie in the windows", S.ForAll(0, S.len(sp), lambda i: S.Or(
                S.le(S.at(sp, i).stop, S.at(sp, i).start),
                *[S.And(S.le(S.at(w, 0), S.at(sp, i).start), S.le(S.at(sp, i).stop, S.at(w, 1))) for w in W]))),
            ("free stretches are disjoint when the windows are", S.Implies(windows_disjoint(S, W), spots_ordered(S, sp))),
            ("minutes of events are not free", S.Implies(windows_disjoint(S, W), S.ForAll(0, S.len(sp), lambda i: S.ForAll(
                0, 1440, lambda m: S.Implies(S.at(wr, m), S.Not(in_spot(S, sp, i, m))))))),
            ("minutes outside the events hold the standby marker or nothing", S.ForAll(0, 1440, lambda m: S.Or(
                S.at(wr, m), S.eq(S.at(du, m), S.If(in_windows(S, W, m), S.R(STANDBY), 0))))),
            ("events lie in the windows", S.ForAll(0, 1440, lambda m: S.Implies(S.at(wr, m), in_windows(S, W, m)))),
            ("minutes of events hold a demand", S.ForAll(0, 1440, lambda m: S.Implies(
                S.at(wr, m), demand(S, old, P, qs, S.at(L.ghost.units, m), S.at(du, m))))),
        ]
        for r in S.calls(c, "rand_total_time_of_use"):
            out.append(("no more placed than the time of use", S.le(L.ghost.placed, r.result)))
        for nm, cur, ent in L.ints:
            if "." in nm:
                continue
            out.append((f"{nm} counts the minutes placed", S.eq(cur, L.ghost.placed)))
            for r in S.calls(c, "rand_total_time_of_use"):
                # a counter of the minutes left, negative at the end
                out.append((f"{nm} counts the minutes left", S.Implies(S.ge(cur, 0), S.eq(cur, S.sub(r.result, L.ghost.placed)))))
                out.append((f"{nm} is negative when all are placed", S.Or(S.ge(cur, 0), S.eq(L.ghost.placed, r.result))))
        return out
