"""ramp/core/utils.py: small pure functions"""
from pydv.registry import contract, Contract
from pydv.sorts import *

U = "ramp.core.utils:"


@contract
class RandomVariation(Contract):
    target = U + "random_variation"
    props = ("C01", "C02", "C06")
    params = dict(var=RealS(-1, 1), norm=RealS(0))
    returns = RealS()
    inline = True

    def ensures(self, S, c):
        v = S.abs(c.var)
        lo = S.mul(c.norm, S.sub(1, v))
        hi = S.mul(c.norm, S.add(1, v))
        return [("within norm*(1-|var|) .. norm*(1+|var|)", S.between(lo, c.result, hi))]


@contract
class DutyCycle(Contract):
    target = U + "duty_cycle"
    props = ("C06", "C07")
    params = dict(var=RealS(0, 1), t1=IntS(0, 1440), p1=RealS(0), t2=IntS(0, 1440), p2=RealS(0))
    returns = ArrS((None,), "f")

    def ensures(self, S, c):
        return [
            ("two stretches of the declared power and duration", S.some(
                c, [("n1", IntS(), lambda: part_candidates(S, c, c.t1)), ("n2", IntS(), lambda: part_candidates(S, c, c.t2))],
                lambda n1, n2: two_stretches(S, c.result, n1, n2, c.var, c.t1, c.p1, c.t2, c.p2)))
        ]


def part_len(S, n, t, var):
    return S.between(S.trunc(S.mul(t, S.sub(1, var))), n, S.trunc(S.mul(t, S.add(1, var))))


def two_stretches(S, a, n1, n2, var, t1, p1, t2, p2):
    return S.And(
        part_len(S, n1, t1, var),
        part_len(S, n2, t2, var),
        S.eq(S.len(a), S.add(n1, n2)),
        S.ForAll(0, S.len(a), lambda i: S.eq(S.at(a, i), S.If(S.lt(i, n1), p1, p2))),
    )


def part_candidates(S, c, t):
    return [S.trunc(S.mul(t, d.value)) for d in S.draws(c, "uniform")]


@contract
class RandomChoice(Contract):
    """either the duty cycle or the reversed duty cycle"""

    target = U + "random_choice"
    props = ("C06", "C07")
    params = dict(var=RealS(0, 1), t1=IntS(0, 1440), p1=RealS(0), t2=IntS(0, 1440), p2=RealS(0))
    returns = ArrS((None,), "f")

    def ensures(self, S, c):
        def cand(name):
            return lambda: [r.ctx.wit[name] for r in S.calls(c, "duty_cycle")]

        return [
            ("normal or reversed duty cycle", S.some(
                c, [("n1", IntS(), cand("n1")), ("n2", IntS(), cand("n2"))],
                lambda n1, n2: S.Or(
                    two_stretches(S, c.result, n1, n2, c.var, c.t1, c.p1, c.t2, c.p2),
                    two_stretches(S, c.result, n1, n2, c.var, c.t2, c.p2, c.t1, c.p1),
                ))),
        ]


def overlaps(S, lo, hi, w0, w1):
    """the runs of minutes lo..hi and w0..w1 (both inclusive) share a minute"""
    return S.And(S.le(lo, w1), S.le(w0, hi))


@contract
class RangeWithinWindow(Contract):
    target = U + "range_within_window"
    props = ("C15", "C07")
    params = dict(range_low=IntS(0, 1440), range_high=IntS(0, 1440), window=OneOf(PairS(0, 1440), PairS(0, 1440, aslist=True)))
    returns = BoolS()

    def requires(self, S, c):
        return [("the range is a range", S.le(c.range_low, c.range_high)),
                ("the window is a window", S.le(S.at(c.window, 0), S.at(c.window, 1)))]

    def ensures(self, S, c):
        w0, w1 = S.at(c.window, 0), S.at(c.window, 1)
        return [("true exactly when a minute is shared with a declared window", S.Iff(
            c.result, S.And(S.lt(w0, w1), overlaps(S, c.range_low, c.range_high, w0, w1))))]


@contract
class WithinPeak(Contract):
    target = U + "within_peak_time_window"
    props = ("C15", "C05")
    params = dict(win_start=IntS(0, 1440), win_stop=IntS(0, 1440), peak_win_start=IntS(), peak_win_stop=IntS())
    inline = True

    def requires(self, S, c):
        return [("the event is a run of minutes", S.le(c.win_start, c.win_stop)),
                ("the peak range is a run of minutes", S.le(c.peak_win_start, c.peak_win_stop))]

    def ensures(self, S, c):
        return [("on-peak exactly when a minute is shared", S.Iff(
            c.result, overlaps(S, c.win_start, c.win_stop, c.peak_win_start, c.peak_win_stop)))]
