"""ramp/core/utils.py: classification of days"""
from pydv.registry import contract, Contract
from pydv.sorts import *

U = "ramp.core.utils:"


def weekday(S, d):
    """0 for Monday .. 6 for Sunday; day 1 of the calendar (0001-01-01) is a Monday"""
    return S.mod(S.add(S.ordinal(d), 6), 7)


def weekend(S, d):
    return S.If(S.ge(weekday(S, d), 5), 1, 0)


@contract
class DayType(Contract):
    """1 exactly for Saturdays and Sundays"""

    target = U + "get_day_type"
    props = ("C15", "C10", "C11", "C08")
    case = "date"
    params = dict(day=OneOf(DateS(), DateS(is_date=True)))

    def value(self, S, c):
        return weekend(S, c.day)


@contract
class DayTypeText(Contract):
    target = U + "get_day_type"
    props = ("C15",)
    case = "ISO text"
    params = dict(day=StrS())
    raises = {"ValueError": ("iff", lambda S, c: S.Not(S.iso_valid(c.day)))}

    def value(self, S, c):
        return weekend(S, S.iso_date(c.day))


@contract
class YearlyPattern(Contract):
    target = U + "yearly_pattern"
    props = ("C15",)
    case = "no year"
    params = dict(year=ConstS(None))

    def ensures(self, S, c):
        return [
            ("one entry per day of a 365-day year", S.eq(S.len(c.result), 365)),
            ("starting on a Monday, Saturdays and Sundays marked", S.ForAll(0, 365, lambda i: S.eq(
                S.at(c.result, i), S.If(S.ge(S.mod(i, 7), 5), 1, 0)))),
        ]


@contract
class YearlyPatternYear(Contract):
    target = U + "yearly_pattern"
    props = ("C15",)
    case = "given year"
    params = dict(year=IntS(1678, 2261))

    def ensures(self, S, c):
        first, last = S.jan1(c.year), S.sub(S.jan1(S.add(c.year, 1)), 1)
        return [
            ("one entry per day of the year", S.eq(S.len(c.result), S.add(S.sub(last, first), 1))),
            ("Saturdays and Sundays marked", S.ForAll(0, S.len(c.result), lambda i: S.eq(
                S.at(c.result, i), S.If(S.ge(S.mod(S.add(first, i, 6), 7), 5), 1, 0)))),
        ]
