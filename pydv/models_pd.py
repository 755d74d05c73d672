"""datetime and the calendar part of pandas as seen by the verifier.

A date or time is its number of minutes since the start of the proleptic Gregorian calendar (exact integers; the
repository uses no finer resolution). A DatetimeIndex is a start, a number of entries and a constant step.
"""
import re
import z3
from .values import *
from . import sorts as so

DAY = 1440
ymd_ord = z3.Function("ymd_ordinal", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
PART = {n: z3.Function(n + "_of", z3.IntSort(), z3.IntSort()) for n in ("year", "month", "day")}
iso_min = z3.Function("iso_minutes", StrSort, z3.IntSort())
iso_ok = z3.Function("iso_valid", StrSort, z3.BoolSort())


class DateIdx(Heap):
    """pd.DatetimeIndex: start, start+step, ... (n entries)"""

    def __init__(self, start, n, step, oid=None):
        self.start, self.n, self.step, self.oid = start, n, step, oid

    def length(self):
        return self.n

    def at(self, i):
        return DateV(simp(tz(self.start) + tz(i) * tz(self.step)))

    def __repr__(self):
        return "DatetimeIndex"


def jan1(E, y):
    """ordinal of the first of January"""
    if isinstance(y, int):
        p = y - 1
        return 365 * p + p // 4 - p // 100 + p // 400 + 1
    p = tz(y) - 1
    return 365 * p + p / 4 - p / 100 + p / 400 + 1


def ordinal(E, y, m, d):
    y, m, d = simp(y), simp(m), simp(d)
    if all(isinstance(x, int) for x in (y, m, d)):
        import datetime

        try:
            return datetime.date(y, m, d).toordinal()
        except ValueError as e:
            raise PyExc("ValueError", str(e))
    if isinstance(m, int) and isinstance(d, int):
        if (m, d) == (1, 1):
            return jan1(E, y)
        if (m, d) == (12, 31):
            return jan1(E, E.num_binop("Add", y, 1)) - 1
    if isinstance(m, int) and not isinstance(y, int):
        from .models_cli import leap, month_days

        if isinstance(d, int) and not 1 <= d <= (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1] or not 1 <= m <= 12:
            raise PyExc("ValueError", "day is out of range for month")
        if not isinstance(d, int) or d == 29 and m == 2:
            if not E.decide(z3.And(tz(d) >= 1, tz(d) <= tz(month_days(E, y, m))), "day of the month"):
                raise PyExc("ValueError", "day is out of range for month")
        before = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)[m - 1]
        return simp(jan1(E, y) + before + (z3.If(leap(y), 1, 0) if m > 2 else 0) + tz(d) - 1)
    return ymd_ord(tz(y), tz(m), tz(d))


def to_date(E, v, is_date=False):
    """what pandas or fromisoformat reads a date argument as"""
    v = E.force(v)
    if isinstance(v, DateV):
        return v
    if isinstance(v, str):
        import datetime

        try:
            d = datetime.datetime.fromisoformat(v)
        except ValueError as e:
            raise PyExc("ValueError", str(e))
        return DateV(d.toordinal() * DAY + d.hour * 60 + d.minute, is_date)
    if isinstance(v, FStr):
        p = v.parts
        m = re.fullmatch(r"-(\d\d?)-(\d\d?)(?:[ T](\d\d):(\d\d))?", p[1]) if len(p) == 2 and is_int(p[0]) and isinstance(p[1], str) else None
        if m:
            a, b, hh, mm = [int(x or 0) for x in m.groups()]
            return DateV(simp(tz(ordinal(E, p[0], a, b)) * DAY + hh * 60 + mm), is_date)
        raise Unsupported(f"date text {v!r}")
    if isinstance(v, Tok):
        if not E.decide(iso_ok(v.term), "ISO date"):
            raise PyExc("ValueError", "Invalid isoformat string")
        m = iso_min(v.term)
        E.assume(m >= DAY)
        if is_date:
            E.assume(m % DAY == 0)
        return DateV(m, is_date)
    raise Unsupported(f"date from {v!r}")


def step_of(E, freq):
    freq = "D" if freq is None else freq
    m = {"D": DAY, "d": DAY, "min": 1, "T": 1, "1min": 1, "h": 60, "H": 60, "60min": 60, "1D": DAY}
    if isinstance(freq, str) and freq in m:
        return m[freq]
    raise Unsupported(f"frequency {freq!r}")


def date_range(E, start=None, end=None, periods=None, freq=None, **k):
    if k:
        raise Unsupported(f"date_range({sorted(k)})")
    start, end, periods = E.force(start), E.force(end), E.force(periods)
    st = step_of(E, freq)
    if sum(x is not None for x in (start, end, periods)) != 2:
        raise PyExc("ValueError", "of the three parameters start, end and periods exactly two must be given")
    if periods is not None:
        n = simp(num(periods))
        if not E.decide(E.cmp_num(lambda a, b: a >= b, n, 0), "periods"):
            raise PyExc("ValueError", "periods must not be negative")
        if start is not None:
            return DateIdx(to_date(E, start).minutes, n, st, E.new_oid())
        e = to_date(E, end).minutes
        return DateIdx(simp(tz(e) - (tz(n) - 1) * st), n, st, E.new_oid())
    a, b = to_date(E, start).minutes, to_date(E, end).minutes
    d = tz(b) - tz(a)
    n = simp(z3.If(d >= 0, (d if st == 1 else d / st) + 1, z3.IntVal(0)))
    return DateIdx(a, n, st, E.new_oid())


def timedelta(E, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    if any(E.force(x) != 0 for x in (seconds, microseconds, milliseconds)):
        raise Unsupported("timedelta below a minute")
    f = E.num_binop
    t = f("Add", f("Mult", num(days), DAY), f("Add", num(minutes), f("Add", f("Mult", num(hours), 60), f("Mult", num(weeks), 7 * DAY))))
    return DeltaV(simp(t))


def pd_timedelta(E, value=None, unit=None, **k):
    if value is None:
        return timedelta(E, **k)
    u = {"d": DAY, "D": DAY, "min": 1, "m": 1, "h": 60, "minute": 1, "day": DAY, "days": DAY, "minutes": 1}
    if unit is None and isinstance(value, str):
        parts = value.split()
        if len(parts) == 1 and value[:-3].isdigit() and value.endswith("min"):
            parts = [value[:-3], "min"]
        if len(parts) == 2 and parts[0].isdigit() and parts[1] in u:
            return DeltaV(int(parts[0]) * u[parts[1]])
    if unit in u and is_int(value):
        return DeltaV(E.num_binop("Mult", value, u[unit]))
    raise Unsupported("Timedelta")


def date_binop(E, op, a, b):
    if isinstance(a, DateV) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        return DateV(E.num_binop(op, a.minutes, b.minutes), a.is_date)
    if isinstance(a, DeltaV) and isinstance(b, DateV) and op == "Add":
        return DateV(E.num_binop(op, a.minutes, b.minutes), b.is_date)
    if isinstance(a, DateV) and isinstance(b, DateV) and op == "Sub":
        return DeltaV(E.num_binop(op, a.minutes, b.minutes))
    if isinstance(a, DeltaV) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        return DeltaV(E.num_binop(op, a.minutes, b.minutes))
    if isinstance(a, DeltaV) and is_int(b) and op == "Mult":
        return DeltaV(E.num_binop(op, a.minutes, b))
    if isinstance(a, DeltaV) and isinstance(b, DeltaV) and op in ("FloorDiv",):
        return E.num_binop(op, a.minutes, b.minutes)
    return NotImplemented


def idx_binop(E, op, a, b):
    if isinstance(a, DateIdx) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        return DateIdx(E.num_binop(op, a.start, b.minutes), a.n, a.step, E.new_oid())
    return NotImplemented


def today(E, *a, **k):
    t = E.freshint("today", 1 * DAY)
    from .builtins_ import draw

    draw(E, "today", {}, t)
    return DateV(t)


def div_exact(m, n):
    """m / n when every summand of m is a multiple of n, else None"""
    m = z3.simplify(m, som=True)
    out = []
    for c in (m.children() if z3.is_add(m) else [m]):
        if z3.is_int_value(c) and c.as_long() % n == 0:
            out.append(z3.IntVal(c.as_long() // n))
        elif z3.is_mul(c) and z3.is_int_value(c.children()[0]) and c.children()[0].as_long() % n == 0:
            k, rest = c.children()[0].as_long() // n, c.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            out.append(r if k == 1 else k * r)
        else:
            return None
    return simp(z3.Sum(out)) if len(out) > 1 else out[0]


def ord_of(E, d):
    m = simp(d.minutes)
    if isinstance(m, int):
        return m // DAY
    q = div_exact(m, DAY)
    if q is not None:
        return q
    return simp(tz(m) / DAY)


def part(n):
    def f(E, d):
        m = simp(d.minutes)
        if isinstance(m, int):
            import datetime

            return getattr(datetime.date.fromordinal(m // DAY), n)
        o = tz(ord_of(E, d))
        y = PART["year"](o)
        E.assume(ymd_ord(y, PART["month"](o), PART["day"](o)) == o)
        E.assume(z3.And(PART["month"](o) >= 1, PART["month"](o) <= 12, PART["day"](o) >= 1, PART["day"](o) <= 31))
        E.assume(z3.And(tz(jan1(E, y)) <= o, o < tz(jan1(E, y + 1)), y >= 1))
        return PART[n](o)

    f.is_attr = True
    return f


def weekday(E, d):
    o = ord_of(E, d)
    return (o + 6) % 7 if isinstance(o, int) else (tz(o) + 6) % 7


def isoweekday(E, d):
    return E.num_binop("Add", weekday(E, d), 1)


def mk_datetime(E, year, month, day, hour=0, minute=0, **k):
    o = ordinal(E, num(year), num(month), num(day))
    f = E.num_binop
    return DateV(simp(f("Add", f("Mult", o, DAY), f("Add", f("Mult", num(hour), 60), num(minute)))))


def mk_date(E, year, month, day):
    y, m, d = num(E.force(year)), num(E.force(month)), num(E.force(day))
    r = DateV(mk_datetime(E, y, m, d).minutes, True)
    r.ymd = (y, m, d)
    return r


def idx_getitem(E, o, i):
    if isinstance(i, SliceV):
        if i.step is not None:
            raise Unsupported("index slice with step")
        st, n = E.slice_bounds(i, o.n)
        return DateIdx(simp(tz(o.start) + tz(st) * tz(o.step)), n, o.step, E.new_oid())
    return o.at(E.norm_index(i, o.n, what="index out of bounds"))


def idx_map(E, o, f):
    """a value per date"""
    n = o.n
    # the function is applied to an arbitrary entry; its result as a function of the entry
    k = E.freshint("map.k", 0)
    return MapV(o, f)


class MapV(Heap):
    def __init__(self, idx, f):
        self.idx, self.f, self.oid = idx, f, None


def attr(f):
    f.is_attr = True
    return f


def install(E):
    E.ext_consts = getattr(E, "ext_consts", {})
    X, V = E.ext, E.valmeth
    type(E).date_index = lambda self, start, n, step: DateIdx(start, n, step, self.new_oid())
    X["pandas.date_range"] = date_range
    X["datetime.timedelta"] = timedelta
    X["pandas.Timedelta"] = pd_timedelta
    X["datetime.datetime"] = mk_datetime
    X["datetime.date"] = mk_date
    X["pandas.Timestamp"] = lambda E, v=None, **k: to_date(E, v) if v is not None else mk_datetime(E, **k)
    X["pandas.to_datetime"] = lambda E, v: to_date(E, v)
    X["datetime.datetime.today"] = today
    X["datetime.datetime.now"] = today
    X["datetime.datetime.fromisoformat"] = lambda E, s: to_date(E, s)
    X["datetime.date.fromisoformat"] = lambda E, s: to_date(E, s, True)
    X["datetime.date.today"] = lambda E: DateV(simp(tz(ord_of(E, today(E))) * DAY), True)
    for n in ("year", "month", "day"):
        V[("DateV", n)] = part(n)
    V[("DateV", "weekday")] = weekday
    V[("DateV", "isoweekday")] = isoweekday
    V[("DateV", "dayofweek")] = attr(lambda E, d: weekday(E, d))
    V[("DateV", "day_of_week")] = attr(lambda E, d: weekday(E, d))
    V[("DateV", "date")] = lambda E, d: DateV(simp(tz(ord_of(E, d)) * DAY), True)
    V[("DateV", "normalize")] = lambda E, d: DateV(simp(tz(ord_of(E, d)) * DAY))
    V[("DateV", "toordinal")] = ord_of
    V[("DateV", "replace")] = date_replace
    V[("binop", "DateV")] = date_binop
    V[("binop", "DeltaV")] = date_binop
    V[("binop", "DateIdx")] = idx_binop
    V[("len", "DateIdx")] = lambda E, o: o.n
    V[("getitem", "DateIdx")] = idx_getitem
    V[("iter", "DateIdx")] = lambda E, o: IterV(o.n, o.at)
    V[("DateIdx", "size")] = attr(lambda E, o: o.n)
    V[("DateIdx", "shape")] = attr(lambda E, o: TupleV((o.n,)))
    V[("DateIdx", "map")] = lambda E, o, f: MapV(o, f)
    V[("DateIdx", "to_list")] = lambda E, o: ListV(None, o.n, o.at, oid=E.new_oid(), elt=so.DateS())
    V[("DateIdx", "tolist")] = V[("DateIdx", "to_list")]
    V[("MapV", "to_list")] = map_list
    V[("MapV", "tolist")] = map_list
    V[("iter", "MapV")] = lambda E, o: E.iterate(map_list(E, o))
    V[("isinstance", "DateIdx")] = lambda E, v, short: short in ("DatetimeIndex", "Index")
    V[("isinstance", "DeltaV")] = lambda E, v, short: short in ("timedelta", "Timedelta")


def date_replace(E, d, **k):
    g = {n: k.get(n, None) for n in ("year", "month", "day")}
    o = ordinal(E, *[num(g[n]) if g[n] is not None else E.getattr(d, n) for n in ("year", "month", "day")])
    t = simp(tz(d.minutes) % DAY)
    if "hour" in k or "minute" in k:
        if "hour" in k and "minute" in k:
            t = E.num_binop("Add", E.num_binop("Mult", num(k["hour"]), 60), num(k["minute"]))
        else:
            raise Unsupported("replace of part of the time")
    return DateV(simp(tz(o) * DAY + tz(t)), d.is_date)


def map_list(E, o):
    """[f(d) for d in the index]"""
    import ast as _ast

    return E.map_sym(o.idx.n, lambda i: o.idx.at(i), o.f)
