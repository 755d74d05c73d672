"""ramp/post_process/post_process.py: operations on the data of a result object"""
from pydv.registry import contract, Contract, SCHEMA
from pydv.sorts import *

P = "ramp.post_process.post_process:"
SCHEMA["Plot"] = {"df": FrameS(1, 1)}
DATA = ObjS("Plot")


def cell(S, f, i, j):
    return f.get(S.tz(i), S.tz(j))


def rows(S, a, b):
    return S.And(S.eq(a.n, b.n), a.idx == b.idx)


class _Plot(Contract):
    props = ("C24",)
    draws = False


class _Across(_Plot):
    params = dict(self=DATA)
    label = None

    def ensures(self, S, c):
        f, r = c.old.self.df, c.result
        if not S.is_table(getattr(r, "df", None)):
            return [("a result object", False)]
        g = r.df
        return [
            ("the time steps of the data", rows(S, g, f)),
            (f"one column named {self.label}", S.And(S.eq(g.m, 1), S.eq(S.label(g, 0), self.label))),
            ("taken across the cases at each time step", S.ForAll(0, f.n, lambda i: S.eq(cell(S, g, i, 0), self.across(S, f, i)))),
        ]


@contract
class PlotMean(_Across):
    target = P + "Plot.mean"
    label = "Mean"

    def across(self, S, f, i):
        return S.div(S.rowsum(f, i), f.m)


@contract
class PlotSum(_Across):
    target = P + "Plot.sum"
    label = "Sum"

    def across(self, S, f, i):
        return S.rowsum(f, i)


@contract
class PlotError(_Plot):
    """difference relative to the validation column, in percent"""

    target = P + "Plot.error"
    params = dict(self=DATA, base_column=StrS(), validated_data=StrS())
    raises = {"KeyError": ("iff", lambda S, c: S.Not(S.And(S.has_column(c.self.df, c.base_column), S.has_column(c.self.df, c.validated_data))))}

    def ensures(self, S, c):
        f, r = c.old.self.df, c.result
        if not S.is_series(r):
            return [("one value per time step", False)]
        x, v = S.column(f, c.base_column), S.column(f, c.validated_data)
        return [
            ("the time steps of the data", S.And(S.eq(r.n, f.n), r.idx == f.idx)),
            ("in percent of the validation value", S.ForAll(0, f.n, lambda i: S.Implies(S.ne(v(i), 0), S.And(
                S.Not(S.missing(r, i)), S.eq(S.at(r, i), S.mul(S.div(S.sub(x(i), v(i)), v(i)), 100)))))),
            ("0 where undefined", S.ForAll(0, f.n, lambda i: S.Implies(S.And(S.eq(v(i), 0), S.eq(x(i), 0)), S.And(
                S.Not(S.missing(r, i)), S.eq(S.at(r, i), 0))))),
        ]


@contract
class PlotPeak(_Plot):
    """for an arbitrary case (ghost position j): all its time steps at which its maximum occurs, in order"""

    target = P + "Plot.peak"
    params = dict(self=DATA)
    ghost = dict(j=IntS(0))

    def requires(self, S, c):
        return [("any one of the cases", S.lt(c.ghost.j, c.self.df.m))]

    def ensures(self, S, c):
        f, j = c.old.self.df, c.ghost.j
        if not S.is_map(c.result):
            return [("one entry per case", False)]
        key, r = S.entry(c.result, j)
        w = S.origin_rows(r, f)
        top = lambda i: S.ForAll(0, f.n, lambda k: S.le(cell(S, f, k, j), cell(S, f, i, j)))
        return [
            ("one entry per case", S.And(S.eq(S.len(c.result), f.m), S.eq(key, S.label(f, j)))),
            ("time steps of the data at which the case has its maximum", S.ForAll(0, r.n, lambda k: S.And(
                S.between(0, S.at(w, k), S.sub(f.n, 1)), S.eq(S.at(r, k), cell(S, f, S.at(w, k), j)), top(S.at(w, k))))),
            ("every such time step, in order", S.And(
                S.ForAll(0, f.n, lambda i: S.Implies(top(i), S.Exists(0, r.n, lambda k: S.eq(S.at(w, k), i)))),
                S.ForAll(1, r.n, lambda k: S.lt(S.at(w, S.sub(k, 1)), S.at(w, k))))),
        ]


class _Resample(_Plot):
    target = P + "Plot.resample"

    def requires(self, S, c):
        return [("a conversion factor", S.ne(c.conversion, 0))]

    def resampled(self, S, c, g):
        f = c.old.self.df
        src, freq, rule = S.resampled(g)
        return [
            ("the requested rule, at the requested frequency", S.And(S.eq(freq, c.freq), S.eq(rule, c.rule))),
            ("applied to the data divided by the conversion factor", S.And(rows(S, src, f), S.eq(src.m, f.m), S.ForAll(0, f.n, lambda i: S.ForAll(
                0, f.m, lambda j: S.And(S.eq(cell(S, src, i, j), S.div(cell(S, f, i, j), c.conversion)), S.eq(S.label(src, j), S.label(f, j))))))),
            ("all cases", S.And(S.eq(g.m, f.m), S.ForAll(0, f.m, lambda j: S.eq(S.label(g, j), S.label(f, j))))),
        ]


@contract
class Resample(_Resample):
    case = "new"
    params = dict(self=DATA, freq=StrS(), rule=StrS(), conversion=RealS(), inplace=ConstS(False))

    def ensures(self, S, c):
        if not S.is_table(getattr(c.result, "df", None)):
            return [("a result object", False)]
        return self.resampled(S, c, c.result.df)


@contract
class ResampleInPlace(_Resample):
    case = "in place"
    params = dict(self=DATA, freq=StrS(), rule=StrS(), conversion=RealS(), inplace=ConstS(True))
    modifies = ("self.df",)
    havoc_sorts = {"self.df": FrameS(0, 0)}

    def ensures(self, S, c):
        return [("no result", c.result is None)] + self.resampled(S, c, c.self.df)


@contract
class AddColumn(_Plot):
    """for an arbitrary label (ghost): the case is added when the time index is the same"""

    target = P + "Plot.add_column"
    case = "table"
    params = dict(self=DATA, var=FrameS(1, 1))
    ghost = dict(case=StrS())
    modifies = ("self.df",)
    raises = {"ValueError": ("iff", lambda S, c: S.Not(c.self.df.idx == c.var.idx))}

    def data(self, c):
        return c.var

    def ensures(self, S, c):
        f, g, v, t = c.old.self.df, c.self.df, self.data(c.old), c.ghost.case
        new, old = S.has_column(v, t), S.has_column(f, t)
        return [
            ("the time steps of the data", rows(S, g, f)),
            ("the cases there were, and the new ones", S.Iff(S.has_column(g, t), S.Or(old, new))),
            ("the new case holds the values given", S.Implies(new, S.ForAll(0, f.n, lambda i: S.eq(S.column(g, t)(i), S.column(v, t)(i))))),
            ("the other cases are unchanged", S.Implies(S.And(old, S.Not(new)), S.ForAll(0, f.n, lambda i: S.eq(S.column(g, t)(i), S.column(f, t)(i))))),
            ("the cases there were keep their places", S.ForAll(0, f.m, lambda j: S.eq(S.label(g, j), S.label(f, j)))),
        ]


@contract
class AddPlot(AddColumn):
    case = "result object"
    params = dict(self=DATA, var=ObjS("Plot"))
    raises = {"ValueError": ("iff", lambda S, c: S.Not(c.self.df.idx == c.var.df.idx))}

    def data(self, c):
        return c.var.df


@contract
class AddOther(_Plot):
    target = P + "Plot.add_column"
    case = "no table"
    params = dict(self=DATA, var=OneOf(ConstS(None), IntS(), StrS(), FixedListS(RealS())))
    raises = {"ValueError": ("iff", lambda S, c: True)}


class _New(_Plot):
    target = P + "Plot.__init__"
    inline = True
    modifies = ("self.*",)
    me = ObjS("Plot", df=AnyS())


@contract
class NewPlot(_New):
    case = "data"
    params = dict(self=_New.me, df=FrameS(1, 1), index=NoneS())

    def ensures(self, S, c):
        return [("the data given", S.eq(c.self.df, c.old.df))]


@contract
class NewPlotIndex(_New):
    case = "data and index"
    params = dict(self=_New.me, df=FrameS(1, 1), index=IndexS())
    raises = {"ValueError": ("iff", lambda S, c: S.ne(S.len(c.index), c.df.n))}

    def ensures(self, S, c):
        f, g = c.old.df, c.self.df
        return [
            ("the index given", g.idx == c.index.term),
            ("the values given", S.And(S.eq(g.n, f.n), S.eq(g.m, f.m), S.ForAll(0, f.n, lambda i: S.ForAll(0, f.m, lambda j: S.And(
                S.eq(cell(S, g, i, j), cell(S, f, i, j)), S.eq(S.label(g, j), S.label(f, j))))))),
        ]


@contract
class NewOther(_New):
    case = "no table"
    params = dict(self=_New.me, df=OneOf(ConstS(None), IntS(), StrS(), FixedListS(RealS()), ObjS("Plot")), index=NoneS())
    raises = {"ValueError": ("iff", lambda S, c: True)}


@contract
class PlotCopy(_Plot):
    target = P + "Plot.copy"
    params = dict(self=DATA)

    def ensures(self, S, c):
        if not S.is_table(getattr(c.result, "df", None)):
            return [("a result object", False)]
        return [("the data of the original", S.eq(c.result.df, c.old.self.df)), ("in a table of its own", c.result.df.oid != c.old.self.df.oid)]


# ------------------------------------------------------------------ files
def only_io(S, c, op):
    ios = S.ios(c)
    return len(ios) == 1 and ios[0][0] == op and ios[0][1]


@contract
class ToCsv(_Plot):
    target = P + "Plot.to_csv"
    params = dict(self=DATA, path=StrS(), sep=StrS())

    def ensures(self, S, c):
        w = only_io(S, c, "write csv")
        if not w:
            return [("one csv file is written", False)]
        o = w["options"]
        return [
            ("the data, to the path given", S.And(S.eq(w["data"], c.old.self.df), S.eq(w["path"], c.path))),
            ("with the separator given, the index and the header", S.And(
                S.eq(o.get("sep", ","), c.sep), o.get("index", True) is True, o.get("header", True) is True, not set(o) - {"sep", "index", "header"})),
        ]


@contract
class ToExcel(_Plot):
    target = P + "Plot.to_excel"
    params = dict(self=DATA, path=StrS())

    def ensures(self, S, c):
        w = only_io(S, c, "write xlsx")
        if not w:
            return [("one xlsx file is written", False)]
        o = w["options"]
        return [
            ("the data, to the path given", S.And(S.eq(w["data"], c.old.self.df), S.eq(w["path"], c.path))),
            ("with the index and the header", S.And(o.get("index", True) is True, o.get("header", True) is True, not set(o) - {"index", "header"})),
        ]


class _FromFile(_Plot):
    """what was saved is read: same separator, first column the index, first row the labels, index as time stamps"""

    target = P + "Plot.from_file"

    def read(self, S, c, op, options, time):
        w = only_io(S, c, op)
        if not w or not S.is_table(getattr(c.result, "df", None)):
            return [("one file is read into a result object", False)]
        o, f = w["options"], c.result.df
        return [
            ("the file given", S.eq(w["path"], c.file)),
            ("first column the index, first row the labels", S.And(o.get("index_col") == 0, o.get("header", 0) in (0, "infer"))),
            ("the options given", S.And(*[S.eq(o[k], v) if k in o else d is not None and S.eq(v, d) for k, (v, d) in options.items()])),
            ("time stamps", time(o)),
            ("the data read", S.same_source(f, c)),
        ]


@contract
class FromCsv(_FromFile):
    case = "csv"
    params = dict(file=StrS(), sheet_name=IntS(0), sep=StrS(), index=NoneS())

    def requires(self, S, c):
        return [("a csv file", S.ends(c.file, ".csv"))]

    def ensures(self, S, c):
        return self.read(S, c, "read csv", {"sep": (c.sep, ",")}, lambda o: o.get("parse_dates") is True)


@contract
class FromXlsx(_FromFile):
    case = "xlsx"
    params = dict(file=StrS(), sheet_name=IntS(0), sep=StrS(), index=NoneS())

    def requires(self, S, c):
        return [("an xlsx file", S.ends(c.file, ".xlsx"))]

    def ensures(self, S, c):
        return self.read(S, c, "read xlsx", {"sheet_name": (c.sheet_name, 0)}, lambda o: True)


@contract
class FromOther(_FromFile):
    case = "other file"
    params = dict(file=StrS(), sheet_name=IntS(0), sep=StrS(), index=NoneS())
    raises = {"ValueError": ("iff", lambda S, c: True)}

    def requires(self, S, c):
        return [("neither csv nor xlsx", S.And(S.Not(S.ends(c.file, ".csv")), S.Not(S.ends(c.file, ".xlsx"))))]


@contract
class FromCsvIndex(_FromFile):
    case = "csv and index"
    params = dict(file=StrS(), sheet_name=IntS(0), sep=StrS(), index=IndexS())
    raises = {"ValueError": ("only", None)}

    def requires(self, S, c):
        return [("a csv file", S.ends(c.file, ".csv"))]

    def ensures(self, S, c):
        w = only_io(S, c, "read csv")
        if not w or not S.is_table(getattr(c.result, "df", None)):
            return [("one file is read into a result object", False)]
        o = w["options"]
        return [
            ("the file given", S.eq(w["path"], c.file)),
            ("first column the index, first row the labels", S.And(o.get("index_col") == 0, o.get("header", 0) in (0, "infer"))),
            ("the separator given", S.eq(o.get("sep", ","), c.sep)),
            ("with the index given", c.result.df.idx == c.index.term),
        ]
