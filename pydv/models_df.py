"""pandas tables as the repository uses them: a matrix of values, an index and column labels.

Assumed contracts on pandas: elementwise arithmetic, mean/sum over an axis, selection by position and by mask.
Missing values are carried beside the value (nan).
"""
import z3
from . import sorts as so
from .values import *
from .models_np import as_arr, sum_rows, functional, reduce_

IdxSort = z3.DeclareSort("PandasIndex")
IDXLEN = z3.Function("index_length", IdxSort, z3.IntSort())


def attr(f):
    f.is_attr = True
    return f


class FrameV(Heap):
    """pd.DataFrame: n rows, m columns, value get(i, j), index term, label(j)"""

    def __init__(self, n, m, get, idx, label, oid=None, labels=None, pos=None):
        self.n, self.m, self.get, self.idx, self.label, self.oid = n, m, get, idx, label, oid
        self.labels, self.pos = labels, pos
        self.dates = None  # its index, when that is a range of dates
        self.origin = None  # (source table, frequency, rule) of a resampled table

    FIELDS = ("n", "m", "get", "idx", "label", "labels", "pos", "origin")

    def length(self):
        return self.n

    def at(self, i, j):
        return self.get(i, j)

    def snapshot(self):
        f = FrameV(self.n, self.m, self.get, self.idx, self.label, self.oid, self.labels, self.pos)
        f.origin, f.dates = self.origin, self.dates
        return f

    def __repr__(self):
        return "<DataFrame>"


class ResampleV(Heap):
    def __init__(self, frame, freq):
        self.frame, self.freq, self.oid = frame, freq, None


class MapDictV(Heap):
    """{key(i): value(i) for i below n}"""

    def __init__(self, n, get):
        self.n, self.get, self.oid = n, get, None

    def length(self):
        return self.n


class SeriesV(Heap):
    """pd.Series"""

    def __init__(self, n, get, idx, name=None, nan=None, oid=None, mask=None):
        self.n, self.get, self.idx, self.name, self.nan, self.oid, self.mask = n, get, idx, name, nan, oid, mask

    def length(self):
        return self.n

    def at(self, i):
        return self.get(i)


class ColsV(Heap):
    def __init__(self, frame):
        self.frame, self.oid = frame, None

    def length(self):
        return self.frame.m

    def at(self, i):
        return self.frame.label(i)


class IdxV(Heap):
    def __init__(self, term, n):
        self.term, self.n, self.oid = term, n, None

    def length(self):
        return self.n


class ILocV(Heap):
    def __init__(self, o):
        self.o, self.oid = o, None


class LocV(Heap):
    def __init__(self, o):
        self.o, self.oid = o, None


def fresh_index(E, base, minrows=0):
    idx = z3.Const(E.name(base + ".index"), IdxSort)
    E.assume(IDXLEN(idx) >= minrows)
    return IdxV(idx, IDXLEN(idx))


def fresh_frame(E, base, minrows=1, mincols=1, labels=None):
    n = E.freshint(base + ".rows", minrows)
    f = E.fresh_fn(base, 2, "f")
    if labels is not None:
        idx = z3.Const(E.name(base + ".index"), IdxSort)
        E.assume(IDXLEN(idx) == n)
        ls = list(labels)
        return FrameV(n, len(ls), lambda i, j: f(tz(i), tz(j)), idx, lambda j: ls[j], E.new_oid(), labels=ls)
    m = E.freshint(base + ".cols", mincols)
    lab = z3.Function(E.name(base + ".label"), z3.IntSort(), StrSort)
    pos = z3.Function(E.name(base + ".column"), StrSort, z3.IntSort())
    idx = z3.Const(E.name(base + ".index"), IdxSort)
    E.assume(IDXLEN(idx) == n)
    j, t = z3.Int("fr!j"), z3.Const("fr!t", StrSort)
    # labels are distinct: column(label(j)) == j, and every column found has the label asked for
    E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), pos(lab(j)) == j), patterns=[lab(j)]))
    E.assume(z3.ForAll([t], z3.Implies(z3.And(pos(t) >= 0, pos(t) < m), lab(pos(t)) == t), patterns=[pos(t)]))
    return FrameV(n, m, lambda i, j: f(tz(i), tz(j)), idx, lambda j: Tok(lab(tz(j))), E.new_oid(), pos=pos)


JROWS = z3.Function("json_rows", StrSort, z3.IntSort())
JCOLS = z3.Function("json_columns", StrSort, z3.IntSort())
JVAL = z3.Function("json_value", StrSort, z3.IntSort(), z3.IntSort(), z3.RealSort())
JAPPROX = z3.Function("json_value_rounded", StrSort, z3.IntSort(), z3.IntSort(), z3.RealSort())


def read_json(E, text, *a, **k):
    """the table a JSON text stands for; without precise_float the values are approximations of it"""
    if a or set(k) - {"precise_float"}:
        raise Unsupported("read_json options")
    t = text.term if isinstance(text, Tok) else str_term(text) if isinstance(text, str) else None
    if t is None:
        raise Unsupported(f"read_json of {text!r}")
    E.assume(JROWS(t) >= 1)
    E.assume(JCOLS(t) >= 1)
    f = JVAL if k.get("precise_float", False) is True else JAPPROX
    return FrameV(JROWS(t), JCOLS(t), lambda i, j: f(t, tz(i), tz(j)), z3.Const(E.name("json.index"), IdxSort), lambda j: Opaque("label", index=j), E.new_oid())


def values(E, o):
    g = o.get
    if isinstance(o, SeriesV):
        return Arr((o.n,), lambda i: g(i), "f", oid=E.new_oid(), base=o)
    return Arr((o.n, o.m), lambda i, j: g(i, j), "f", oid=E.new_oid(), base=o)


def column(E, o, j, label=None):
    g = o.get
    return SeriesV(o.n, lambda i: g(i, j), o.idx, label if label is not None else o.label(j), None, E.new_oid())


def iloc_get(E, o, i):
    o = o.o
    if isinstance(o, FrameV) and isinstance(i, TupleV) and len(i) == 2 and full(i[0]):
        j = i[1]
        if is_int(j):
            return column(E, o, E.norm_index(j, o.m, what="column out of bounds"))
    raise Unsupported(f"iloc[{i!r}]")


def full(s):
    return isinstance(s, SliceV) and s.start is None and s.stop is None and s.step is None


def axis_of(a, k, default=0):
    ax = a[0] if a else k.get("axis", default)
    if ax in (0, "index"):
        return 0
    if ax in (1, "columns"):
        return 1
    raise Unsupported(f"axis {ax!r}")


def over_columns(what):
    def h(E, o, *a, **k):
        if axis_of(a, k) != 1:
            raise Unsupported(f"{what} over the rows")
        if set(k) - {"axis"}:
            raise Unsupported(f"options of {what}")
        return SeriesV(o.n, row_fn(E, o, what), o.idx, None, None, E.new_oid())

    return h


def row_fn(E, o, what):
    """sum or mean over the columns of each row"""
    g = o.get
    # the sum over the columns is the column sum of the transposed matrix
    reg = E.functionals = getattr(E, "functionals", {})
    if reg.get("key") != (id(E.qf),):
        reg.clear()
        reg["key"] = (id(E.qf),)
    tg = next((b for a, b in reg.setdefault("transposed", []) if a is g), None)
    if tg is None:
        tg = lambda j, i: g(i, j)
        reg["transposed"].append((g, tg))
    t = Arr((o.m, o.n), tg, "f")
    tot = sum_rows(E, t, "sum")
    if what == "sum":
        return lambda i: tot.get(i)
    m = o.m
    return lambda i: E.num_binop("Div", tot.get(i), m)


def to_frame(E, s, name=None):
    g = s.get
    return FrameV(s.n, 1, lambda i, j: g(i), s.idx, lambda j: name, E.new_oid(), labels=[name])


def copy_(E, o, **k):
    if isinstance(o, SeriesV):
        return SeriesV(o.n, o.get, o.idx, o.name, o.nan, E.new_oid(), o.mask)
    f = o.snapshot()
    f.oid = E.new_oid()
    return f


def getcol(E, o, k):
    if isinstance(k, (str, Tok)):
        if o.labels is not None and isinstance(k, str):
            if k not in o.labels:
                raise PyExc("KeyError", k)
            return column(E, o, o.labels.index(k), k)
        if o.pos is not None:
            t = k.term if isinstance(k, Tok) else str_term(k)
            p = o.pos(t)
            own = o.label(z3.IntVal(0))
            if isinstance(own, Tok) and z3.is_app(own.term) and own.term.num_args() == 1 and t.num_args() == 1 and t.decl().eq(own.term.decl()):
                return column(E, o, simp(t.arg(0)), k)  # the label of one of its own columns
            if not E.decide(z3.And(p >= 0, p < tz(o.m)), "column exists"):
                raise PyExc("KeyError", "column")
            return column(E, o, p, k)
    if isinstance(k, SeriesV) and k.mask is not None:
        raise Unsupported("rows of a mask")
    raise Unsupported(f"column {k!r}")


def elementwise(E, op, a, b):
    x = a if isinstance(a, (FrameV, SeriesV)) else b
    if isinstance(x, FrameV):
        if is_num(b) and x is a:
            g = a.get
            return FrameV(a.n, a.m, lambda i, j: E.num_binop(op, g(i, j), b), a.idx, a.label, E.new_oid(), a.labels, a.pos)
        if is_num(a):
            g = b.get
            return FrameV(b.n, b.m, lambda i, j: E.num_binop(op, a, g(i, j)), b.idx, b.label, E.new_oid(), b.labels, b.pos)
        raise Unsupported("arithmetic of tables")

    def parts(v):
        if isinstance(v, SeriesV):
            return v.get, v.nan
        if isinstance(v, Arr):
            return (lambda i: v.get(i)), None
        if is_num(v):
            return (lambda i: v), None
        raise Unsupported(f"arithmetic of a series and {v!r}")

    (fa, na), (fb, nb) = parts(a), parts(b)
    for v in (a, b):
        if isinstance(v, Arr) and len(v.shape) != 1:
            raise Unsupported("series and matrix")
    if isinstance(a, SeriesV) and isinstance(b, SeriesV) and not z3.eq(tz(a.idx), tz(b.idx)):
        raise Unsupported("series of different tables")
    isnan = lambda i: E.S.Or(na(i) if na else False, nb(i) if nb else False)
    if op == "Div":
        def q(i):
            return tz(to_real(fa(i))) / tz(to_real(fb(i)))

        zero = lambda i: E.S.And(E.eq_num(fa(i), 0), E.eq_num(fb(i), 0))
        return SeriesV(x.n, q, x.idx, None, lambda i: E.S.Or(isnan(i), zero(i)), E.new_oid())
    return SeriesV(x.n, lambda i: E.num_binop(op, fa(i), fb(i)), x.idx, None, isnan if (na or nb) else None, E.new_oid())


def series_compare(E, op, a, b):
    if isinstance(b, SeriesV) and is_num(a):
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
    if isinstance(a, SeriesV) and is_num(b):
        g = a.get
        f = {"Eq": lambda i: E.eq_num(g(i), b), "GtE": lambda i: E.S.ge(g(i), b), "LtE": lambda i: E.S.le(g(i), b),
             "Gt": lambda i: E.S.gt(g(i), b), "Lt": lambda i: E.S.lt(g(i), b)}.get(op)
        if f is None:
            raise Unsupported(f"comparison {op} of a series")
        return SeriesV(a.n, f, a.idx, None, None, E.new_oid(), mask=True)
    raise Unsupported("comparison of a series")


def fillna(E, s, value=None, **k):
    if s.nan is None:
        return copy_(E, s)
    if not is_num(value) or set(k) - {"inplace"} or k.get("inplace"):
        raise Unsupported("fillna options")
    g, nan = s.get, s.nan
    return SeriesV(s.n, lambda i: ite(nan(i), to_real(value), g(i)), s.idx, s.name, None, E.new_oid())


def smax(which):
    def h(E, s):
        if s.nan is not None:
            raise Unsupported("maximum with missing values")
        g = s.get
        return reduce_(E, which)(E, Arr((s.n,), lambda i: g(i), "f"))

    return h


def loc_get(E, o, i):
    o = o.o
    if isinstance(o, SeriesV) and isinstance(i, SeriesV) and i.mask:
        # the entries at which the mask holds, in order
        from .models_np import index_set

        sel = index_set(E, lambda k: E.S.b(i.get(k)), o.n, "loc")
        g = o.get
        r = SeriesV(sel.shape[0], lambda k: g(sel.get(k)), z3.Const(E.name("loc.index"), IdxSort), o.name, None, E.new_oid())
        r.where = sel
        return r
    raise Unsupported(f"loc[{i!r}]")


def items(E, o):
    if o.labels is not None:
        return IterV(len(o.labels), lambda j: TupleV((o.labels[j], column(E, o, j))))
    return IterV(o.m, lambda j: TupleV((o.label(j), column(E, o, j))))


def set_frame(E, o, **new):
    old = {k: getattr(o, k) for k in o.FIELDS}

    def restore():
        for k, v in old.items():
            setattr(o, k, v)

    for k, v in new.items():
        setattr(o, k, v)
    E.note_write(("frame", o.oid, o), restore, o)


def set_frame_attr(E, o, name, v):
    if name == "index":
        if not isinstance(v, (IdxV, Arr, ListV)):
            raise Unsupported(f"index {v!r}")
        n = v.length()
        if not E.decide(tz(n) == tz(o.n), "length of the new index"):
            raise PyExc("ValueError", "Length mismatch")
        return set_frame(E, o, idx=v.term if isinstance(v, IdxV) else z3.Const(E.name("index"), IdxSort), origin=None)
    if name == "columns":
        if isinstance(v, ListV) and v.concrete and all(isinstance(x, (str, Tok)) for x in v.items):
            if not E.decide(tz(o.m) == len(v.items), "number of columns"):
                raise PyExc("ValueError", "Length mismatch")
            ls = list(v.items)
            return set_frame(E, o, labels=ls, label=lambda j: ls[j], pos=None, m=len(ls), origin=None)
    raise Unsupported(f"changing {name} of a table")


def set_frame_item(E, o, k, v):
    """table[columns of another table] = matrix: columns of that label are replaced, the others appended in order"""
    if isinstance(k, ColsV) and isinstance(v, Arr) and len(v.shape) == 2 and o.pos is not None and k.frame.pos is not None:
        src = k.frame
        if not E.decide(z3.And(tz(v.shape[0]) == tz(o.n), tz(v.shape[1]) == tz(src.m)), "shape of the new columns"):
            raise PyExc("ValueError", "shape mismatch")
        m = E.freshint("cols", 0)
        E.assume(z3.And(m >= tz(o.m), m <= tz(o.m) + tz(src.m)))
        lab = z3.Function(E.name("label"), z3.IntSort(), StrSort)
        pos = z3.Function(E.name("column"), StrSort, z3.IntSort())
        lab0, pos0, m0, g0 = o.label, o.pos, o.m, o.get
        pos1, m1, lab1 = src.pos, src.m, src.label
        f = E.fresh_fn("columns", 2, "f")
        i, j, t = z3.Int("fi!i"), z3.Int("fi!j"), z3.Const("fi!t", StrSort)
        has = lambda p, mm: z3.And(p(t) >= 0, p(t) < tz(mm))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), pos(lab(j)) == j), patterns=[lab(j)]))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tz(m0)), lab(j) == lab0(j).term), patterns=[lab(j)]))
        E.assume(z3.ForAll([t], z3.And(
            has(pos, m) == z3.Or(has(pos0, m0), has(pos1, m1)),
            z3.Implies(has(pos, m), lab(pos(t)) == t),
            z3.Implies(has(pos0, m0), pos(t) == pos0(t))), patterns=[pos(t)]))
        E.assume(z3.ForAll([i, t], z3.And(
            z3.Implies(has(pos1, m1), f(i, pos(t)) == tz(to_real(v.get(i, pos1(t))))),
            z3.Implies(z3.And(has(pos0, m0), z3.Not(has(pos1, m1))), f(i, pos(t)) == tz(to_real(g0(i, pos0(t)))))), patterns=[f(i, pos(t))]))
        return set_frame(E, o, m=m, get=lambda i, j: f(tz(i), tz(j)), label=lambda j: Tok(lab(tz(j))), pos=pos, labels=None, origin=None)
    if isinstance(k, str) and o.labels == [] and isinstance(v, (FrameV, SeriesV)) and (isinstance(v, SeriesV) or simp(v.m) == 1):
        g = v.get
        return set_frame(E, o, n=v.n, m=1, get=(lambda i, j: g(i)) if isinstance(v, SeriesV) else (lambda i, j: g(i, 0)), labels=[k], label=lambda j: k, idx=v.idx, origin=None)
    if isinstance(k, str) and o.labels and k not in o.labels and isinstance(v, (FrameV, SeriesV)) and (isinstance(v, SeriesV) or simp(v.m) == 1):
        # values at the index entries of the table (those of v where it has them): not described further
        f = E.fresh_fn("joined", 1, "f")
        ls, g, m = list(o.labels) + [k], o.get, len(o.labels)
        return set_frame(E, o, m=m + 1, labels=ls, label=lambda j: ls[j], origin=None,
                         get=lambda i, j: g(i, j) if isinstance(j, int) and j < m else f(tz(i)) if isinstance(j, int) else ite(simp(tz(j) < m), g(i, j), f(tz(i))))
    raise Unsupported("adding columns to a table")


def same_frame(E, a, b):
    """the two tables have equal values, index and labels"""
    S = E.S
    if a.get is b.get and a.idx is b.idx and a.m is b.m and a.labels is b.labels and a.label is b.label:
        return True
    out = [E.eq_num(a.n, b.n), E.eq_num(a.m, b.m), a.idx == b.idx,
           S.ForAll(0, a.n, lambda i: S.ForAll(0, a.m, lambda j: E.eq_num(a.get(i, j), b.get(i, j))))]
    if a.labels is not None and b.labels is not None:
        out.append(len(a.labels) == len(b.labels) and S.And(*[E.eq_str(x, y) for x, y in zip(a.labels, b.labels)]))
    elif a.label is not b.label:
        if a.labels is not None or b.labels is not None:
            ls, o = (a.labels, b) if a.labels is not None else (b.labels, a)
            out += [E.eq_str(x, o.label(j)) for j, x in enumerate(ls)]
        else:
            out.append(S.ForAll(0, a.m, lambda j: E.eq_str(a.label(j), b.label(j))))
    return S.And(*out)


def resample(E, o, freq=None, *a, **k):
    if a or k:
        raise Unsupported("options of resample")
    return ResampleV(o.snapshot(), freq)


def resampler_method(E, o, name):
    """any rule of the resampler: a table determined by the values, the index, the frequency and the rule"""

    def apply(*a, **k):
        if a or k:
            raise Unsupported("options of a resampling rule")
        f = fresh_frame(E, "resampled", 0, 0)
        src = o.frame
        f = FrameV(f.n, src.m, f.get, f.idx, src.label, f.oid, src.labels, src.pos)
        f.origin = (src, o.freq, name)
        return f

    return FuncV("py", fn=apply, name="rule", self_obj=None)


def io(E, op, **fields):
    E.events.append(("io", op, fields))


def to_csv(E, o, path=None, **k):
    io(E, "write csv", path=path, data=o.snapshot() if isinstance(o, FrameV) else o, options=dict(k))


def to_excel(E, o, path=None, **k):
    io(E, "write xlsx", path=path.info["path"] if isinstance(path, Opaque) else path, data=o.snapshot() if isinstance(o, FrameV) else o, options=dict(k))


def read_table(kind):
    def f(E, path, *a, **k):
        if a:
            raise Unsupported("positional options of a reader")
        io(E, "read " + kind, path=path, options=dict(k))
        r = fresh_frame(E, "read", 0, 0)
        r.source = len(E.events)
        return r

    return f


def frame(E, data=None, index=None, columns=None, **k):
    """pd.DataFrame of a one- or two-dimensional array"""
    if k or columns is not None:
        raise Unsupported("options of DataFrame")
    if data is None and index is None:
        return FrameV(0, 0, lambda i, j: Fraction(0), z3.Const(E.name("empty.index"), IdxSort), lambda j: j, E.new_oid(), labels=[])
    if not isinstance(data, Arr):
        raise Unsupported(f"DataFrame of {data!r}")
    g = data.get
    dates = None
    if index is None:
        idx = z3.Const(E.name("range.index"), IdxSort)
    elif isinstance(index, IdxV):
        idx = index.term
    elif type(index).__name__ == "DateIdx":
        idx, dates = z3.Const(E.name("date.index"), IdxSort), index
        E.assume(IDXLEN(idx) == tz(index.n))
        if not E.decide(tz(index.n) == tz(data.shape[0]), "as many rows as index entries"):
            raise PyExc("ValueError", "Shape of passed values")
    else:
        raise Unsupported("index of DataFrame")
    n = data.shape[0]
    if len(data.shape) == 1:
        r = FrameV(n, 1, lambda i, j: g(i), idx, lambda j: j, E.new_oid(), labels=[0])
    else:
        r = FrameV(n, data.shape[1], lambda i, j: g(i, j), idx, lambda j: j, E.new_oid())
    r.default_index = index is None
    r.dates = dates
    return r


def install(E):
    X, V = E.ext, E.valmeth
    X["pandas.read_json"] = read_json
    V[("FrameV", "values")] = attr(values)
    V[("FrameV", "to_numpy")] = lambda E, o, *a, **k: values(E, o)
    V[("SeriesV", "values")] = attr(values)
    V[("SeriesV", "to_numpy")] = lambda E, o, *a, **k: values(E, o)
    V[("FrameV", "iloc")] = attr(lambda E, o: ILocV(o))
    V[("SeriesV", "loc")] = attr(lambda E, o: LocV(o))
    V[("FrameV", "copy")] = copy_
    V[("SeriesV", "copy")] = copy_
    V[("FrameV", "shape")] = attr(lambda E, o: TupleV((o.n, o.m)))
    V[("FrameV", "index")] = attr(lambda E, o: IdxV(o.idx, o.n))
    V[("SeriesV", "index")] = attr(lambda E, o: IdxV(o.idx, o.n))
    V[("FrameV", "columns")] = attr(lambda E, o: ColsV(o))
    V[("iter", "ColsV")] = lambda E, o: E.iterate(TupleV(o.frame.labels)) if o.frame.labels is not None else IterV(o.frame.m, o.at)
    V[("len", "ColsV")] = lambda E, o: o.frame.m
    V[("FrameV", "mean")] = over_columns("mean")
    V[("FrameV", "sum")] = over_columns("sum")
    V[("SeriesV", "to_frame")] = to_frame
    V[("SeriesV", "fillna")] = fillna
    V[("SeriesV", "max")] = smax("max")
    V[("SeriesV", "min")] = smax("min")
    V[("FrameV", "items")] = items
    X["pandas.DataFrame"] = frame
    X["pandas.read_csv"] = read_table("csv")
    X["pandas.read_excel"] = read_table("xlsx")
    X["pandas.ExcelWriter"] = lambda E, path, **k: Opaque("excel writer", path=path)
    V[("FrameV", "to_csv")] = to_csv
    V[("FrameV", "to_excel")] = to_excel
    V[("FrameV", "resample")] = resample
    V[("getattr", "ResampleV")] = resampler_method
    V[("iter", "MapDictV")] = lambda E, o: IterV(o.n, lambda i: o.get(i)[0])
    V[("MapDictV", "items")] = lambda E, o: IterV(o.n, lambda i: o.get(i))
    V[("MapDictV", "values")] = lambda E, o: IterV(o.n, lambda i: o.get(i)[1])
    V[("len", "IdxV")] = lambda E, o: o.n
    V[("len", "MapDictV")] = lambda E, o: o.n
    V[("IdxV", "equals")] = lambda E, a, b: a.term == b.term
    V[("setattr", "FrameV")] = set_frame_attr
    V[("setitem", "FrameV")] = set_frame_item
    V[("getitem", "ILocV")] = iloc_get
    V[("getitem", "LocV")] = loc_get
    V[("getitem", "FrameV")] = getcol
    V[("getitem", "SeriesV")] = lambda E, o, i: loc_get(E, LocV(o), i) if isinstance(i, SeriesV) else (_ for _ in ()).throw(Unsupported("series item"))
    V[("binop", "FrameV")] = elementwise
    V[("binop", "SeriesV")] = elementwise
    V[("compare", "SeriesV")] = series_compare
    V[("len", "FrameV")] = lambda E, o: o.n
    V[("len", "SeriesV")] = lambda E, o: o.n
    V[("as_arr", "FrameV")] = lambda E, o: values(E, o)
    V[("as_arr", "SeriesV")] = lambda E, o: values(E, o)
    V[("isinstance", "FrameV")] = lambda E, v, short: short in ("DataFrame", "object")
    V[("isinstance", "SeriesV")] = lambda E, v, short: short in ("Series", "object")
