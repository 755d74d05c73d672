"""The table read from a spreadsheet: columns of cells that may be blank (NaN), selections of rows and columns, groups."""
from .values import *


class CellTable(Heap):
    """n rows; cols: name -> (row -> value); sub: selection (key column, key) it was made by"""

    def __init__(self, n, cols, oid=None, sub=None):
        self.n, self.cols, self.oid, self.sub = n, cols, oid, sub


class ColV:
    def __init__(self, table, name):
        self.table, self.name = table, name

    def at(self, i):
        return self.table.cols[self.name](i)


class RowMask:
    def __init__(self, table, name, key):
        self.table, self.name, self.key = table, name, key


class ColMask:
    def __init__(self, table, names):
        self.table, self.names = table, names


class CellLocV:
    def __init__(self, table):
        self.table = table


class ColNames:
    def __init__(self, table):
        self.table = table


KINDS = {"p": StrSort, "i": z3.IntSort(), "f": z3.RealSort(), "s": StrSort}


def fresh_table(E, base, columns, keys):
    """columns: name -> 'i' | 'f' | 's' (numbers, text); keys: columns without blank cells"""
    n = E.freshint(base + ".rows", 1)
    cols = {}
    for c, k in columns.items():
        f = z3.Function(E.name(f"{base}.{c}"), z3.IntSort(), KINDS[k])
        b = z3.Function(E.name(f"{base}.{c}.blank"), z3.IntSort(), z3.BoolSort())
        fl = z3.Function(E.name(f"{base}.{c}.float"), z3.IntSort(), z3.BoolSort())

        def at(i, f=f, b=b, fl=fl, k=k, key=c in keys):
            i = tz(i)
            v = Tok(f(i)) if k in "sp" else f(i)
            if key:
                return v
            return Cell(b(i), v, fl(i) if k != "s" else False)

        cols[c] = at
    return CellTable(n, cols, E.new_oid())


def select(E, t, name, key):
    """the rows whose cell of the column equals the key: (number, j-th row), with their defining facts"""
    memo = E.__dict__.setdefault("cell_rows", {})
    k = (id(t.cols[name]), key.term.sexpr())
    base = f"rows!{len(memo)}"
    if not hasattr(t, "funs"):
        t.funs = tuple(z3.Function(E.name(f"sel.{x}"), StrSort, *([z3.IntSort()] if x != "n" else []), z3.IntSort()) for x in ("n", "row", "pos"))
    fn, fr, fp = t.funs
    return fn(key.term), (lambda j: fr(key.term, tz(j))), (lambda i: fp(key.term, tz(i)))


def selection_facts(E, t, name, key):
    n, row, pos = select(E, t, name, key)
    col = t.cols[name]
    j, l, i = z3.Int("sel!j"), z3.Int("sel!l"), z3.Int("sel!i")
    here = lambda i: col(i).term == key.term
    return [n >= 0,
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(row(j) >= 0, row(j) < t.n, here(row(j)), pos(row(j)) == j)), patterns=[row(j)]),
            z3.ForAll([j, l], z3.Implies(z3.And(j >= 0, j < l, l < n), row(j) < row(l)), patterns=[z3.MultiPattern(row(j), row(l))]),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t.n, here(i)), z3.And(pos(i) >= 0, pos(i) < n, row(pos(i)) == i)), patterns=[pos(i)])]


def distinct(E, t, name):
    """the values of a column in the order of their first appearance"""
    col = t.cols[name]
    if not hasattr(t, "distinct"):
        m = E.freshint("names", 1)
        u = z3.Function(E.name("name"), z3.IntSort(), StrSort)
        first = z3.Function(E.name("first"), z3.IntSort(), z3.IntSort())
        of = z3.Function(E.name("of"), z3.IntSort(), z3.IntSort())
        t.distinct = m, u, first, of
        k, l, i = z3.Int("u!k"), z3.Int("u!l"), z3.Int("u!i")
        E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(first(k) >= 0, first(k) < t.n, col(first(k)).term == u(k), of(first(k)) == k)),
                           patterns=[first(k)]))
        E.assume(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < m), z3.And(first(k) < first(l), u(k) != u(l))), patterns=[z3.MultiPattern(u(k), u(l))]))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t.n), z3.And(of(i) >= 0, of(i) < m, u(of(i)) == col(i).term, first(of(i)) <= i)), patterns=[of(i)]))
    return t.distinct


def same_cell(a, b):
    """equal for unique(): both blank, or neither and of equal value"""
    x, y = (a.val, b.val) if isinstance(a, Cell) else (a, b)
    eq = x.term == y.term if isinstance(x, Tok) else tz(x) == tz(y)
    if isinstance(a, Cell):
        return z3.Or(z3.And(tz(a.blank), tz(b.blank)), z3.And(z3.Not(tz(a.blank)), z3.Not(tz(b.blank)), eq))
    return eq


def unique(E, o):
    t = o.table
    if t.sub is None:
        if isinstance(o.at(0), Cell) or not isinstance(o.at(0), Tok):
            raise Unsupported(f"distinct values of {o.name}")
        m, u, first, of = distinct(E, t, o.name)
        return ListV(None, m, lambda k: Tok(u(tz(k))), oid=E.new_oid())
    m = E.freshint(o.name + ".distinct", 0)
    i = z3.Int("uq!i")
    E.assume((m == 0) == (t.n == 0))
    E.assume((m == 1) == z3.And(t.n >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < t.n), same_cell(o.at(i), o.at(0))))))

    def get(k):
        if simp(k) != 0:
            raise Unsupported("distinct values after the first")
        return o.at(0)

    return ListV(None, m, get, oid=E.new_oid())


def frame_attr(E, o, name):
    if name == "loc":
        return CellLocV(o)
    if name == "columns":
        return ColNames(o)
    if name in o.cols:
        return ColV(o, name)
    h = {"to_dict": to_dict}.get(name)
    if h is None:
        raise Unsupported(f"attribute {name} of a table of cells")
    return FuncV("valmeth", fn=h, obj=o, name=name, self_obj=None)


def frame_item(E, o, i):
    if isinstance(i, str):
        if i not in o.cols:
            raise PyExc("KeyError", i)
        return ColV(o, i)
    if isinstance(i, RowMask):
        return rows_where(E, o, i)
    raise Unsupported("selection of a table of cells")


def rows_where(E, o, m):
    if m.table is not o or o.sub is not None:
        raise Unsupported("rows selected by the cells of another table")
    for f in selection_facts(E, o, m.name, m.key):
        E.assume(f)
    n, row, pos = select(E, o, m.name, m.key)
    if hasattr(o, "distinct"):
        # the key is one of the distinct values: it has a row
        mm, u, first, of = o.distinct
        k = z3.Int("u!k")
        E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < mm, u(k) == m.key.term), z3.And(n >= 1, pos(first(k)) >= 0)), patterns=[u(k)]))
    return CellTable(n, {c: (lambda j, g=g: g(row(j))) for c, g in o.cols.items()}, E.new_oid(), sub=m)


def loc_item(E, o, i):
    t = o.table
    if isinstance(i, RowMask):
        return rows_where(E, t, i)
    if isinstance(i, tuple) and len(i) == 2:
        r, c = i
        if isinstance(r, RowMask):
            t = rows_where(E, t, r)
        elif not (isinstance(r, SliceV) and r.start is None and r.stop is None and r.step is None):
            raise Unsupported("selection of rows")
        if isinstance(c, ColMask):
            names = c.names
        elif isinstance(c, ListV) and c.concrete:
            names = list(c.items)
        else:
            raise Unsupported("selection of columns")
        r = CellTable(t.n, {n: t.cols[n] for n in names}, E.new_oid(), sub=t.sub)
        return r
    raise Unsupported("selection of a table of cells")


def isin(E, o, names):
    names = names.items if isinstance(names, ListV) else list(names)
    return ColMask(o.table, [c for c in o.table.cols if c in names])


def to_dict(E, o, orient="dict"):
    if orient != "records":
        raise Unsupported("to_dict of a table")
    return ListV(None, o.n, lambda j: DictV({c: (True, g(j)) for c, g in o.cols.items()}, oid=E.new_oid()), oid=E.new_oid())


def compare(E, a, b):
    if isinstance(b, ColV):
        a, b = b, a
    if not isinstance(b, (Tok, str)) or not isinstance(a.at(0), Tok):
        raise Unsupported("comparison of a column")
    return RowMask(a.table, a.name, Tok(str_term(b)) if isinstance(b, str) else b)


def blank(E, x):
    if isinstance(x, Cell):
        return x.blank
    if x is None:
        return True
    if is_num(x) or isinstance(x, (str, Tok, FStr)):
        return False
    raise Unsupported(f"blank cell test of {x!r}")


def isnan(E, x):
    if isinstance(x, Cell):
        if isinstance(x.val, Tok):
            raise Unsupported("isnan of a text")
        return x.blank
    if is_num(x):
        return False
    raise Unsupported(f"isnan of {x!r}")


def is_integer(E, x):
    if isinstance(x, Cell):
        if isinstance(x.val, Tok):
            w = z3.Function("is.whole", StrSort, z3.BoolSort())(x.val.term)
        else:
            w = True if is_int(x.val) else tz(x.val) == z3.ToReal(z3.ToInt(tz(x.val)))
        return E.S.And(E.S.Not(x.blank), w)
    return True if is_int(x) else simp(tz(x) == z3.ToReal(z3.ToInt(tz(x))))


def whole(E, x):
    """int() of a cell"""
    if not E.is_valid_qf(z3.Not(tz(x.blank))):
        if E.decide(x.blank, "int() of a blank cell"):
            raise PyExc("ValueError", "cannot convert float NaN to integer")
    if isinstance(x.val, Tok):
        w = z3.Function("is.whole", StrSort, z3.BoolSort())(x.val.term)
        if E.is_valid_qf(z3.And(tz(x.isf), w)):
            return x.val  # the same number
        return Tok(z3.Function("whole.of", StrSort, StrSort)(x.val.term))
    return simp(trunc(x.val))


def cell_is(E, v, short):
    if short in ("float", "floating", "float64"):
        return E.S.Or(v.blank, v.isf)
    if short == "object":
        return True
    if not isinstance(v.val, Tok):
        if short in ("str", "dict", "list", "ndarray"):
            return False
        if short in ("int", "integer"):
            return E.S.And(E.S.Not(v.blank), E.S.Not(v.isf))
    elif v.isf is False and short == "str":
        return E.S.Not(v.blank)
    raise Unsupported(f"whether a cell is a {short}")


def install(E):
    V, X = E.valmeth, E.ext
    V[("getattr", "CellTable")] = frame_attr
    V[("getitem", "CellTable")] = frame_item
    V[("getitem", "CellLocV")] = loc_item
    V[("ColV", "unique")] = unique
    V[("equal", "ColV")] = compare
    V[("ColNames", "isin")] = isin
    V[("Invert", "ColMask")] = lambda E, m: ColMask(m.table, [c for c in m.table.cols if c not in m.names])
    V[("isinstance", "Cell")] = cell_is
    V[("Cell", "is_integer")] = is_integer
    X["pandas.notna"] = X["pandas.notnull"] = lambda E, x: E.S.Not(blank(E, x))
    X["pandas.isna"] = X["pandas.isnull"] = blank
    V[("int", "Cell")] = whole
    X["numpy.isnan"] = isnan
    for n in ("NaN", "nan", "NAN"):
        E.ext_consts["numpy." + n] = Cell(True, 0, True)
