"""Specification helpers, symbolic interpretation (the concrete twin is spec_conc.py)."""
from fractions import Fraction
import z3
from .values import *


class SymS:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    def b(self, x):
        if isinstance(x, bool):
            return x
        if is_z3(x) and z3.is_bool(x):
            return x
        if isinstance(x, Maybe):
            raise Unsupported("maybe value as formula")
        return self.eng.truth_term(x)

    def true_if_none(self, x):
        return True if x is None else x

    def And(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        out = []
        for x in xs:
            x = self.b(x)
            if x is True:
                continue
            if x is False:
                return False
            out.append(x)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def Or(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        out = []
        for x in xs:
            x = self.b(x)
            if x is False:
                continue
            if x is True:
                return True
            out.append(x)
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def Not(self, x):
        x = self.b(x)
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        a, b = self.b(a), self.b(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return tz(a) == tz(b)

    def If(self, c, a, b):
        return ite(self.b(c), a, b)

    def ForAll(self, lo, hi, f, n=1):
        """for all integers lo <= i < hi"""
        lo, hi = simp(lo), simp(hi)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
            return self.And(*[f(i) for i in range(lo, hi)])
        i, body = self._bound("all", f)
        if body is True:
            return True
        return z3.ForAll([i], z3.Implies(z3.And(i >= tz(lo), i < tz(hi)), tz(body)))

    def Exists(self, lo, hi, f, hints=()):
        lo, hi = simp(lo), simp(hi)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
            return self.Or(*[f(i) for i in range(lo, hi)])
        i, body = self._bound("ex", f)
        ex = z3.Exists([i], z3.And(i >= tz(lo), i < tz(hi), tz(body)))
        if hints:
            # likely witnesses spelled out; each disjunct implies the quantified one
            cs = [z3.And(tz(h) >= tz(lo), tz(h) < tz(hi), tz(self.b(f(h)))) for h in hints]
            return z3.Or(*cs, ex)
        return ex

    def some(self, c, specs, body):
        """existential: a fresh witness when assumed, one of the contract's candidate witnesses when proved"""
        if c.draws is None:
            vals = []
            for name, sort, _ in specs:
                v = self.eng.fresh(sort, f"some.{name}")
                vals.append(v)
                c.__dict__.setdefault("wit", {})[name] = v
            return body(*vals)
        import itertools

        cands = [list(f()) for _, _, f in specs]
        out = []
        for combo in itertools.islice(itertools.product(*cands), 60):
            out.append(body(*combo))
        if not out:
            raise Unsupported("no candidate witness for " + ", ".join(n for n, _, _ in specs))
        return self.Or(*out)

    def draws(self, c, kind=None):
        return [d for d in c.draws if kind is None or d.kind == kind]

    def arg(self, rec, name):
        return getattr(rec.args, name)

    def calls(self, c, name):
        return [r for r in c.calls if r.short.split("[")[0].split(".")[-1] == name]

    def _bound(self, base, f):
        """bound variables are named by nesting depth: the same statement is the same formula wherever it is made"""
        d = self.depth = getattr(self, "depth", 0) + 1
        try:
            i = z3.Int(f"{base}!{d}")
            return i, self.b(f(i))
        finally:
            self.depth = d - 1

    def num(self, x):
        x = self.unmaybe(x)
        if isinstance(x, EnumV):
            return self.eng.enum_num(x)
        return num(x)

    def unmaybe(self, x):
        return x.val if isinstance(x, Maybe) else x

    def isnone(self, x):
        if isinstance(x, Maybe):
            return x.isnone
        return x is None

    def val(self, x):
        """the value of an optional, given that it is not None"""
        return x.val if isinstance(x, Maybe) else x

    def eq(self, a, b):
        a, b = self.unmaybe(a), self.unmaybe(b)
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            a, b = (a, b) if isinstance(a, EnumV) else (b, a)
            if is_num(b):
                return self.eng.eq_num(self.eng.enum_num(a), b)
            return a == b
        if is_num(a) and is_num(b):
            return self.eng.eq_num(a, b)
        r = self.eng.same_value(a, b)
        if r is None:
            raise Unsupported(f"specification equality of {a!r} and {b!r}")
        return r

    def same(self, a, b):
        return self.eq(a, b)

    def ne(self, a, b):
        return self.Not(self.eq(a, b))

    def le(self, a, b):
        return self.eng.cmp_num(lambda x, y: x <= y, self.num(a), self.num(b))

    def lt(self, a, b):
        return self.eng.cmp_num(lambda x, y: x < y, self.num(a), self.num(b))

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def between(self, lo, x, hi):
        return self.And(self.le(lo, x), self.le(x, hi))

    def add(self, *xs):
        r = self.num(xs[0])
        for x in xs[1:]:
            r = self.eng.num_binop("Add", r, self.num(x))
        return r

    def sub(self, a, b):
        return self.eng.num_binop("Sub", self.num(a), self.num(b))

    def mul(self, *xs):
        r = self.num(xs[0])
        for x in xs[1:]:
            r = self.eng.num_binop("Mult", r, self.num(x))
        return r

    def div(self, a, b):
        a, b = self.num(a), self.num(b)
        if not is_z3(a) and not is_z3(b):
            return Fraction(a) / Fraction(b)
        return tz(to_real(a)) / tz(to_real(b))

    def R(self, s):
        return Fraction(str(s))

    def trunc(self, x):
        return trunc(self.num(x))

    def floor(self, x):
        x = to_real(self.num(x))
        if isinstance(x, Fraction):
            return x.__floor__()
        return z3.ToInt(x)

    def ceil(self, x):
        x = to_real(self.num(x))
        if isinstance(x, Fraction):
            return x.__ceil__()
        return -z3.ToInt(-x)

    def round(self, x):
        return self.eng.round_(self.num(x))

    def min(self, a, b):
        return ite(self.le(a, b), self.num(a), self.num(b))

    def max(self, a, b):
        return ite(self.le(a, b), self.num(b), self.num(a))

    def abs(self, x):
        x = self.num(x)
        return abs(x) if not is_z3(x) else z3.If(x >= 0, x, -x)

    def len(self, x):
        x = self.unmaybe(x)
        if hasattr(x, "length"):
            return x.length()
        return len(x)

    def at(self, x, *i):
        x = self.unmaybe(x)
        if isinstance(x, Arr):
            return x.get(*i)
        if hasattr(x, "at"):
            return x.at(i[0])
        return x[i[0]]

    def colsum(self, a):
        """sum over the rows of a matrix"""
        from .models_np import sum_rows

        return sum_rows(self.eng, a, "sum")

    def mean(self, a):
        from .models_np import functional

        return functional("mean")(self.eng, a)

    def amax(self, a):
        from .models_np import reduce_

        return reduce_(self.eng, "max")(self.eng, a)

    def positions(self, n, cond):
        """the sorted positions below n at which cond holds"""
        from .models_np import index_set

        return index_set(self.eng, lambda i: self.b(cond(i)), n, "pos")

    def div_int(self, i, n):
        return self.eng.num_binop("FloorDiv", num(i), num(n))

    def is_int(self, v):
        return is_int(v) and not is_bool(v)

    def mod(self, i, n):
        return self.eng.pmod(i, n)

    def is_(self, a, b):
        if isinstance(a, Heap):
            return a is b or getattr(a, "oid", 0) == getattr(b, "oid", 1)
        return a is b

    def is_elem(self, o, lst, i):
        """o is the object at position i of the list"""
        if not isinstance(o, Obj):
            return False
        return self.eng.eq_num(self.eng.refid(o), lst.ref(tz(i)))

    def ordinal(self, d):
        """proleptic Gregorian ordinal of the day of a date"""
        from .models_pd import ord_of

        return ord_of(self.eng, d)

    def every(self, cls, f):
        """for every instance of the class (a class invariant)"""
        i, body = self._bound("all", lambda i: f(self.eng.elem_obj(cls, i)))
        return z3.ForAll([i], tz(body))

    def others_keep(self, c, cls, attr, ref=None):
        """the attribute of every instance that was there (other than the one given) is what it was"""
        eng = self.eng

        def one(i):
            new, old = eng.elem_obj(cls, i), eng.elem_obj(cls, i, versions=c.versions)
            a, b = getattr(new, attr), getattr(old, attr)
            same = self.eng.eq_num(self.refid(a), self.refid(b)) if isinstance(a, Obj) else self.eq(a, b)
            return same if ref is None else self.Or(i == tz(ref), same)

        i, body = self._bound("all", one)
        return z3.ForAll([i], z3.Implies(i >= 0, tz(body)))

    def opt(self, d, key, default):
        """the value of an optional key"""
        if key not in d.d:
            return default
        p, v = d.d[key]
        if p is True or p is False:
            return v if p else default
        if isinstance(v, EnumV):
            v = v if isinstance(default, EnumV) else v
        return ite(p, v, default)

    def maybe(self, d, key):
        """an optional key as an optional value"""
        if key not in d.d or d.d[key][0] is False:
            return None
        p, v = d.d[key]
        return v if p is True else Maybe(z3.Not(p), v)

    def has(self, d, key):
        return d.d[key][0] if key in d.d else False

    def minutes(self, d):
        """minutes since the start of the calendar"""
        return d.minutes

    def refusals(self, c):
        return [(e[1].split(":")[1], e[2]) for e in c.events if e[0] == "refused"]

    def jan1(self, y):
        from .models_pd import jan1

        return jan1(self.eng, y)

    def iso_valid(self, t):
        from .models_pd import iso_ok

        return iso_ok(t.term)

    def iso_date(self, t):
        from .models_pd import iso_min

        return DateV(iso_min(t.term), True)

    def json(self, t):
        """number of rows, values and number of columns of the table a JSON text stands for"""
        from .models_df import JCOLS, JROWS, JVAL

        x = t.term if isinstance(t, Tok) else str_term(t)
        return JROWS(x), lambda i, j: JVAL(x, tz(i), tz(j)), JCOLS(x)

    def matrix(self, v):
        """element (row, minute) of a matrix or a list of rows"""
        if isinstance(v, Arr):
            return v.get
        return lambda i, j: v.at(i).get(j)

    def rows(self, v):
        """a list of arrays"""
        if not isinstance(v, ListV):
            return False
        return all(isinstance(x, Arr) for x in v.items) if v.concrete else type(v.elt).__name__ == "ArrS"

    def concretely_empty(self, v):
        return v.concrete and not v.items

    def partial(self, v):
        """sums of the first k rows"""
        from .models_np import partial_sums

        f = partial_sums(self.eng, self.matrix(v))
        return lambda k, m: f(tz(k), tz(m))

    def unfold(self, v, k):
        from .models_np import unfold

        unfold(self.eng, self.matrix(v), k)

    # tables of records
    def table(self, rows):
        from .models_rec import RecV

        rows = list(rows)
        return RecV(len(rows), lambda i: rows[0 if len(rows) == 1 else i], self.eng.new_oid())

    def power_cell(self, arr):
        from .models_rec import PowerCell

        return PowerCell(arr)

    def power_as_saved(self, cell, arr):
        """the value of a constant power, the list of the values of any other"""
        from .models_rec import PowerCell

        cell = self.eng.force(cell)
        if isinstance(cell, PowerCell):
            a, b = cell.arr, arr
            return self.And(self.eq(self.len(a), self.len(b)), self.ForAll(0, self.len(b), lambda i: self.eq(self.at(a, i), self.at(b, i))))
        flat = self.ForAll(0, self.len(arr), lambda i: self.eq(self.at(arr, i), self.at(arr, 0)))
        if is_num(cell):
            return self.And(flat, self.eq(cell, self.at(arr, 0)))
        if isinstance(cell, (ListV, Arr)):
            return self.And(self.Not(flat), self.eq(self.len(cell), self.len(arr)), self.ForAll(
                0, self.len(arr), lambda i: self.eq(self.at(cell, i), self.at(arr, i))))
        return False

    def stack(self, n, part):
        from .models_rec import StackV

        return StackV(ListV(None, n, part), self.eng.new_oid())

    def parts_of(self, v):
        p = v.parts
        if p.concrete:
            return len(p.items), (lambda i: p.items[i])
        return p.n, p.get

    def is_rows(self, v):
        from .models_rec import RecV

        return isinstance(v, RecV)

    def is_stack(self, v):
        from .models_rec import StackV

        return isinstance(v, StackV)

    def rows_of(self, v):
        """(number of rows, row) of a table of records or of one-row tables one below the other"""
        from .models_rec import RecV

        if isinstance(v, RecV):
            return v.n, v.rec
        p = v.parts
        n = len(p.items) if p.concrete else p.n

        def row(i):
            t = self.eng.force(p.items[i] if p.concrete else p.get(i))
            if not isinstance(t, RecV) or t.n != 1:
                raise Unsupported("rows of a table of several parts")
            return t.rec(0)

        return n, row

    # cells of a spreadsheet
    def groups(self, t, name):
        """(number of distinct values of the column, k-th in order of appearance)"""
        from .models_cells import distinct
        from .values import Tok

        m, u, first, of = distinct(self.eng, t, name)
        return m, lambda k: Tok(u(tz(k)))

    def rows_with(self, t, name, key):
        """(number of rows with the key in the column, number of the j-th of them)"""
        from .models_cells import select

        n, row, pos = select(self.eng, t, name, key)
        return n, row

    def cell(self, t, name, i):
        """(blank, value) of a cell"""
        from .values import Cell

        v = t.cols[name](self.tz(i))
        return (v.blank, v.val) if isinstance(v, Cell) else (False, v)

    def content(self, v):
        """(blank, value) of what a cell was turned into"""
        from .values import Cell

        return (v.blank, v.val) if isinstance(v, Cell) else (False, v)

    def same_cells(self, t, name, i, j):
        from .models_cells import same_cell

        return same_cell(t.cols[name](self.tz(i)), t.cols[name](self.tz(j)))

    # files
    def join(self, *parts):
        from .models_os import join

        return join(self.eng, *parts)

    def fn(self, name, *args):
        """the text an external function gives, as used by its model"""
        from .models_os import text_fn

        return text_fn(name, *args)

    def glob(self, module, name):
        return self.eng.load_global(name, self.eng.program.modules[module])

    def is_tuple(self, v):
        return isinstance(v, tuple)

    def is_array(self, v):
        return isinstance(v, Arr)

    def simp(self, x):
        return simp(x)

    def ns(self, d):
        from .engine import NS

        return NS(**d)

    def attr(self, o, name):
        """an attribute of a date and the like"""
        return self.eng.getattr(o, name)

    def endswith(self, t, suffix):
        from .builtins_ import endswith

        t = t if isinstance(t, (Tok, str)) else Tok(fstr_term(t))
        return endswith(self.eng, t, suffix)

    def certain(self, f):
        return f is True or not isinstance(f, bool) and self.eng.prove(f, quick=True)[0] == "proved"

    def isdir(self, p):
        from .models_cli import isdir

        return isdir(self.eng, p)

    def listing(self, p):
        """the names in a folder"""
        from .models_cli import listdir

        return listdir(self.eng, p)

    def place_in_listing(self, p, name):
        """where a name stands in a folder's listing"""
        from .models_cli import place

        return place(self.eng, p, name)

    def count(self, lst, cond):
        """how many elements satisfy the condition"""
        j = z3.Int("cnt!j")
        return self.eng.counted(lst.n, j, tz(cond(lst.at(j))))

    def has_number(self, t):
        from .models_cli import HAS_DIGITS, text_term

        return HAS_DIGITS(text_term(t))

    def number_in(self, t):
        from .models_cli import DIGITS, text_term

        return DIGITS(text_term(t))

    def month_days(self, y, m):
        from .models_cli import month_days

        return month_days(self.eng, y, m)

    def ymd(self, y, m, d):
        """ordinal of a date"""
        from .models_pd import ordinal

        return ordinal(self.eng, y, m, d)

    def date_index(self, v):
        return getattr(v, "dates", None)

    # tables
    def is_table(self, v):
        return type(v).__name__ == "FrameV"

    def is_series(self, v):
        return type(v).__name__ == "SeriesV"

    def is_map(self, v):
        return type(v).__name__ == "MapDictV" or isinstance(v, DictV)

    def label(self, f, j):
        return f.label(j if isinstance(j, int) and f.labels is not None else self.tz(j))

    def rowsum(self, f, i):
        from .models_df import row_fn

        return row_fn(self.eng, f, "sum")(i)

    def has_column(self, f, t):
        if f.labels is not None:
            return self.Or(*[self.eng.eq_str(x, t) for x in f.labels])
        p = f.pos(t.term if isinstance(t, Tok) else str_term(t))
        return z3.And(p >= 0, p < tz(f.m))

    def column(self, f, t):
        if f.labels is not None:
            raise Unsupported("column of a table with fixed labels")
        p = f.pos(t.term if isinstance(t, Tok) else str_term(t))
        return lambda i: f.get(tz(i), p)

    def missing(self, s, i):
        return False if s.nan is None else s.nan(tz(i))

    def entry(self, m, j):
        if isinstance(m, DictV):
            raise Unsupported("entry of a dictionary with fixed keys")
        return m.get(j)

    def origin_rows(self, r, f):
        """positions of the entries of a selection in the table it was made from"""
        if not hasattr(r, "where"):
            raise Unsupported("entries not selected by a mask")
        return r.where

    def resampled(self, f):
        if f.origin is None:
            raise Unsupported("table computed from a resampled one")
        return f.origin

    def ios(self, c):
        return [(e[1], e[2]) for e in c.events if e[0] == "io"]

    def same_source(self, f, c):
        return getattr(f, "source", None) is not None

    def ends(self, t, suffix):
        from .builtins_ import ends_with

        return ends_with(self.eng, t, suffix)

    def tz(self, x):
        return tz(x)

    def refid(self, o):
        return self.eng.refid(o)

    def text(self, *parts):
        """the text made of the parts"""
        return Tok(fstr_term(FStr(list(parts))))

    def true(self):
        return True
