"""Symbolic value domain of the verifier.

numbers   : python bool / int / Fraction (a float literal is the decimal it is written as), or z3 terms
            (Int terms are python/numpy integers, Real terms are floats treated as mathematical reals)
heap      : Obj, ListV, DictV, Arr are mutable python objects with identity (aliasing is modelled)
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """construct or operation outside the verified subset"""


class PyExc(Exception):
    """an exception raised by the program under verification"""

    def __init__(self, kind, msg="", value=None):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg
        self.value = value


EXC_PARENTS = {
    "IndexError": "LookupError",
    "KeyError": "LookupError",
    "LookupError": "Exception",
    "ValueError": "Exception",
    "TypeError": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception",
    "JSONDecodeError": "ValueError",
    "AttributeError": "Exception",
    "FileNotFoundError": "OSError",
    "OSError": "Exception",
    "InvalidType": "Exception",
    "InvalidWindow": "Exception",
    "NotImplementedError": "Exception",
    "RuntimeError": "Exception",
    "AssertionError": "Exception",
    "Exception": "BaseException",
}


def exc_matches(kind, handler):
    while kind is not None:
        if kind == handler:
            return True
        kind = EXC_PARENTS.get(kind)
    return False


class NoneT:
    pass


class Opaque:
    """a value nothing is known about; `tag` says where it came from"""

    _n = 0

    def __init__(self, tag, **info):
        self.tag = tag
        self.info = info

    def __repr__(self):
        return f"<opaque {self.tag}>"


class Poison:
    """value whose content is not tracked (reading it is outside the subset)"""

    def __init__(self, why):
        self.why = why


StrSort = z3.DeclareSort("Str")


class Tok:
    """symbolic string (equality only): a z3 constant of sort Str"""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"Tok({self.term})"


_str_consts = {}


def str_term(s):
    if s not in _str_consts:
        _str_consts[s] = z3.Const(f"str!{s}", StrSort)
    return _str_consts[s]


def str_distinct():
    ts = list(_str_consts.values())
    return [z3.Distinct(*ts)] if len(ts) > 1 else []


class FStr:
    """formatted string with symbolic parts"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"FStr({self.parts})"


def fstr_term(f):
    """the text a formatted string stands for, as a function of its symbolic parts"""
    parts = []
    for x in f.parts:  # neighbouring literal parts count as one
        if isinstance(x, (bool, int)) or x is None:
            x = str(x)
        if isinstance(x, FStr):
            x = Tok(fstr_term(x))
        if isinstance(x, str) and parts and isinstance(parts[-1], str):
            parts[-1] += x
        else:
            parts.append(x)
    parts = [x for x in parts if not (isinstance(x, str) and x == "")]
    if all(isinstance(x, str) for x in parts):
        return str_term("".join(parts))
    if len(parts) == 1 and isinstance(parts[0], Tok):
        return parts[0].term
    args, tpl = [], ""
    for x in parts:
        if isinstance(x, str):
            tpl += x.replace("{", "{{")
        elif isinstance(x, Tok):
            args.append(x.term)
            tpl += "{s}"
        elif is_z3(x) and z3.is_int(x):
            args.append(x)
            tpl += "{d}"
        else:
            raise Unsupported(f"text of {x!r}")
    return z3.Function("fmt!" + tpl, *[a.sort() for a in args], StrSort)(*args)


class EnumV:
    """one of a few concrete python values; term is the (Int) index"""

    def __init__(self, term, values):
        self.term = term
        self.values = values

    def __eq__(self, other):  # used by contracts
        if isinstance(other, EnumV):
            assert other.values == self.values
            return self.term == other.term
        for i, v in enumerate(self.values):
            if v == other:
                return self.term == i
        return z3.BoolVal(False)

    def __ne__(self, other):
        return z3.Not(self == other)

    __hash__ = object.__hash__


class SliceV:
    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"SliceV({self.start},{self.stop})"


class TupleV(tuple):
    pass


class Heap:
    _ids = 0
    frozen = False


class Obj(Heap):
    def __init__(self, cls, attrs=None, oid=None, ident=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.oid = oid
        self.ident = ident  # z3/int identity when the object is an element of a symbolic collection

    def __getattr__(self, k):
        if k.startswith("__") or "attrs" not in self.__dict__:
            raise AttributeError(k)
        if self.__dict__.get("ident") is not None and "eng" in self.__dict__ and k not in ("eng", "owner", "snap_versions"):
            v, ok = self.__dict__["eng"].elem_attr(self, k)
            if ok:
                return v
        try:
            return self.__dict__["attrs"][k]
        except KeyError:
            raise AttributeError(f"{self.__dict__.get('cls')}.{k}")

    def __repr__(self):
        return f"<{self.cls} #{self.oid}>"


class ListV(Heap):
    """python list: concrete items, or symbolic length n with element function get(i)"""

    def __init__(self, items=None, n=None, get=None, oid=None, elt=None):
        self.items = items
        self.n = n
        self.get = get
        self.oid = oid
        self.elt = elt  # sort of the elements, if symbolic
        self.owner = None

    @property
    def ref(self):
        """identity of the i-th element of a list of references"""
        if self.items is not None or type(self.elt).__name__ != "ObjListS":
            raise AttributeError("ref")
        g = self.get
        return lambda i: g(i).ident

    @property
    def concrete(self):
        return self.items is not None

    def __len__(self):
        return len(self.items)

    def length(self):
        return len(self.items) if self.concrete else self.n

    def at(self, i):
        if self.concrete:
            if isinstance(i, int):
                return self.items[i]
            if not self.items:
                raise Unsupported("symbolic index in empty list")
            v = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                v = ite(i == j, self.items[j], v)
            return v
        return self.get(i)

    def __getitem__(self, i):
        return self.at(i)

    def __iter__(self):
        if not self.concrete:
            raise Unsupported("iterating a symbolic list in a contract")
        return iter(self.items)

    def __repr__(self):
        return f"ListV({self.items})" if self.concrete else f"ListV(n={self.n})"


class DictV(Heap):
    """python dict with concrete keys, each present under a condition"""

    def __init__(self, d=None, oid=None):
        self.d = d if d is not None else {}  # key -> (present(bool/z3), value)
        self.oid = oid
        self.num = None  # numbers as keys: see models_par

    def __getitem__(self, k):
        return self.d[k][1]

    def __contains__(self, k):
        return k in self.d and self.d[k][0] is True

    def has(self, k):
        return self.d[k][0] if k in self.d else False

    def keys(self):
        return self.d.keys()


class Arr(Heap):
    """numpy array: shape (tuple of ints / Int terms) and element function"""

    def __init__(self, shape, get, kind="f", affine=None, oid=None, base=None):
        self.shape = tuple(shape)
        self.get = get
        self.kind = kind  # 'f' 'i' 'b'
        self.affine = affine  # (start, step) for 1-d integer progressions
        self.oid = oid
        self.base = base
        self.sets = None

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self.get(*i)
        if isinstance(i, int) and i < 0:
            i = self.shape[0] + i
        if len(self.shape) == 2:
            sh, g = self.shape, self.get
            return Arr((sh[1],), lambda j: g(i, j), self.kind)
        return self.get(i)

    def length(self):
        return self.shape[0]

    def __repr__(self):
        return f"Arr{self.shape}"


class DateV:
    """datetime: minutes since proleptic ordinal 0 (Int term)"""

    def __init__(self, minutes, is_date=False):
        self.minutes = minutes
        self.is_date = is_date


class DeltaV:
    def __init__(self, minutes):
        self.minutes = minutes


class FuncV:
    """function object: repo function (def), lambda, bound method, builtin or external"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<func {self.kind} {self.__dict__.get('name', '')}>"


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ClassV:
    def __init__(self, name, info=None):
        self.name = name
        self.info = info

    def __repr__(self):
        return f"<class {self.name}>"


class IterV:
    """a one-pass iterable: n elements (int or Int term), get(i)"""

    def __init__(self, n, get):
        self.n = n
        self.get = get


# ---------------------------------------------------------------- numbers


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (bool, int, Fraction, float)) or (
        is_z3(v) and (z3.is_arith(v) or z3.is_bool(v))
    )


def frac(x):
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))


def is_real(v):
    return isinstance(v, (Fraction, float)) or (is_z3(v) and z3.is_real(v))


def tz(v):
    """z3 term of a number"""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(frac(v))
    raise Unsupported(f"not a number: {v!r}")


def num(v):
    """numeric z3/py value (bools become 0/1)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return frac(v)
    if is_z3(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if not is_num(v):
        raise Unsupported(f"not a number: {v!r}")
    return v


def unify(a, b):
    a, b = tz(num(a)), tz(num(b))
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def conc(v):
    """simplify a z3 term to a python value if it is a literal"""
    if is_z3(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.as_fraction()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if is_z3(v):
        return conc(z3.simplify(v))
    return v


def to_real(v):
    v = num(v)
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return z3.ToReal(v) if z3.is_int(v) else v


# uninterpreted helpers, constrained by instantiated facts (see engine.fact_*)
ROUND = z3.Function("py_round", z3.RealSort(), z3.IntSort())
PMOD = z3.Function("pmod", z3.IntSort(), z3.IntSort(), z3.IntSort())
MINF = z3.Function("minf", z3.RealSort())


def trunc(x):
    """python int(): truncation towards zero"""
    x = num(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if z3.is_int(x):
        return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def ite(c, a, b):
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if a is b:
        return a
    if isinstance(a, Cell) or isinstance(b, Cell):
        x, y = (v if isinstance(v, Cell) else Cell(False, v, is_real(v)) for v in (a, b))
        return Cell(simp(ite(c, x.blank, y.blank)), ite(c, x.val, y.val), simp(ite(c, x.isf, y.isf)))
    if isinstance(a, EnumV) or isinstance(b, EnumV):
        if isinstance(a, EnumV) and isinstance(b, EnumV) and a.values == b.values:
            return EnumV(z3.If(c, a.term, b.term), a.values)
        if isinstance(a, EnumV) and any(type(v) == type(b) and v == b for v in a.values):
            return EnumV(z3.If(c, a.term, a.values.index(b)), a.values)
        if isinstance(b, EnumV) and any(type(v) == type(a) and v == a for v in b.values):
            return EnumV(z3.If(c, b.values.index(a), b.term), b.values)
        raise Unsupported("merge of enum values")
    if is_num(a) and is_num(b):
        if not is_z3(a) and not is_z3(b) and type(a) == type(b) and a == b:
            return a
        if is_bool(a) and is_bool(b):
            return z3.If(c, tz(a), tz(b))
        ta, tb = unify(a, b)
        return z3.If(c, ta, tb)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (str, Tok)) and isinstance(b, (str, Tok)):
        ta = str_term(a) if isinstance(a, str) else a.term
        tb = str_term(b) if isinstance(b, str) else b.term
        return Tok(z3.If(c, ta, tb))
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return SliceV(ite(c, a.start, b.start), ite(c, a.stop, b.stop))
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a) == len(b):
        return TupleV(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.ident is not None and b.ident is not None:
        eng = a.__dict__.get("eng") or b.__dict__.get("eng")
        oa, ob = a.__dict__.get("owner"), b.__dict__.get("owner")
        return eng.elem_obj(a.cls, z3.If(c, tz(a.ident), tz(b.ident)), oa if oa is ob else None,
                            a.__dict__.get("snap_versions"))
    if isinstance(a, DateV) and isinstance(b, DateV):
        return DateV(ite(c, a.minutes, b.minutes), a.is_date)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
        ga, gb = a.get, b.get
        shape = tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape))
        return Arr(shape, lambda *i: ite(c, ga(*i), gb(*i)), a.kind if a.kind == b.kind else "f")
    if isinstance(a, Maybe) or isinstance(b, Maybe) or a is None or b is None:
        na, va = (a.isnone, a.val) if isinstance(a, Maybe) else (a is None, None if a is None else a)
        nb, vb = (b.isnone, b.val) if isinstance(b, Maybe) else (b is None, None if b is None else b)
        if va is None and vb is None:
            return None
        val = vb if va is None else (va if vb is None else ite(c, va, vb))
        isnone = ite(c, na, nb)
        return Maybe(isnone, val)
    if isinstance(a, ListV) and isinstance(b, ListV) and a.concrete and b.concrete and len(a.items) == len(b.items):
        return ListV([ite(c, x, y) for x, y in zip(a.items, b.items)])
    raise Unsupported(f"cannot merge {a!r} and {b!r}")


class Cell:
    """a cell: blank under a condition, its value otherwise; isf: the value is held as a float"""

    def __init__(self, blank, val, isf=False):
        self.blank, self.val, self.isf = blank, val, isf

    def __repr__(self):
        return f"Cell({self.blank},{self.val})"


class Maybe:
    """a value that is None under a condition"""

    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val
