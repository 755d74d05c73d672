"""Python builtins and standard library functions as seen by the verifier.

Randomness: every draw from `random` is an external contract (its documented range) and is logged, so that
contracts can speak about the distribution parameters and counterexamples can be replayed with a script.
"""
from fractions import Fraction
import string
import z3
from .values import *
from . import models_par
from .engine import NS, Engine


def _cls_name(t):
    return t.name if isinstance(t, (ClassV, FuncV, ModV)) else str(t)


def isinstance_(E, v, t):
    v = E.force(v)
    if isinstance(t, TupleV):
        return E.S.Or(*[isinstance_(E, v, x) for x in t])
    n = _cls_name(t)
    short = n.split(".")[-1]
    if isinstance(v, EnumV):
        return E.S.Or(*[v.term == i for i, x in enumerate(v.values) if isinstance_(E, E.lift(x), t) is True])
    if is_bool(v):
        return short in ("bool", "int", "object", "Number", "Real", "Integral")
    if is_int(v):
        return short in ("int", "object", "Number", "Real", "Integral", "integer")
    if is_real(v):
        return short in ("float", "object", "Number", "Real", "float64", "floating")
    if isinstance(v, (str, Tok, FStr)):
        return short in ("str", "object")
    if isinstance(v, ListV):
        return short in ("list", "object", "Iterable", "List", "Sequence")
    if isinstance(v, TupleV):
        return short in ("tuple", "object", "Iterable", "Sequence")
    if isinstance(v, DictV):
        return short in ("dict", "object")
    if isinstance(v, Arr):
        return short in ("ndarray", "object", "Iterable")
    if isinstance(v, Obj):
        if v.cls == short:
            return True
        ci = E.program.find_class(v.cls)
        return short == "object" or (ci is not None and short in ci.bases)
    if isinstance(v, SliceV):
        return short == "slice"
    if v is None:
        return short in ("NoneType", "object")
    if isinstance(v, DateV):
        if short == "date":
            return True
        return short in ("datetime", "Timestamp") and not v.is_date
    if isinstance(v, Opaque):
        if "classes" in v.info:
            return short in v.info["classes"]
        raise Unsupported(f"isinstance of {v!r}")
    h = E.valmeth.get(("isinstance", type(v).__name__))
    if h:
        return h(E, v, short)
    raise Unsupported(f"isinstance({v!r}, {n})")


def pick(E, v):
    """one of a few concrete values: a path for each of them"""
    for i, x in enumerate(v.values[:-1]):
        if E.decide(v.term == i, f"the value is {x!r}"):
            return x
    return v.values[-1]


def range_(E, *a, **kw):
    a = [num(pick(E, x) if isinstance(x, EnumV) else x) for x in map(E.force, a)]
    for x in a:
        if not is_int(x):
            raise PyExc("TypeError", "range of a float")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    st = simp(st)
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    lo, hi = simp(lo), simp(hi)
    if isinstance(lo, int) and isinstance(hi, int):
        r = range(lo, hi, st)
        it = IterV(len(r), lambda i: r[i] if isinstance(i, int) else simp(tz(lo) + tz(i) * st))
        it.affine = (lo, st, len(r))
        return it
    if st == 1:
        d = simp(tz(hi) - tz(lo))
        n = simp(z3.If(tz(d) >= 0, tz(d), z3.IntVal(0)))
    elif st == -1:
        d = simp(tz(lo) - tz(hi))
        n = simp(z3.If(tz(d) >= 0, tz(d), z3.IntVal(0)))
    else:
        raise Unsupported("symbolic range with step")
    it = IterV(n, lambda i: simp(tz(lo) + tz(i) * st))
    it.affine = (lo, st, n)
    return it


def len_(E, v):
    v = E.force(v)
    if isinstance(v, ListV):
        return v.length()
    if isinstance(v, (TupleV, str)):
        return len(v)
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, DictV):
        n = 0
        for p, _ in v.d.values():
            n = E.num_binop("Add", n, p if p is not True else 1)
        return simp(n)
    if isinstance(v, IterV):
        return v.n
    h = E.valmeth.get(("len", type(v).__name__))
    if h:
        return h(E, v)
    raise Unsupported(f"len of {v!r}")


def enumerate_(E, v, start=0):
    it = E.iterate(v)
    return IterV(it.n, lambda i: TupleV((E.num_binop("Add", i, start) if start != 0 else i, it.get(i))))


def zip_(E, *vs):
    its = [E.iterate(v) for v in vs]
    ns = [simp(i.n) for i in its]
    if all(isinstance(n, int) for n in ns):
        n = min(ns) if ns else 0
    else:
        n = ns[0]
        for m in ns[1:]:
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif is_z3(n) and is_z3(m) and n.eq(m):
                pass
            else:
                n = simp(z3.If(tz(n) <= tz(m), tz(n), tz(m)))
    return IterV(n, lambda i: TupleV(t.get(i) for t in its))


def minmax(name):
    def f(E, *a, **kw):
        if "key" in kw:
            raise Unsupported(f"{name} with key")
        default = kw.get("default", E.MISSING)
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Arr):
                return E.ext["numpy." + name](E, v)
            it = E.iterate(v)
            n = simp(it.n)
            if not isinstance(n, int):
                return extremum(E, it, name, default)
            a = [it.get(i) for i in range(n)]
            if not a:
                if default is not E.MISSING:
                    return default
                raise PyExc("ValueError", f"{name}() of empty sequence")
        a = [E.enum_num(x) if isinstance(x, EnumV) else x for x in map(E.force, a)]
        r = a[0]
        for x in a[1:]:
            if isinstance(x, DateV):
                c = E.cmp_num(lambda p, q: p < q, x.minutes, r.minutes)
            else:
                c = E.cmp_num((lambda p, q: p < q) if name == "min" else (lambda p, q: p > q), x, r)
            if is_num(x) and is_num(r) and is_int(x) != is_int(r) and not isinstance(c, bool):
                # keep the python type of the chosen operand
                r = x if E.decide(c) else r
            else:
                r = ite(c, x, r)
        return r

    return f


def extremum(E, it, name, default=None):
    n = tz(it.n)
    if not E.decide(n > 0):
        if default is not E.MISSING:
            return default
        raise PyExc("ValueError", f"{name}() of empty sequence")
    w = E.freshint(f"{name}.at", 0)
    E.assume(w < n)
    m = it.get(w)
    i = z3.Int(E.name("ext!i"))
    f = (lambda x: tz(x) <= tz(m)) if name == "max" else (lambda x: tz(x) >= tz(m))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(it.get(i)))))
    return m


def round_(E, x, nd=None):
    x = E.force(x)
    if nd is not None:
        raise Unsupported("round with digits")
    if isinstance(x, EnumV):
        x = E.enum_num(x)
    return E.round_(num(x))


def _round(self, x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return round(x)
    if z3.is_int(x):
        return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    r = ROUND(x)
    key = x.sexpr()
    if key not in self.round_done:
        self.round_done.add(key)
        rr = z3.ToReal(r)
        n_pc = len(self.pc)
        self.assume(z3.And(rr - x <= z3.RealVal("1/2"), x - rr <= z3.RealVal("1/2")))
        k = z3.Int("half!" + str(len(self.round_done)))
        self.assume(z3.Implies(z3.Or(rr - x == z3.RealVal("1/2"), x - rr == z3.RealVal("1/2")), r == 2 * k))
        self.axioms += self.pc[n_pc:]
    return r


def _pmod(self, i, n):
    i, n = simp(i), simp(n)
    if isinstance(i, int) and isinstance(n, int) and n > 0:
        return i % n
    if isinstance(n, int) and n > 0:
        return tz(i) % n
    if "pmod" not in self.round_done:
        self.round_done.add("pmod")
        a, b = z3.Ints("pm!a pm!b")
        self.assume(
            z3.ForAll(
                [a, b],
                z3.And(
                    z3.Implies(b > 0, z3.And(PMOD(a, b) >= 0, PMOD(a, b) < b)),
                    z3.Implies(z3.And(0 <= a, a < b), PMOD(a, b) == a),
                ),
                patterns=[PMOD(a, b)],
            )
        )
    return PMOD(tz(i), tz(n))


def abs_(E, x):
    x = num(x)
    return abs(x) if not is_z3(x) else z3.If(x >= 0, x, -x)


def int_(E, x=0, base=None):
    x = E.force(x)
    if isinstance(x, EnumV):
        x = E.enum_num(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyExc("ValueError", "int()")
    if isinstance(x, (Tok, FStr, Opaque)):
        key = ("int", x.term.sexpr()) if isinstance(x, Tok) else None
        if key is None:
            return E.freshint("int.parsed")
        f = z3.Function("int.of.str", StrSort, z3.IntSort())
        return f(x.term)
    if isinstance(x, Arr) and len(x.shape) == 1 and x.shape[0] == 1:
        x = x.get(0)
    if not is_num(x):
        h = E.valmeth.get(("int", type(x).__name__))
        if h:
            return h(E, x)
        raise Unsupported(f"int({x!r})")
    return simp(trunc(x))


def float_(E, x=0):
    if isinstance(x, (int, Fraction)) or is_z3(x):
        return to_real(x)
    raise Unsupported(f"float({x!r})")


def str_(E, x=""):
    if isinstance(x, (str, Tok, FStr)):
        return x
    if isinstance(x, (bool, int)) or x is None:
        return str(x)
    return FStr([x])


def sum_(E, v, start=0):
    if isinstance(v, Arr) and len(v.shape) == 1:
        return E.num_binop("Add", E.ext["numpy.sum"](E, v), start)
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = E.binop("Add", r, it.get(i))
        return r
    return E.seq_sum(it, start)


def _seq_sum(self, it, start):
    """sum over a symbolic sequence: recursive sum function with its defining axioms"""
    v0 = it.get(z3.Int("sum!probe"))
    v0 = self.force(v0)
    if isinstance(v0, Arr):
        from .models_np import partial_sums

        if len(v0.shape) != 1 or (is_z3(v0.shape[0]) and "sum!probe" in v0.shape[0].sexpr()):
            raise Unsupported("sum of arrays of several shapes")

        def row(k, m):
            return self.force(it.get(k)).get(m)

        f = partial_sums(self, row)
        k, m = z3.Int("sum!k"), z3.Int("sum!m")
        self.assume(z3.ForAll([k, m], z3.Implies(k >= 0, f(k + 1, m) == f(k, m) + tz(to_real(row(k, m))))))
        n = tz(it.n)
        a = Arr(v0.shape, lambda i: f(n, tz(i)), "f", oid=self.new_oid())
        return a if start == 0 else self.binop("Add", a, start)
    raise Unsupported("sum over a symbolic sequence")


def any_(E, v):
    if isinstance(v, Arr):
        return E.ext["numpy.any"](E, v)
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int):
        return E.S.Or(*[E.S.b(it.get(i)) for i in range(n)])
    i = z3.Int(E.name("any!i"))
    return z3.Exists([i], z3.And(i >= 0, i < tz(n), tz(E.S.b(it.get(i)))))


def all_(E, v):
    if isinstance(v, Arr):
        return E.ext["numpy.all"](E, v)
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int):
        return E.S.And(*[E.S.b(it.get(i)) for i in range(n)])
    i = z3.Int(E.name("all!i"))
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(n)), tz(E.S.b(it.get(i)))))


def hasattr_(E, o, name):
    if isinstance(o, Obj):
        if name in o.attrs:
            return True
        ci = E.program.find_class(o.cls)
        return bool(ci and (name in ci.props or name in ci.methods or name in ci.consts))
    raise Unsupported("hasattr")


def getattr_(E, o, name, *default):
    if not isinstance(name, str):
        h = E.valmeth.get(("getattr", type(o).__name__))
        if h is not None and isinstance(name, (Tok, FStr)):
            return h(E, o, name)
        raise Unsupported("getattr with a computed name")
    try:
        return E.getattr(o, name)
    except PyExc as e:
        if e.kind == "AttributeError" and default:
            return default[0]
        raise


def setattr_(E, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr with a computed name")
    E.setattr(o, name, v)


def type_(E, v):
    if isinstance(v, Obj):
        return ClassV(v.cls, E.program.find_class(v.cls))
    if is_bool(v):
        return ClassV("bool")
    if is_int(v):
        return ClassV("int")
    if is_real(v):
        return ClassV("float")
    for c, n in ((str, "str"), (Tok, "str"), (ListV, "list"), (TupleV, "tuple"), (DictV, "dict")):
        if isinstance(v, c):
            return ClassV(n)
    return Opaque("type")


def map_(E, f, v):
    it = E.iterate(v)
    return IterV(it.n, lambda i: E.call(f, [it.get(i)]))


def reversed_(E, v):
    it = E.iterate(v)
    n = it.n
    return IterV(n, lambda i: it.get(simp(E.num_binop("Sub", E.num_binop("Sub", n, 1), i))))


def next_(E, v, *default):
    lv = v if isinstance(v, (ListV, IterV)) else E.iterate(v)
    n = lv.length() if isinstance(lv, ListV) else lv.n
    if E.decide(tz(n) > 0 if not isinstance(n, int) else n > 0):
        return lv.at(0) if isinstance(lv, ListV) else lv.get(0)
    if default:
        return default[0]
    raise PyExc("StopIteration", "next")


def sorted_(E, v, key=None, reverse=False):
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int) and n <= 1:
        return E.to_list(v)
    return E.sort_model(v, key, reverse)


def noop(E, *a, **k):
    return None


def slice_(E, *a):
    if len(a) == 1:
        return SliceV(None, a[0])
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def bool_(E, v=False):
    return E.truth_term(v)


def list_(E, v=None):
    return ListV([], oid=E.new_oid()) if v is None else E.to_list(v)


def tuple_(E, v=None):
    if v is None:
        return TupleV()
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int):
        return TupleV(it.get(i) for i in range(n))
    return E.to_list(v)


def dict_(E, v=None, **kw):
    d = DictV({}, oid=E.new_oid())
    if isinstance(v, DictV):
        d.d.update(v.d)
    elif v is not None:
        it = E.iterate(v)
        n = simp(it.n)
        if not isinstance(n, int):
            raise Unsupported("dict of symbolic sequence")
        for i in range(n):
            k, x = it.get(i)
            d.d[k] = (True, x)
    for k, x in kw.items():
        d.d[k] = (True, x)
    return d


# ------------------------------------------------------------------ random


def draw(E, kind, params, value):
    rec = NS(kind=kind, params=params, value=value, index=len(E.draws))
    E.draws.append(rec)
    E.events.append(("draw", rec))
    for hook in E.contract.on_draw(E.S, rec, E.ghost) or ():
        E.set_ghost(*hook)
    return value


def uniform(E, a, b):
    a, b = num(a), num(b)
    x = E.freshreal("uniform")
    ra, rb = tz(to_real(a)), tz(to_real(b))
    E.assume(z3.Or(z3.And(ra <= x, x <= rb), z3.And(rb <= x, x <= ra)))
    return draw(E, "uniform", {"a": a, "b": b}, x)


def randint(E, a, b):
    a, b = num(a), num(b)
    if not is_int(a) or not is_int(b):
        raise PyExc("ValueError", "randint with a non-integer")
    if not E.decide(E.cmp_num(lambda x, y: x <= y, a, b), "randint range"):
        raise PyExc("ValueError", "empty range for randint")
    x = E.freshint("randint")
    E.assume(z3.And(tz(a) <= x, x <= tz(b)))
    return draw(E, "randint", {"a": a, "b": b}, x)


def randrange(E, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if step != 1:
        raise Unsupported("randrange step")
    return randint(E, a, E.num_binop("Sub", b, 1))


def normal(E, mu=0, sigma=1):
    return draw(E, "normal", {"mu": mu, "sigma": sigma}, E.freshreal("normal"))


def random_(E):
    x = E.freshreal("random", 0, 1)
    E.assume(x < 1)
    return draw(E, "random", {}, x)


def choice(E, seq):
    if isinstance(seq, IterV):
        seq = E.to_list(seq)
    n = len_(E, seq)
    if not E.decide(tz(n) > 0 if is_z3(n) else n > 0):
        raise PyExc("IndexError", "choice from an empty sequence")
    if isinstance(n, int) and n <= 4 and not all(is_num(x) for x in seq):
        i = E.choose(n, "random.choice")
        draw(E, "choice", {"n": n}, i)
        return E.getitem(seq, i)
    i = E.freshint("choice", 0)
    E.assume(i < tz(n))
    draw(E, "choice", {"n": n}, i)
    return seq.at(i) if isinstance(seq, ListV) else E.getitem(seq, i)


def seed(E, s=None, **kw):
    E.events.append(("seed", s))
    if not E.contract.seeds:
        E.oblige(f"{E.contract.short}: the generator is seeded only when a use case is created", False, "rng")
    return None


def rng_unknown(name):
    def f(E, *a, **k):
        E.events.append(("other_rng", name))
        E.oblige(f"{E.contract.short}: random numbers come from the seeded generator only ({name})", False, "rng")

    return f


def unmodelled(name):
    def f(E, *a, **k):
        raise Unsupported(name)

    return f


def ceil(E, x):
    x = to_real(num(x))
    return x.__ceil__() if isinstance(x, Fraction) else simp(-z3.ToInt(-x))


def floor(E, x):
    x = to_real(num(x))
    return x.__floor__() if isinstance(x, Fraction) else simp(z3.ToInt(x))


def math_trunc(E, x):
    return simp(trunc(x))


def fabs(E, x):
    x = to_real(num(x))
    return abs(x) if isinstance(x, Fraction) else z3.If(x >= 0, x, -x)


def warn(E, *a, **k):
    E.events.append(("warn", a[0] if a else None))


def copy_(E, v):
    if isinstance(v, Arr):
        return Arr(v.shape, v.get, v.kind, v.affine, oid=E.new_oid())
    if isinstance(v, ListV):
        return ListV(None if v.items is None else list(v.items), v.n, v.get, oid=E.new_oid(), elt=v.elt)
    if isinstance(v, DictV):
        return DictV(dict(v.d), oid=E.new_oid())
    if is_num(v) or isinstance(v, (str, Tok, TupleV, SliceV)):
        return v
    raise Unsupported("copy of an object")


def install(E):
    Engine.round_ = _round
    Engine.pmod = _pmod
    Engine.seq_sum = _seq_sum
    B = E.builtins
    B.update(
        {
            "isinstance": isinstance_, "range": range_, "len": len_, "enumerate": enumerate_, "zip": zip_,
            "min": minmax("min"), "max": minmax("max"), "abs": abs_, "round": round_, "int": int_, "float": float_,
            "str": str_, "sum": sum_, "any": any_, "all": all_, "hasattr": hasattr_, "getattr": getattr_,
            "setattr": setattr_, "type": type_, "map": map_, "reversed": reversed_, "next": next_, "iter": lambda E, v: E.iterate(v),
            "sorted": sorted_, "print": noop, "slice": slice_, "bool": bool_, "list": list_, "tuple": tuple_,
            "dict": dict_, "input": lambda E, *a: Tok(z3.Const(E.name("input"), StrSort)), "repr": lambda E, v: FStr([v]),
            "divmod": lambda E, a, b: TupleV((E.num_binop("FloorDiv", a, b), E.num_binop("Mod", a, b))),
            "set": lambda E, v=None: Opaque("set"), "pow": lambda E, a, b: E.num_binop("Pow", a, b),
        }
    )
    X = E.ext
    X.update(
        {
            "random.uniform": uniform, "random.randint": randint, "random.randrange": randrange, "random.gauss": normal,
            "random.normalvariate": normal, "random.random": random_, "random.choice": choice, "random.seed": seed,
            "math.ceil": ceil, "math.floor": floor, "math.fabs": fabs, "math.trunc": math_trunc, "warnings.warn": warn,
            "copy.copy": copy_, "copy.deepcopy": copy_, "time.time": lambda E: E.freshreal("time"),
            "warnings.simplefilter": noop, "matplotlib.pyplot.show": noop,
        }
    )
    for n in ("random.sample", "random.shuffle", "random.betavariate", "random.triangular", "random.expovariate", "random.getrandbits", "random.choices", "random.setstate"):
        X.setdefault(n, unmodelled(n))
    for n in ("random.Random", "random.SystemRandom", "os.urandom", "uuid.uuid4", "uuid.uuid1", "secrets.randbelow", "secrets.choice", "secrets.randbits"):
        X.setdefault(n, rng_unknown(n))
    for n in ("rand", "randint", "uniform", "normal", "random", "choice", "default_rng", "seed", "randn", "random_sample", "standard_normal"):
        X["numpy.random." + n] = rng_unknown("numpy.random." + n)
    V = E.valmeth
    V[("ListV", "append")] = lambda E, o, v: E.list_append(o, v)
    V[("ListV", "extend")] = lambda E, o, v: E.list_extend(o, v)
    V[("ListV", "pop")] = lambda E, o, i=None: E.list_pop(o, i)
    V[("ListV", "insert")] = lambda E, o, i, v: E.list_insert(o, i, v)
    V[("ListV", "copy")] = lambda E, o: copy_(E, o)
    V[("ListV", "clear")] = lambda E, o: E.set_list(o, [])
    V[("ListV", "index")] = list_index
    V[("ListV", "remove")] = list_remove
    V[("DictV", "pop")] = lambda E, o, k, *d: E.dict_pop(o, k, *d)
    V[("DictV", "get")] = dict_get
    V[("DictV", "keys")] = lambda E, o: E.iterate(o)
    V[("DictV", "items")] = dict_items
    V[("DictV", "values")] = lambda E, o: IterV(E.iterate(o).n, lambda i: o.d[list(o.d)[i]][1])
    V[("DictV", "update")] = dict_update
    V[("DictV", "setdefault")] = dict_setdefault
    V[("DictV", "copy")] = lambda E, o: copy_(E, o)
    V[("IterV", "__len__")] = lambda E, o: o.n
    for n in ("endswith", "startswith", "lower", "upper", "replace", "split", "strip", "join", "format", "rstrip", "lstrip"):
        V[("str", n)] = str_method(n)
    for k in ("Tok", "FStr"):
        V[(k, "endswith")] = endswith
    V[("FStr", "lower")] = lambda E, o: FStr([o, "lowercase"])


ENDS = {}


def ends_with(E, o, suffix):
    """the text ends with the suffix; of two suffixes neither of which ends with the other at most one applies"""
    if isinstance(o, str):
        return o.endswith(suffix)
    t = o.term if isinstance(o, Tok) else fstr_term(o)
    if isinstance(o, FStr):
        last = o.parts[-1] if o.parts else ""
        if isinstance(last, str):
            if last.endswith(suffix):
                return True
            if len(last) >= len(suffix) or not suffix.endswith(last):
                return False
    f = z3.Function("ends_with " + suffix, StrSort, z3.BoolSort())
    for other in ENDS.setdefault(id(E), set()) - {suffix}:
        g = z3.Function("ends_with " + other, StrSort, z3.BoolSort())
        if not other.endswith(suffix) and not suffix.endswith(other):
            E.assume(z3.Not(z3.And(f(t), g(t))))
        elif other.endswith(suffix):
            E.assume(z3.Implies(g(t), f(t)))
        else:
            E.assume(z3.Implies(f(t), g(t)))
    ENDS[id(E)].add(suffix)
    return f(t)


def endswith(E, o, suffix):
    if isinstance(suffix, TupleV):
        return E.S.Or(*[ends_with(E, o, x) for x in suffix])
    if not isinstance(suffix, str):
        if not isinstance(suffix, Tok) or not isinstance(o, Tok):
            raise Unsupported("endswith a computed text")
        return z3.Function("ends_with", StrSort, StrSort, z3.BoolSort())(o.term, suffix.term)
    return ends_with(E, o, suffix)


def str_method(n):
    def f(E, o, *a, **k):
        if n == "join":
            if o == "" and type(a[0]).__name__ == "DigitsV":
                return a[0]
            return FStr([o, a[0]])
        if n == "format" and isinstance(o, str):
            try:
                fields = list(string.Formatter().parse(o))
            except ValueError as e:
                raise PyExc("ValueError", str(e))
            auto, parts = 0, []
            for lit, name, spec, conv in fields:
                parts.append(lit)
                if name is None:
                    continue
                if spec or conv:
                    parts.append(Opaque("formatted"))
                elif name == "" or name.isdigit():
                    i = auto if name == "" else int(name)
                    auto += name == ""
                    if i >= len(a):
                        raise PyExc("IndexError", "Replacement index out of range")
                    parts.append(E.force(a[i]))
                elif name in k:
                    parts.append(E.force(k[name]))
                else:
                    raise Unsupported("str.format field")
            return E.text(parts)
        if all(isinstance(x, (str, int)) for x in a) and not k:
            r = getattr(o, n)(*a)
            return ListV(list(r), oid=E.new_oid()) if isinstance(r, list) else r
        if all(isinstance(x, TupleV) for x in a):
            return getattr(o, n)(*[tuple(x) for x in a])
        raise Unsupported(f"str.{n}")

    return f


def list_index(E, o, v):
    if o.concrete:
        for i, x in enumerate(o.items):
            if E.decide(E.S.b(E.equal(x, v))):
                return i
        raise PyExc("ValueError", "not in list")
    j = E.freshint("index", 0)
    i = z3.Int(E.name("ix!i"))
    if not E.decide(tz(E.contains(o, v))):
        raise PyExc("ValueError", "not in list")
    E.assume(z3.And(j < tz(o.n), tz(E.equal(o.at(j), v))))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), z3.Not(tz(E.equal(o.at(i), v))))))
    return j


def list_remove(E, o, v):
    E.list_pop(o, list_index(E, o, v))


def dict_get(E, o, k, default=None):
    if models_par.is_key(o, k) or o.num is not None or is_z3(k) and not o.d:
        return models_par.EntryV(o, k) if E.decide(models_par.num_has(o, k), "the key is in the dictionary") else default
    if isinstance(k, EnumV):
        k = pick(E, k)
    if is_int(k) and not isinstance(k, (int, bool)) and o.d:
        for c in o.d:
            if isinstance(c, int) and E.decide(k == c, f"the key is {c}"):
                return dict_get(E, o, c, default)
        return default
    if not isinstance(k, (str, int)):
        raise Unsupported("dict.get with a computed key")
    if k not in o.d:
        return default
    p, v = o.d[k]
    if p is True:
        return v
    return ite(p, v, default)


def dict_items(E, o):
    it = E.iterate(o)
    ks = [it.get(i) for i in range(it.n)]
    return IterV(len(ks), lambda i: TupleV((ks[i], o.d[ks[i]][1])))


def dict_update(E, o, other=None, **kw):
    if other is not None:
        if not isinstance(other, DictV):
            raise Unsupported("dict.update")
        for k, e in list(other.d.items()):
            if e[0] is True:
                E.set_dict(o, k, e)
            else:
                old = o.d.get(k, (False, None))
                E.set_dict(o, k, (E.S.Or(e[0], old[0]), e[1] if old[0] is False else ite(e[0], e[1], old[1])))
    for k, v in kw.items():
        E.set_dict(o, k, (True, v))


def dict_setdefault(E, o, k, v=None):
    if o.has(k) is False:
        E.set_dict(o, k, (True, v))
        return v
    return E.getitem(o, k)
