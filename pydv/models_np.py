"""numpy as seen by the verifier: arrays are a shape and an element function (floats are reals)."""
from fractions import Fraction
import z3
from .values import *
from .engine import Engine


def shape_arg(E, s):
    if isinstance(s, TupleV) or isinstance(s, ListV):
        it = E.iterate(s)
        return tuple(simp(num(it.get(i))) for i in range(simp(it.n)))
    if isinstance(s, Arr):
        if isinstance(s.shape[0], int):
            return tuple(simp(s.get(i)) for i in range(s.shape[0]))
        raise Unsupported("array shape argument")
    s = simp(num(s))
    if not is_int(s):
        raise PyExc("TypeError", "float as array dimension")
    return (s,)


def check_dims(E, shape):
    for s in shape:
        if isinstance(s, int):
            if s < 0:
                raise PyExc("ValueError", "negative dimensions")
        elif not E.decide(tz(s) >= 0, "array dimension"):
            raise PyExc("ValueError", "negative dimensions are not allowed")


def const_arr(E, shape, v, kind):
    check_dims(E, shape)
    return Arr(shape, lambda *i: v, kind, oid=E.new_oid())


def dtype_kind(d, default="f"):
    if d is None:
        return default
    n = d.name if isinstance(d, (ClassV, FuncV)) else str(d)
    n = n.split(".")[-1]
    if n.startswith("int") or n == "intc" or n.startswith("uint"):
        return "i"
    if n.startswith("float"):
        return "f"
    if n.startswith("bool"):
        return "b"
    raise Unsupported(f"dtype {n}")


def zeros(E, shape, dtype=None, **k):
    kd = dtype_kind(dtype)
    return const_arr(E, shape_arg(E, shape), Fraction(0) if kd == "f" else (0 if kd == "i" else False), kd)


def ones(E, shape, dtype=None, **k):
    kd = dtype_kind(dtype)
    return const_arr(E, shape_arg(E, shape), Fraction(1) if kd == "f" else (1 if kd == "i" else True), kd)


def full(E, shape, fill_value, dtype=None, **k):
    v = E.force(fill_value)
    if isinstance(v, Arr):
        raise Unsupported("full with array value")
    v = v if is_bool(v) else num(v)
    kind = dtype_kind(dtype, "b" if is_bool(v) else ("f" if is_real(v) else "i"))
    if kind == "f":
        v = to_real(v)
    return const_arr(E, shape_arg(E, shape), v, kind)


def zeros_like(E, a, **k):
    a = as_arr(E, a)
    z = Fraction(0) if a.kind == "f" else (0 if a.kind == "i" else False)
    return Arr(a.shape, lambda *i: z, a.kind, oid=E.new_oid())


def ones_like(E, a, **k):
    a = as_arr(E, a)
    z = Fraction(1) if a.kind == "f" else 1
    return Arr(a.shape, lambda *i: z, a.kind, oid=E.new_oid())


def full_like(E, a, v, **k):
    a = as_arr(E, a)
    v = num(v)
    if a.kind == "f":
        v = to_real(v)
    return Arr(a.shape, lambda *i: v, a.kind, oid=E.new_oid())


def arange(E, *a, **k):
    a = [num(x) for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    st = simp(st)
    lo, hi = simp(lo), simp(hi)
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        r = range(lo, hi, st)
        return Arr((len(r),), lambda i: simp(lo + st * i) if isinstance(i, int) else lo + st * i, "i", (lo, st), E.new_oid())
    if st != 1 or not is_int(lo) or not is_int(hi):
        raise Unsupported("arange with step or float bounds")
    d = tz(hi) - tz(lo)
    n = simp(z3.If(d >= 0, d, z3.IntVal(0)))
    lo_ = lo
    return Arr((n,), lambda i: simp(tz(lo_) + tz(i)), "i", (lo_, 1), E.new_oid())


def as_arr(E, v):
    v = E.force(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, EnumV):
        v = E.enum_num(v)
    if is_num(v):
        return Arr((), lambda: num(v), "f" if is_real(v) else "i")
    if isinstance(v, IterV):
        v = E.to_list(v)
    if type(v).__name__ == "EntryV":
        from .models_par import entry_matrix

        return entry_matrix(E, v)
    if isinstance(v, (ListV, TupleV)):
        if isinstance(v, TupleV):
            v = ListV(list(v))
        if v.concrete:
            items = [E.force(x) for x in v.items]
            if items and all(isinstance(x, (Arr, ListV, TupleV)) for x in items):
                rows = [as_arr(E, x) for x in items]
                return stack_rows(E, rows)
            if all(is_num(x) or isinstance(x, EnumV) for x in items):
                items = [E.enum_num(x) if isinstance(x, EnumV) else x for x in items]
                if items and all(is_bool(x) for x in items):
                    its = items

                    def getb(i):
                        if isinstance(i, int):
                            return its[i] if -len(its) <= i < len(its) else False
                        r = its[-1]
                        for j in range(len(its) - 2, -1, -1):
                            r = ite(i == j, its[j], r)
                        return r

                    return Arr((len(its),), getb, "b", oid=E.new_oid())
                if not items:
                    return Arr((0,), lambda i: Fraction(0), "f", oid=E.new_oid())
                return E.arr_of(items)
            raise Unsupported("array of non-numbers")
        probe = v.at(z3.Int("arr!probe"))
        if is_num(probe):
            g = v.get
            kind = "f" if is_real(probe) else ("b" if is_bool(probe) else "i")
            return Arr((v.n,), lambda i: g(i), kind, oid=E.new_oid())
        if isinstance(probe, Arr) and len(probe.shape) == 1:
            g = v.get
            return Arr((v.n,) + probe.shape, lambda i, j: g(i).get(j), probe.kind, oid=E.new_oid())
    h = E.valmeth.get(("as_arr", type(v).__name__))
    if h:
        return h(E, v)
    raise Unsupported(f"array from {v!r}")


def stack_rows(E, rows):
    n = rows[0].shape[0]
    for r in rows[1:]:
        if not same_dim(E, n, r.shape[0]):
            raise PyExc("ValueError", "all the input array dimensions must match")
    out = []
    for r in rows:
        if len(r.shape) == 1:
            out.append(r.get)
        elif len(r.shape) == 2 and isinstance(r.shape[0], int):
            raise Unsupported("stack of 2-d arrays")
    return Arr((len(rows), n), lambda i, j: sel(out, i)(j) if isinstance(i, int) else chain(out, i, j), "f" if any(r.kind == "f" for r in rows) else rows[0].kind, oid=E.new_oid())


def sel(gs, i):
    return gs[i]


def chain(gs, i, j):
    v = gs[-1](j)
    for k in range(len(gs) - 2, -1, -1):
        v = ite(i == k, gs[k](j), v)
    return v


def same_dim(E, a, b):
    a, b = simp(a), simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return E.decide(tz(a) == tz(b), "array sizes")


def array(E, v, dtype=None, **k):
    a = as_arr(E, v)
    if a.shape == ():
        raise Unsupported("0-d array")
    kind = dtype_kind(dtype, a.kind)
    g = a.get
    if kind == "i" and a.kind == "f":
        return Arr(a.shape, lambda *i: trunc(g(*i)), "i", oid=E.new_oid())
    if kind == "f" and a.kind != "f":
        return Arr(a.shape, lambda *i: to_real(g(*i)), "f", oid=E.new_oid())
    return Arr(a.shape, g, kind, a.affine, oid=E.new_oid())


def diff(E, a, **k):
    a = as_arr(E, a)
    if len(a.shape) != 1:
        raise Unsupported("diff of a matrix")
    n = a.shape[0]
    m = n - 1 if isinstance(n, int) else simp(tz(n) - 1)
    g = a.get
    if isinstance(m, int) and m < 0:
        m = 0
    if not isinstance(n, int):
        # by induction: no two neighbours differ exactly when all values equal the first
        i = z3.Int(E.name("diff!i"))
        x = lambda j: tz(g(j))
        E.assume(z3.Implies(
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(m)), x(simp(i + 1)) - x(i) == 0)),
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(n)), x(i) == x(0)))))
    return Arr((m,), lambda i: E.num_binop("Sub", g(simp(tz(i) + 1) if is_z3(i) else i + 1), g(i)), a.kind, oid=E.new_oid())


def concatenate(E, seq, axis=0, **k):
    if isinstance(seq, ListV) and not seq.concrete:
        return concat_symbolic(E, seq)
    if isinstance(seq, Arr) and len(seq.shape) == 2:
        return flatten(E, seq)
    arrs = [as_arr(E, x) for x in seq]
    if not arrs:
        raise PyExc("ValueError", "need at least one array to concatenate")
    if any(len(a.shape) != 1 for a in arrs):
        raise Unsupported("concatenate of matrices")
    kind = "f" if any(a.kind == "f" for a in arrs) else arrs[0].kind
    parts, n = [], 0
    for a in arrs:
        g = (lambda g: (lambda i: to_real(g(i))))(a.get) if kind == "f" else a.get
        parts.append((n, g))
        n = E.num_binop("Add", n, a.shape[0])
        n = simp(n)

    def get(i):
        v = None
        for off, g in reversed(parts):
            j = simp(tz(i) - tz(off)) if is_z3(i) or is_z3(off) else i - off
            x = g(j)
            v = x if v is None else ite(simp(tz(i) >= tz(nxt)), v, x)
            nxt = off
        return v

    def get2(i):
        # choose the part i falls in
        if isinstance(i, int) and all(isinstance(off, int) for off, _ in parts):
            off, g = next(p for p in reversed(parts) if i >= p[0] or p is parts[0])
            return g(i - off)
        v = parts[-1][1](simp(tz(i) - tz(parts[-1][0])))
        for idx in range(len(parts) - 2, -1, -1):
            off, g = parts[idx]
            nxt = parts[idx + 1][0]
            v = ite(simp(tz(i) < tz(nxt)), g(simp(tz(i) - tz(off))), v)
        return v

    return Arr((n,), get2, kind, oid=E.new_oid())


def flatten(E, a):
    w, g = simp(a.shape[1]), a.get
    if not isinstance(w, int):
        raise Unsupported("flattening a matrix of unknown width")
    return Arr((simp(tz(a.shape[0]) * w),), lambda i: g(tz(i) / w, tz(i) % w) if is_z3(i) else g(i // w, i % w), a.kind, oid=E.new_oid())


def concat_symbolic(E, seq):
    probe = seq.at(z3.Int("cat!probe"))
    if isinstance(probe, Arr) and len(probe.shape) == 1 and isinstance(probe.shape[0], int):
        w = probe.shape[0]
        g = seq.get
        return Arr((simp(tz(seq.n) * w),), lambda i: g(tz(i) / w).get(tz(i) % w), probe.kind, oid=E.new_oid())
    raise Unsupported("concatenate of a symbolic list")


def append(E, a, b, axis=None):
    a, b = as_arr(E, a), as_arr(E, b)
    if b.shape == ():
        bg = b.get
        b = Arr((1,), lambda i: bg(), b.kind)
    if len(a.shape) != 1 or len(b.shape) != 1:
        raise Unsupported("append")
    return concatenate(E, TupleV((a, b)))


def vstack(E, seq, **k):
    if isinstance(seq, ListV) and not seq.concrete or type(seq).__name__ == "EntryV":
        return as_arr(E, seq)
    rows = []
    for x in seq:
        a = as_arr(E, x)
        if len(a.shape) == 1:
            rows.append((1, a))
        elif len(a.shape) == 2:
            rows.append((a.shape[0], a))
        else:
            raise Unsupported("vstack")
    n = rows[0][1].shape[-1]
    for _, r in rows[1:]:
        if not same_dim(E, n, r.shape[-1]):
            raise PyExc("ValueError", "vstack dimensions")
    total = 0
    parts = []
    for m, a in rows:
        parts.append((total, a))
        total = simp(E.num_binop("Add", total, m))

    def pick(a, i, j, off):
        return a.get(j) if len(a.shape) == 1 else a.get(simp(tz(i) - tz(off)) if is_z3(i) or is_z3(off) else i - off, j)

    gets = [(off, a.get, len(a.shape)) for off, a in parts]

    def get(i, j):
        def one(p):
            off, g, d = p
            return g(j) if d == 1 else g(simp(tz(i) - tz(off)), j)

        v = one(gets[-1])
        for idx in range(len(gets) - 2, -1, -1):
            v = ite(simp(tz(i) < tz(gets[idx + 1][0])), one(gets[idx]), v)
        return v

    out = Arr((total, n), get, "f" if any(a.kind == "f" for _, a in rows) else "i", oid=E.new_oid())
    out.rows = [(m, a) for m, a in rows]
    return out


def put(E, a, ind, v, mode=None):
    a = E.force(a)
    if not isinstance(a, Arr) or len(a.shape) != 1:
        raise Unsupported("put into a matrix")
    ind = as_arr(E, ind)
    v = as_arr(E, v)
    N = a.shape[0]
    old = a.get
    if ind.affine is None or ind.affine[1] != 1:
        raise Unsupported("put at indexes that are not a run of consecutive minutes")
    st, n = ind.affine[0], ind.shape[0]
    # numpy raises IndexError for positions outside the array (mode='raise'); negative ones wrap around
    if not E.decide(z3.Or(tz(n) <= 0, z3.And(tz(st) >= 0, tz(st) + tz(n) <= tz(N))), "put in range"):
        raise Unsupported("put outside the array")
    if v.shape == ():
        val = v.get()

        def value(i):
            return val
    else:
        m = v.shape[0]
        if not E.decide(tz(m) > 0, "put with no values"):
            return None
        vg = v.get

        def value(i):
            return vg(E.pmod(simp(tz(i) - tz(st)), m))

    conv = to_real if a.kind == "f" else (lambda x: trunc(x))

    def get(i):
        inside = z3.And(tz(i) >= tz(st), tz(i) < tz(st) + tz(n))
        return ite(simp(inside), conv(value(i)), old(i))

    E.set_arr(a, get)
    return None


def index_set(E, cond, N, name):
    """sorted positions j in [0,N) with cond(j)"""
    n = E.freshint(name + ".n", 0)
    e = z3.Function(E.name(name), z3.IntSort(), z3.IntSort())
    pos = z3.Function(E.name(name + ".pos"), z3.IntSort(), z3.IntSort())
    i, j = z3.Int("is!i"), z3.Int("is!j")
    E.assume(n <= tz(N))
    E.assume(
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(e(i) >= 0, e(i) < tz(N), tz(cond(e(i)))), ), patterns=[e(i)])
    )
    E.assume(
        z3.ForAll(
            [j],
            z3.Implies(
                z3.And(j >= 0, j < tz(N), tz(cond(j))), z3.And(pos(j) >= 0, pos(j) < n, e(pos(j)) == j)
            ),
            patterns=[pos(j)],
        )
    )
    E.assume(
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tz(N), tz(cond(j))), z3.And(n > 0, e(0) <= j, j <= e(n - 1))))
    )
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), e(i) < e(j))))
    a = Arr((n,), lambda k: e(tz(k)), "i", oid=E.new_oid())
    a.sets = (cond, N)
    return a


def flatnonzero(E, c):
    c = as_arr(E, c)
    if len(c.shape) != 1:
        raise Unsupported("nonzero of a matrix")
    g = c.get
    cond = g if c.kind == "b" else (lambda i: E.S.Not(E.eq_num(g(i), 0)))
    return index_set(E, cond, c.shape[0], "nz")


def where(E, c, *ab):
    if ab:
        c = as_arr(E, c)
        x, y = E.force(ab[0]), E.force(ab[1])
        gc = c.get
        gx = x.get if isinstance(x, Arr) else (lambda *i: x)
        gy = y.get if isinstance(y, Arr) else (lambda *i: y)
        kind = "f" if any((isinstance(v, Arr) and v.kind == "f") or is_real(v) for v in (x, y)) else "i"
        cv = to_real if kind == "f" else (lambda v: v)
        return Arr(c.shape, lambda *i: ite(E.S.b(gc(*i)), cv(gx(*i)), cv(gy(*i))), kind, oid=E.new_oid())
    return TupleV((flatnonzero(E, c),))


def argwhere(E, c):
    a = flatnonzero(E, c)
    r = Arr((a.shape[0], 1), lambda i, j: a.get(i), "i", oid=E.new_oid())
    r.column = a
    return r


def squeeze(E, a, **k):
    a = as_arr(E, a)
    if hasattr(a, "column"):
        n = a.shape[0]
        if E.decide(tz(n) == 1, "squeeze to 0 dimensions"):
            v = a.column.get(0)
            return Arr((), lambda: v, "i", oid=E.new_oid())
        return a.column
    dims = []
    keep = []
    for d, s in enumerate(a.shape):
        s = simp(s)
        if isinstance(s, int):
            if s == 1:
                continue
        elif E.decide(tz(s) == 1, "squeeze"):
            continue
        keep.append(d)
        dims.append(s)
    g, nd = a.get, len(a.shape)
    if len(keep) == nd:
        return a

    def get(*i):
        full_ = [0] * nd
        for d, x in zip(keep, i):
            full_[d] = x
        return g(*full_)

    return Arr(tuple(dims), get, a.kind, oid=E.new_oid())


def reduce_(E, name):
    def f(E, a, axis=None, **k):
        if isinstance(a, TupleV) and len(a) == 1:
            a = a[0]
        a = as_arr(E, a)
        if a.shape == ():
            return a.get()
        if len(a.shape) == 2 and a.shape[0] == 1 and False:
            pass
        if len(a.shape) != 1 or axis not in (None, 0):
            raise Unsupported(f"{name} of a matrix")
        n = a.shape[0]
        if isinstance(n, int) and n == 0:
            raise PyExc("ValueError", "zero-size array to reduction")
        if is_z3(n) and not E.decide(tz(n) > 0, f"{name} of an empty array"):
            raise PyExc("ValueError", "zero-size array to reduction")
        if a.sets is not None:
            return a.get(simp(tz(n) - 1)) if name == "max" else a.get(0)
        if isinstance(n, int) and n <= 6:
            r = a.get(0)
            for i in range(1, n):
                x = a.get(i)
                r = ite(E.cmp_num((lambda p, q: p > q) if name == "max" else (lambda p, q: p < q), x, r), x, r)
            return r
        return E.arr_extremum(a, name)

    return f


def arr_extremum(self, a, name):
    w = self.freshint(f"{name}.at", 0)
    n = tz(a.shape[0])
    self.assume(w < n)
    m = a.get(w)
    g = a.get
    m0 = self.freshreal(name) if a.kind == "f" else self.freshint(name)
    self.assume(m0 == tz(m))
    i = z3.Int("ext!i")
    f = (lambda x: tz(x) <= m0) if name == "max" else (lambda x: tz(x) >= m0)
    self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(g(i)))))
    return m0


def functional(name):
    """an array functional (mean, sum) known only extensionally: equal arrays give equal values"""

    def f(E, a, axis=None, **k):
        a = as_arr(E, a)
        if a.shape == ():
            return to_real(a.get())
        if len(a.shape) == 2 and axis == 0:
            return sum_rows(E, a, name)
        if len(a.shape) != 1:
            raise Unsupported(f"{name} of a matrix")
        n = simp(a.shape[0])
        if isinstance(n, int) and n <= 4 and n > 0:
            r = Fraction(0) if a.kind == "f" or name == "mean" else 0
            for i in range(n):
                r = E.num_binop("Add", r, a.get(i))
            return r if name == "sum" else E.num_binop("Div", r, n)
        if name == "mean" and is_z3(n) and not E.decide(tz(n) > 0, "mean of an empty array"):
            raise Unsupported("mean of an empty array")
        reg = E.functionals = getattr(E, "functionals", {})
        key = (E.paths, tuple(E.prefix))
        if reg.get("key") != (id(E.qf),):
            reg.clear()
            reg["key"] = (id(E.qf),)
        lst = reg.setdefault(name, [])
        i = z3.Int("fn!i")
        for b, t in lst:
            if b.get is a.get and (b.shape[0] is n or (is_z3(n) and is_z3(b.shape[0]) and n.eq(b.shape[0])) or b.shape[0] == n):
                return t
        t = z3.Real(E.name(f"np.{name}")) if (a.kind == "f" or name == "mean") else z3.Int(E.name(f"np.{name}"))
        g = a.get
        if a.sets is not None:
            # sorted positions: the mean lies between the first and the last
            if name == "mean":
                E.assume(z3.And(z3.ToReal(tz(g(0))) <= t, t <= z3.ToReal(tz(g(simp(tz(n) - 1))))))
        for b, u in lst:
            bg = b.get
            if a.sets is not None and b.sets is not None:
                ca, cb = a.sets[0], b.sets[0]
                if same_dim_quiet(a.sets[1], b.sets[1]):
                    E.assume(
                        z3.Implies(
                            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(a.sets[1])), tz(ca(i)) == tz(cb(i)))),
                            tz(t) == tz(u),
                        )
                    )
            else:
                E.assume(
                    z3.Implies(
                        z3.And(
                            tz(n) == tz(b.shape[0]),
                            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < tz(n)), tz(E.eq_num(g(i), bg(i))))),
                        ),
                        tz(E.eq_num(t, u)),
                    )
                )
        lst.append((a, t))
        if a.kind == "f" and name == "sum":
            pass
        return t

    return f


def same_dim_quiet(a, b):
    a, b = simp(a), simp(b)
    return (isinstance(a, int) and isinstance(b, int) and a == b) or (is_z3(a) and is_z3(b) and a.eq(b))


def sum_rows(E, a, name):
    if name == "mean":
        s = sum_rows(E, a, "sum")
        return E.arr_binop("Div", s, simp(a.shape[0]))
    n = simp(a.shape[0])
    g = a.get
    if getattr(a, "column_sums", None) is not None and not a.base:
        return a.column_sums
    if isinstance(n, int) and n <= 64:
        def get(j):
            r = Fraction(0)
            for i in range(n):
                r = E.num_binop("Add", r, g(i, j))
            return r

        return Arr((a.shape[1],), get, a.kind, oid=E.new_oid())
    if hasattr(a, "rows"):
        # stacked blocks: sum of the blocks' sums
        parts = []
        for m, r in a.rows:
            if len(r.shape) == 1:
                parts.append(r)
            else:
                parts.append(sum_rows(E, r, name))
        out = parts[0]
        for p in parts[1:]:
            out = E.arr_binop("Add", out, p)
        return out
    # a matrix with a symbolic number of rows: its column sums are a function of the matrix
    reg = E.functionals = getattr(E, "functionals", {})
    if reg.get("key") != (id(E.qf),):
        reg.clear()
        reg["key"] = (id(E.qf),)
    for b, out in reg.setdefault("colsum", []):
        if b.get is g and (b.shape[0] is n or (is_z3(n) and is_z3(b.shape[0]) and n.eq(b.shape[0]))):
            return out
    ps = getattr(E, "psums", {}).get(matrix_key(g))
    if ps is not None and ps[0] == id(E.qf):
        f = ps[1]
        out = Arr((a.shape[1],), lambda j: f(tz(n), tz(j)), "f", oid=E.new_oid())
    else:
        out = E.fresh_arr("colsum", (a.shape[1],), a.kind)
    reg["colsum"].append((a, out))
    return out


def matrix_key(g):
    """the element function of a matrix, as text"""
    try:
        t = g(z3.Int("row!"), z3.Int("col!"))
        return z3.simplify(tz(to_real(t))).sexpr()
    except (Unsupported, z3.Z3Exception):
        return None


def partial_sums(E, g):
    """P(k, m): the sum of the first k rows at column m (defined by P(0, m) = 0 and unfold below)"""
    reg = E.psums = getattr(E, "psums", {})
    key = matrix_key(g)
    if key is None:
        raise Unsupported("rows of a matrix")
    if key not in reg or reg[key][0] != id(E.qf):
        f = z3.Function(E.name("rowsums"), z3.IntSort(), z3.IntSort(), z3.RealSort())
        m = z3.Int("ps!m")
        E.assume(z3.ForAll([m], f(0, m) == 0, patterns=[f(0, m)]))
        reg[key] = (id(E.qf), f)
    return reg[key][1]


def unfold(E, g, k):
    """P(k + 1, m) = P(k, m) + row k at m"""
    f = partial_sums(E, g)
    m = z3.Int("ps!m")
    k = tz(k)
    E.assume(z3.ForAll([m], z3.Implies(k >= 0, f(k + 1, m) == f(k, m) + tz(to_real(g(k, m)))), patterns=[f(k + 1, m)]))


def np_all(E, a, **k):
    a = as_arr(E, a)
    if a.shape == ():
        return E.S.b(a.get())
    if len(a.shape) != 1:
        raise Unsupported("all of a matrix")
    g = a.get
    return E.S.ForAll(0, a.shape[0], lambda i: E.S.b(E.truth_term(g(i))))


def np_any(E, a, **k):
    a = as_arr(E, a)
    if len(a.shape) != 1:
        raise Unsupported("any of a matrix")
    g = a.get
    return E.S.Exists(0, a.shape[0], lambda i: E.S.b(E.truth_term(g(i))))


def array_equal(E, a, b, **k):
    a, b = E.force(a), E.force(b)
    text = lambda v: isinstance(v, (str, Tok, FStr)) or v is None or (isinstance(v, EnumV) and not all(is_num(x) for x in v.values))
    if text(a) or text(b):
        # texts are compared as values; a text never equals a number
        if isinstance(a, (Arr, ListV, TupleV)) or isinstance(b, (Arr, ListV, TupleV)):
            return False
        r = E.same_value(a, b)
        if r is None:
            raise Unsupported(f"array_equal of {a!r} and {b!r}")
        return r
    a, b = as_arr(E, a), as_arr(E, b)
    if len(a.shape) != len(b.shape):
        return False
    ga, gb = a.get, b.get
    if a.shape == ():
        return E.eq_num(ga(), gb())
    if len(a.shape) != 1:
        raise Unsupported("array_equal of matrices")
    return E.S.And(
        E.eq_num(a.shape[0], b.shape[0]), E.S.ForAll(0, a.shape[0], lambda i: E.eq_num(ga(i), gb(i)))
    )


def reshape(E, a, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (TupleV, ListV)):
        shape = tuple(shape[0])
    shape = [simp(num(s)) for s in shape]
    g = a.get
    if len(a.shape) == 2 and isinstance(a.shape[1], int):
        w = a.shape[1]
        if shape == [-1]:
            total = simp(tz(a.shape[0]) * w)
            return Arr((total,), lambda j: g(simp(tz(j) / w), simp(tz(j) % w)), a.kind, oid=E.new_oid())
        if len(shape) == 2 and shape[0] == 1:
            total = simp(tz(a.shape[0]) * w)
            want = total if shape[1] == -1 else shape[1]
            if not same_dim(E, want, total):
                raise PyExc("ValueError", "cannot reshape")
            return Arr((1, want), lambda i, j: g(simp(tz(j) / w), simp(tz(j) % w)), a.kind, oid=E.new_oid())
        if len(shape) == 1:
            total = simp(tz(a.shape[0]) * w)
            if not same_dim(E, shape[0], total):
                raise PyExc("ValueError", "cannot reshape")
            return Arr((shape[0],), lambda j: g(simp(tz(j) / w), simp(tz(j) % w)), a.kind, oid=E.new_oid())
    if len(a.shape) == 1:
        if shape == [-1]:
            return a
        if len(shape) == 2 and isinstance(shape[1], int) and shape[1] > 0:
            w = shape[1]
            n = shape[0]
            if n == -1:
                raise Unsupported("reshape -1")
            if not same_dim(E, simp(tz(n) * w), a.shape[0]):
                raise PyExc("ValueError", "cannot reshape")
            return Arr((n, w), lambda i, j: g(simp(tz(i) * w + tz(j))), a.kind, oid=E.new_oid())
    raise Unsupported("reshape")


def arr_map2(self, a, b, f, kind):
    a, b = as_arr(self, a), as_arr(self, b)
    ga, gb = a.get, b.get
    if a.shape == ():
        return Arr(b.shape, lambda *i: f(ga(), gb(*i)), kind, oid=self.new_oid()) if b.shape != () else f(ga(), gb())
    if b.shape == ():
        return Arr(a.shape, lambda *i: f(ga(*i), gb()), kind, oid=self.new_oid())
    if len(a.shape) == len(b.shape):
        shape = []
        for x, y in zip(a.shape, b.shape):
            if isinstance(x, int) and isinstance(y, int) and x != y and 1 in (x, y):
                raise Unsupported("broadcasting")
            if not same_dim(self, x, y):
                raise PyExc("ValueError", "operands could not be broadcast together")
            shape.append(x)
        return Arr(tuple(shape), lambda *i: f(ga(*i), gb(*i)), kind, oid=self.new_oid())
    raise Unsupported("broadcasting")


def arr_binop(self, op, a, b):
    a, b = as_arr(self, a), as_arr(self, b)
    if op in ("BitAnd", "BitOr"):
        return arr_map2(self, a, b, lambda x, y: self.S.And(x, y) if op == "BitAnd" else self.S.Or(x, y), "b")
    kind = "f" if (op == "Div" or a.kind == "f" or b.kind == "f") else "i"
    if op == "Div":
        def f(x, y):
            x, y = to_real(x), to_real(y)
            if isinstance(y, Fraction) and isinstance(x, Fraction) and y != 0:
                return x / y
            # numpy division by zero gives nan/inf: z3's total division leaves the value unspecified
            return tz(x) / tz(y)
    else:
        def f(x, y):
            return self.num_binop(op, num(x), num(y))
    r = arr_map2(self, a, b, f, kind)
    if isinstance(r, Arr) and op in ("Add", "Sub"):
        if a.affine and b.shape == () and is_int(b.get()):
            r.affine = (simp(self.num_binop(op, a.affine[0], b.get())), a.affine[1])
        elif b.affine and a.shape == () and op == "Add" and is_int(a.get()):
            r.affine = (simp(self.num_binop(op, b.affine[0], a.get())), b.affine[1])
    return r


def arr_getitem(self, a, i):
    if isinstance(i, TupleV):
        if len(i) == 2 and len(a.shape) == 2:
            x, y = i
            g = a.get
            if isinstance(x, SliceV) and isinstance(y, SliceV):
                if x.start is None and x.stop is None and y.start is None and y.stop is None:
                    return Arr(a.shape, g, a.kind, base=a)
                raise Unsupported("matrix slice")
            if isinstance(x, SliceV):
                st, n = self.slice_bounds(x, a.shape[0])
                y = self.norm_index(y, a.shape[1])
                return Arr((n,), lambda k: g(simp(tz(k) + tz(st)), y), a.kind, base=a)
            x = self.norm_index(x, a.shape[0])
            if isinstance(y, SliceV):
                st, n = self.slice_bounds(y, a.shape[1])
                return Arr((n,), lambda k: g(x, simp(tz(k) + tz(st)) if st != 0 else k), a.kind, base=a)
            y = self.norm_index(y, a.shape[1])
            return g(x, y)
        raise Unsupported("matrix index")
    if isinstance(i, SliceV):
        if len(a.shape) != 1:
            raise Unsupported("slice of a matrix")
        if i.step is not None:
            if simp(i.step) == -1 and i.start is None and i.stop is None:
                n, g = a.shape[0], a.get
                return Arr((n,), lambda k: g(simp(tz(n) - 1 - tz(k))), a.kind, base=a)
            raise Unsupported("slice step")
        st, n = self.slice_bounds(i, a.shape[0])
        g = a.get
        r = Arr((n,), lambda k: g(simp(tz(st) + tz(k))), a.kind, base=a)
        if a.affine is not None and a.affine[1] == 1:
            r.affine = (simp(tz(a.affine[0]) + tz(st)), 1)
            s0 = r.affine[0]
            r.get = lambda k: simp(tz(s0) + tz(k))
        return r
    if isinstance(i, Arr):
        if i.kind == "b":
            raise Unsupported("boolean mask read")
        if len(i.shape) == 1 and len(a.shape) == 1:
            g, gi = a.get, i.get
            return Arr(i.shape, lambda k: g(gi(k)), a.kind, oid=self.new_oid())
        raise Unsupported("fancy index")
    if a.shape == ():
        raise PyExc("IndexError", "too many indices for array")
    if len(a.shape) == 2:
        x = self.norm_index(i, a.shape[0])
        g = a.get
        return Arr((a.shape[1],), lambda k: g(x, k), a.kind, base=a)
    x = self.norm_index(i, a.shape[0], what="index out of bounds")
    return a.get(x)


def arr_setitem(self, a, i, v):
    v = self.force(v)
    conv = {"f": to_real, "i": trunc, "b": lambda x: x}[a.kind]
    old = a.get
    if isinstance(i, TupleV):
        if len(i) == 2 and len(a.shape) == 2:
            x, y = i
            if isinstance(x, SliceV):
                raise Unsupported("column assignment")
            x = self.norm_index(x, a.shape[0])
            if isinstance(y, SliceV):
                if not (y.start is None and y.stop is None and y.step is None):
                    raise Unsupported("partial row assignment")
                return set_row(self, a, x, v, conv)
            y = self.norm_index(y, a.shape[1])
            self.set_arr(a, lambda p, q: ite(simp(z3.And(tz(p) == tz(x), tz(q) == tz(y))), conv(v), old(p, q)))
            return
        raise Unsupported("matrix assignment")
    if isinstance(i, SliceV):
        if len(a.shape) != 1:
            raise Unsupported("slice assignment to a matrix")
        if i.step is not None:
            N = a.shape[0]
            if isinstance(N, int) and all(x is None or isinstance(simp(x), int) for x in (i.start, i.stop, i.step)) and not isinstance(v, Arr):
                idx = set(range(N)[slice(i.start, i.stop, i.step)])
                r = range(N)[slice(i.start, i.stop, i.step)]
                val = conv(num(v))

                def get(k):
                    if isinstance(k, int):
                        return val if k in idx else old(k)
                    if not idx:
                        return old(k)
                    c = z3.And(tz(k) >= r[0], tz(k) <= r[-1], (tz(k) - r[0]) % r.step == 0)
                    return ite(c, val, old(k))

                self.set_arr(a, get)
                return
            raise Unsupported("slice assignment with step")
        st, n = self.slice_bounds(i, a.shape[0])
        v = self.enum_num(v) if isinstance(v, EnumV) else v
        if is_num(v):
            val = conv(v if is_bool(v) and a.kind == "b" else num(v))
            vg = lambda k: val
        else:
            va = as_arr(self, v)
            m = simp(va.shape[0])
            g = va.get
            if isinstance(m, int) and m == 1:
                one = conv(g(0))
                vg = lambda k: one
            else:
                if not same_dim(self, m, n):
                    raise PyExc("ValueError", "could not broadcast input array")
                vg = lambda k: conv(g(simp(tz(k) - tz(st))))
        self.set_arr(
            a, lambda k: ite(simp(z3.And(tz(k) >= tz(st), tz(k) < tz(st) + tz(n))), vg(k), old(k))
        )
        return
    if isinstance(i, Arr):
        if i.kind == "b" and len(i.shape) == 1:
            m = i.get
            if isinstance(v, Arr):
                raise Unsupported("mask assignment of an array")
            val = conv(num(v))
            self.set_arr(a, lambda k: ite(self.S.b(m(k)), val, old(k)))
            return
        if i.affine is not None and i.affine[1] == 1 and len(a.shape) == 1:
            st, n = i.affine[0], i.shape[0]
            if not self.decide(z3.Or(tz(n) <= 0, z3.And(tz(st) >= 0, tz(st) + tz(n) <= tz(a.shape[0]))), "index array in range"):
                raise PyExc("IndexError", "index out of bounds")
            if isinstance(v, Arr):
                if not same_dim(self, v.shape[0], n):
                    raise PyExc("ValueError", "shape mismatch")
                g = v.get
                vg = lambda k: conv(g(simp(tz(k) - tz(st))))
            else:
                val = conv(num(v))
                vg = lambda k: val
            self.set_arr(a, lambda k: ite(simp(z3.And(tz(k) >= tz(st), tz(k) < tz(st) + tz(n))), vg(k), old(k)))
            return
        raise Unsupported("fancy assignment")
    x = self.norm_index(i, a.shape[0])
    if len(a.shape) == 2:
        return set_row(self, a, x, v, conv)
    val = conv(num(v))
    self.set_arr(a, lambda k: ite(simp(tz(k) == tz(x)), val, old(k)))


def set_row(self, a, x, v, conv):
    old = a.get
    if is_num(v):
        val = conv(num(v))
        g = lambda q: val
    else:
        va = as_arr(self, v)
        if len(va.shape) != 1 or not same_dim(self, va.shape[0], a.shape[1]):
            raise PyExc("ValueError", "could not broadcast input array into row")
        vg = va.get
        g = lambda q: conv(vg(q))
    self.set_arr(a, lambda p, q: ite(simp(tz(p) == tz(x)), g(q), old(p, q)))


def tile(E, a, reps):
    a = as_arr(E, a)
    reps = num(reps)
    n = a.shape[0]
    g = a.get
    return Arr((simp(tz(n) * tz(reps)),), lambda i: g(E.pmod(i, n)), a.kind, oid=E.new_oid())


def np_resize(E, a, n):
    a = as_arr(E, a)
    m = a.shape[0]
    g = a.get
    return Arr(shape_arg(E, n), lambda i: g(E.pmod(i, m)), a.kind, oid=E.new_oid())


def elementwise(fn, kind=None):
    def f(E, a, *rest, **k):
        v = E.force(a)
        if is_num(v):
            return fn(E, v)
        a = as_arr(E, v)
        g = a.get
        return Arr(a.shape, lambda *i: fn(E, g(*i)), kind or a.kind, oid=E.new_oid())

    return f


def prop(fn):
    fn.is_attr = True
    return fn


def minimum(name):
    def f(E, a, b):
        a, b = E.force(a), E.force(b)
        op = (lambda x, y: ite(E.cmp_num(lambda p, q: p <= q, x, y), x, y)) if name == "min" else (
            lambda x, y: ite(E.cmp_num(lambda p, q: p >= q, x, y), x, y))
        if is_num(a) and is_num(b):
            return op(num(a), num(b))
        a, b = as_arr(E, a), as_arr(E, b)
        return arr_map2(E, a, b, lambda x, y: op(num(x), num(y)), "f" if "f" in (a.kind, b.kind) else "i")

    return f


def clip(E, a, lo, hi, **k):
    a = E.force(a)
    def one(x):
        x = num(x)
        if lo is not None:
            x = ite(E.cmp_num(lambda p, q: p < q, x, lo), num(lo), x)
        if hi is not None:
            x = ite(E.cmp_num(lambda p, q: p > q, x, hi), num(hi), x)
        return x
    if is_num(a):
        return one(a)
    a = as_arr(E, a)
    g = a.get
    return Arr(a.shape, lambda *i: one(g(*i)), a.kind, oid=E.new_oid())


def count_nonzero(E, a, **k):
    a = as_arr(E, a)
    n = flatnonzero(E, a).shape[0]
    if len(a.shape) == 1 and a.kind == "b":
        i, g = z3.Int(E.name("cn!i")), a.get
        m = tz(a.shape[0])
        k = z3.Int(E.name("cn!k"))
        if E.is_valid_qf(z3.Implies(z3.And(k >= 0, k + 1 < m, tz(g(k + 1))), tz(g(k)))):
            # true up to some position and false from there on: the count is that position
            E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), tz(g(i)) == (i < tz(n)))))
    return n


def install(E):
    for f in (arr_map2, arr_binop, arr_getitem, arr_setitem, arr_extremum):
        setattr(Engine, f.__name__, f)
    mx, mn = reduce_(E, "max"), reduce_(E, "min")
    X = {
        "zeros": zeros, "ones": ones, "full": full, "arange": arange, "array": array, "asarray": array, "diff": diff,
        "concatenate": concatenate, "append": append, "vstack": vstack, "hstack": concatenate, "put": put, "where": where,
        "flatnonzero": flatnonzero, "nonzero": where, "argwhere": argwhere, "squeeze": squeeze, "max": mx, "amax": mx,
        "min": mn, "amin": mn, "mean": functional("mean"), "average": functional("mean"), "sum": functional("sum"),
        "all": np_all, "any": np_any, "array_equal": array_equal, "zeros_like": zeros_like, "ones_like": ones_like, "full_like": full_like,
        "transpose": lambda E, a, **k: as_arr(E, a), "tile": tile, "resize": np_resize, "ravel": lambda E, a: reshape(E, as_arr(E, a), -1),
        "reshape": lambda E, a, s: reshape(E, as_arr(E, a), s), "minimum": minimum("min"), "maximum": minimum("max"), "clip": clip,
        "abs": elementwise(lambda E, x: abs(x) if not is_z3(x) else z3.If(x >= 0, x, -x)), "copy": lambda E, a: E.ext["copy.copy"](E, as_arr(E, a)),
        "ceil": elementwise(lambda E, x: to_real(E.ext["math.ceil"](E, x)), "f"), "floor": elementwise(lambda E, x: to_real(E.ext["math.floor"](E, x)), "f"),
        "count_nonzero": count_nonzero, "stack": lambda E, s, **k: vstack(E, s), "round": lambda E, x, *a: to_real(E.round_(num(x))),
        "rint": lambda E, x, *a: to_real(E.round_(num(x))), "isscalar": lambda E, x: is_num(x), "add": lambda E, a, b: E.binop("Add", a, b),
        "multiply": lambda E, a, b: E.binop("Mult", a, b), "repeat": lambda E, a, n: full(E, n, a),
        "add.reduce": functional("sum"),
    }
    for k, v in X.items():
        E.ext["numpy." + k] = v
    E.ext_consts = getattr(E, "ext_consts", {})
    V = E.valmeth
    V[("Arr", "reshape")] = reshape
    V[("Arr", "squeeze")] = lambda E, o, **k: squeeze(E, o)
    V[("Arr", "sum")] = lambda E, o, axis=None: functional("sum")(E, o, axis=axis)
    V[("Arr", "mean")] = lambda E, o, axis=None: functional("mean")(E, o, axis=axis)
    V[("Arr", "max")] = lambda E, o: mx(E, o)
    V[("Arr", "min")] = lambda E, o: mn(E, o)
    V[("Arr", "all")] = lambda E, o: np_all(E, o)
    V[("Arr", "any")] = lambda E, o: np_any(E, o)
    V[("Arr", "tolist")] = lambda E, o: E.to_list(o)
    V[("Arr", "copy")] = lambda E, o: E.ext["copy.copy"](E, o)
    V[("Arr", "flatten")] = lambda E, o: reshape(E, o, -1)
    V[("Arr", "ravel")] = lambda E, o: reshape(E, o, -1)
    V[("Arr", "astype")] = lambda E, o, t, **k: array(E, o, dtype=t)
    V[("Arr", "put")] = lambda E, o, i, v: put(E, o, i, v)
    V[("Arr", "fill")] = lambda E, o, v: E.set_arr(o, (lambda x: (lambda *i: x))(to_real(v) if o.kind == "f" else v))
    V[("Arr", "size")] = prop(arr_size)
    V[("Arr", "shape")] = prop(lambda E, o: TupleV(o.shape))
    V[("Arr", "ndim")] = prop(lambda E, o: len(o.shape))
    V[("Arr", "T")] = prop(lambda E, o: o if len(o.shape) == 1 else Arr((o.shape[1], o.shape[0]), lambda i, j: o.get(j, i), o.kind, base=o))
    V[("num", "item")] = lambda E, o: o
    V[("num", "size")] = prop(lambda E, o: 1)


def arr_size(E, o):
    n = 1
    for s in o.shape:
        n = E.num_binop("Mult", n, s)
    return simp(n)
