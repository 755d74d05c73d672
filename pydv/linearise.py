"""Sound abstraction of nonlinear arithmetic: products and quotients of unknowns become uninterpreted functions.

A formula unsatisfiable after the abstraction is unsatisfiable before it.
"""
import z3

_R = z3.RealSort()
NLMUL = z3.Function("nl*", _R, _R, _R)
NLDIV = z3.Function("nl/", _R, _R, _R)
NLMULI = z3.Function("nli*", z3.IntSort(), z3.IntSort(), z3.IntSort())


def _num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


class Lineariser:
    def __init__(self):
        self.cache = {}
        self.hit = False

    def run(self, f):
        g = z3.simplify(f, som=True, sort_sums=False)
        return self.go(g)

    def go(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._go(e)
            self.cache[k] = r
            self.cache[("keep", k)] = e
        return r

    def _go(self, e):
        if z3.is_quantifier(e):
            vs = [z3.Const(f"lin!{e.var_name(i)}!{e.get_id()}", e.var_sort(i)) for i in range(e.num_vars())]
            body = self.go(z3.substitute_vars(e.body(), *reversed(vs)))
            return z3.ForAll(vs, body) if e.is_forall() else z3.Exists(vs, body)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        ch = [self.go(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            nums = [c for c in ch if _num(c)]
            rest = [c for c in ch if not _num(c)]
            if len(rest) > 1:
                self.hit = True
                rest.sort(key=lambda c: c.sexpr())
                fn = NLMUL if z3.is_real(e) else NLMULI
                t = rest[0]
                for c in rest[1:]:
                    t = fn(t, c)
                for n in nums:
                    t = n * t
                return t
        elif k == z3.Z3_OP_DIV and not _num(ch[1]):
            self.hit = True
            return NLDIV(ch[0], ch[1])
        elif k == z3.Z3_OP_POWER:
            self.hit = True
            if _num(ch[1]) and ch[1].as_fraction() == 2 and z3.is_real(e):
                return NLMUL(ch[0], ch[0])
        return e.decl()(*ch)


_NL = {}


def nonlinear(f):
    """does a product or quotient of two unknowns occur in f?"""
    k = f.get_id()
    if k in _NL and _NL[k][0].eq(f):
        return _NL[k][1]
    todo, seen, r = [f], set(), False
    while todo and not r:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            k2 = e.decl().kind()
            ch = e.children()
            if k2 == z3.Z3_OP_MUL and sum(1 for c in ch if not _num(c) and not (z3.is_app_of(c, z3.Z3_OP_TO_REAL) and _num(c.arg(0)))) > 1:
                r = True
            elif k2 == z3.Z3_OP_DIV and not _num(ch[1]):
                r = True
            elif k2 == z3.Z3_OP_POWER:
                r = True
            todo.extend(ch)
    _NL[k] = (f, r)
    return r


def linear_unsat(formulas, timeout_ms):
    if not any(nonlinear(f) for f in formulas):
        return False
    lin = Lineariser()
    try:
        fs = [lin.run(f) for f in formulas]
    except z3.Z3Exception:
        return False
    if not lin.hit:
        return False
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in fs:
        s.add(f)
    if any(z3.is_quantifier(q) for q in fs):
        a, b, c = z3.Reals("nl!a nl!b nl!c")
        s.add(z3.ForAll([a, b], NLMUL(a, b) == NLMUL(b, a), patterns=[NLMUL(a, b)]))
        s.add(z3.ForAll([a, b, c], NLMUL(NLMUL(a, b), c) == NLMUL(NLMUL(a, c), b), patterns=[NLMUL(NLMUL(a, b), c)]))
    return s.check() == z3.unsat
