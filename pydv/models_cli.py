"""command line options, folder listings and sorting (assumed contracts on argparse, os and list.sort)

The options of a parser are those its module declares: every `parser.add_argument(...)` at module level is evaluated on
every run. What the user typed is ghost state, one value per option named after its flag (`opt_n` for -n); parse_args
gives it under the declared destination when the declared shape (one value, several, type) fits, and the declared
default when the option is absent.
"""
import ast
import z3
from .values import *
from . import sorts as so

DIGITS = z3.Function("digits", StrSort, z3.IntSort())
HAS_DIGITS = z3.Function("has_digits", StrSort, z3.BoolSort())
IS_DIR = z3.Function("is_dir", StrSort, z3.BoolSort())


class ParserV(Heap):
    def __init__(self):
        self.options, self.oid = [], None


class DigitsV:
    """the digits of a text, one after the other"""

    def __init__(self, text):
        self.text = text


def add_argument(E, p, *flags, **k):
    if not all(isinstance(f, str) and f.startswith("-") for f in flags):
        raise Unsupported("positional command line argument")
    p.options.append((flags, k))
    return Opaque("argument")


def type_name(t):
    if t is None:
        return "str"
    if isinstance(t, (ClassV, FuncV)):
        return {"datetime.date.fromisoformat": "date"}.get(t.name, t.name)
    return repr(t)


SHAPES = {"i": ("+", "str"), "o": ("+", "str"), "n": ("+", "int"), "y": ("+", "int"), "start-date": (None, "date"), "end-date": (None, "date"),
          "ext": (None, "str"), "p": ("?", "bool")}


def parse_args(E, p):
    ns = Obj("Namespace", {}, oid=E.new_oid())
    for flags, k in p.options:
        name = max(flags, key=len).lstrip("-") if len(flags) > 1 else flags[0].lstrip("-")
        for f in flags:
            if f.lstrip("-") in SHAPES:
                name = f.lstrip("-")
        extra = set(k) - {"dest", "nargs", "type", "help", "default", "const", "metavar", "required", "action"}
        if extra or k.get("required"):
            raise Unsupported(f"option {flags}: {sorted(extra)}")
        dest = k.get("dest") or max(flags, key=len).lstrip("-").replace("-", "_")
        given = E.ghost.get("opt_" + name.replace("-", "_"), E)
        if given is E:
            raise Unsupported(f"option {flags} is not described by the contract")
        if k.get("action") == "store_true" and SHAPES[name] == ("?", "bool"):
            ns.attrs[dest] = given
            continue
        shape = (k.get("nargs"), type_name(k.get("type")))
        if shape != SHAPES[name] or k.get("action"):
            raise Unsupported(f"option {flags} is declared with another shape {shape}")
        if name == "p" and (k.get("const") is not True or k.get("default") is not False):
            raise Unsupported("option -p")
        ns.attrs[dest] = k.get("default") if given is None else given
    missing = [g for g in E.ghost if g.startswith("opt_") and not any(f.lstrip("-").replace("-", "_") == g[4:] for fs, _ in p.options for f in fs)]
    if missing:
        raise Unsupported(f"options {missing} are not declared")
    return ns


def declare(E, value, name, mod):
    """the statements of the module that declare the options of a parser"""
    from .engine import Frame, FuncInfo

    fi = FuncInfo(mod, None, ast.parse("def _module(): pass").body[0])
    fr = Frame(fi, mod, None)
    for st in mod.tree.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name:
            E.eval(st.value, fr)
        elif isinstance(st, (ast.For, ast.While, ast.With)) and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st)):
            raise Unsupported("options declared in a loop")
    return value


def vars_(E, o):
    if isinstance(o, Obj) and o.ident is None:
        d = DictV({}, oid=E.new_oid())
        d.d.update({k: (True, v) for k, v in o.attrs.items()})
        return d
    raise Unsupported("vars")


def text_term(v):
    from .models_os import term

    return term(v)


def filter_(E, f, v):
    if isinstance(f, FuncV) and f.name in ("str.isdigit", "str.isnumeric", "str.isdecimal") and isinstance(v, (Tok, FStr)):
        return DigitsV(text_term(v))
    if isinstance(f, FuncV) and f.name in ("str.isdigit",) and isinstance(v, str):
        return ListV([c for c in v if c.isdigit()], oid=E.new_oid())
    it = E.iterate(v)
    n = simp(it.n)
    if isinstance(n, int):
        out = []
        for i in range(n):
            x = it.get(i)
            if E.truth(x if f is None else E.call(f, [x])):
                out.append(x)
        return ListV(out, oid=E.new_oid())
    raise Unsupported("filter")


def int_digits(E, d):
    ok = HAS_DIGITS(d.text)
    part = getattr(E, "partial", None)
    if part is not None:
        part.append(ok)
    elif not E.decide(ok, "digits in the text"):
        raise PyExc("ValueError", "invalid literal for int()")
    return DIGITS(d.text)


def sort_model(E, v, key=None, reverse=False):
    """a permutation of the elements with non-decreasing keys; the keys are computed for every element"""
    it = E.iterate(v)
    n = simp(it.n)
    if reverse is True:
        raise Unsupported("sorting in reverse")
    get = it.get
    if isinstance(n, int) and n <= 16:
        at = ListV([get(i) for i in range(n)]).at
    else:
        at = get

    def keyof(x):
        r = x if key is None else E.call(key, [x])
        if not is_num(r):
            raise Unsupported("sort key that is no number")
        return r

    saved, E.partial = getattr(E, "partial", None), []
    sn, E.nomerge = E.nomerge, True
    from .engine import MergeFail

    k = z3.Int(E.name("sort!k"))
    try:
        probe = keyof(at(k))
        conds = list(E.partial)
    except MergeFail:
        raise Unsupported("sort key needs a case split")
    finally:
        E.partial, E.nomerge = saved, sn
    if conds:
        c = z3.And(*conds)
        b = E.freshbool("keys_defined")
        j = E.freshint("undefined", 0)
        E.assume(z3.Implies(b, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tz(n)), c))))
        E.assume(z3.Implies(z3.Not(b), z3.And(j < tz(n), z3.Not(z3.substitute(c, (k, j))))))
        if not E.decide(b, "every element has a sort key"):
            raise PyExc("ValueError", "sort key")
    perm = z3.Function(E.name("sort.perm"), z3.IntSort(), z3.IntSort())
    inv = z3.Function(E.name("sort.inv"), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("sort!i sort!j")
    inr = lambda x: z3.And(x >= 0, x < tz(n))
    kt = lambda x: z3.substitute(tz(probe), (k, tz(x)))
    E.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), inv(perm(i)) == i)), patterns=[perm(i)]))
    E.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), perm(inv(i)) == i)), patterns=[inv(i)]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < tz(n)), kt(perm(i)) <= kt(perm(j))), patterns=[z3.MultiPattern(perm(i), perm(j))]))
    if isinstance(n, int):
        items = [at(perm(z3.IntVal(x))) for x in range(n)]
        return ListV(items, oid=E.new_oid())
    return ListV(None, n, lambda x: at(perm(tz(x))), oid=E.new_oid(), elt=getattr(v, "elt", None))


def list_sort(E, o, key=None, reverse=False):
    r = sort_model(E, o, key, reverse)
    if r.concrete:
        E.set_list(o, list(r.items))
    else:
        E.set_list(o, None, r.n, r.get, elt=r.elt)


def listdir(E, path="."):
    """the names in a folder: pairwise different, none of them a path"""
    key = ("listdir", text_term(path).sexpr())
    if key in E.elem_cache:
        n, f, _ = E.elem_cache[key]
    else:
        n = E.freshint("listdir.len", 0)
        f = z3.Function(E.name("listdir"), z3.IntSort(), StrSort)
        pos = z3.Function(E.name("listdir.pos"), StrSort, z3.IntSort())
        i = z3.Int("ls!i")
        d = z3.Const("ls!d", StrSort)
        join = z3.Function("path_join", StrSort, StrSort, StrSort)
        base = z3.Function("basename", StrSort, StrSort)
        inr = z3.And(i >= 0, i < n)
        E.assume(z3.ForAll([i], z3.Implies(inr, pos(f(i)) == i), patterns=[f(i)]))
        E.assume(z3.ForAll([d, i], z3.Implies(inr, base(join(d, f(i))) == f(i)), patterns=[join(d, f(i))]))
        E.elem_cache[key] = (n, f, pos)
    return ListV(None, n, lambda j: Tok(f(tz(j))), oid=E.new_oid(), elt=so.StrS())


def place(E, path, name):
    listdir(E, path)
    return E.elem_cache[("listdir", text_term(path).sexpr())][2](text_term(name))


def isdir(E, p):
    return IS_DIR(text_term(p))


def mkdir(E, p, *a, **k):
    E.events.append(("ask", "mkdir", {"path": p}))


def days_in_month(E, d):
    ymd = getattr(d, "ymd", None)
    if ymd is None:
        raise Unsupported("month of a date of unknown parts")
    return month_days(E, ymd[0], ymd[1])


def leap(y):
    y = tz(y)
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def month_days(E, y, m):
    m = simp(m)
    if not isinstance(m, int):
        raise Unsupported("length of an unknown month")
    if m != 2:
        return (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]
    return simp(z3.If(leap(y), z3.IntVal(29), z3.IntVal(28)))


def period(E, value=None, freq=None, **k):
    if k or not isinstance(value, DateV):
        raise Unsupported("Period")
    return value


def monthrange(E, y, m):
    from .models_pd import ordinal, weekday

    d = DateV(simp(tz(ordinal(E, y, m, 1)) * 1440), True)
    return TupleV((weekday(E, d), month_days(E, y, m)))


def install(E):
    X, V = E.ext, E.valmeth
    X["argparse.ArgumentParser"] = lambda E, **k: ParserV()
    V[("ParserV", "add_argument")] = add_argument
    V[("ParserV", "parse_args")] = lambda E, p: parse_args(E, p)
    E.builtins["vars"] = vars_
    E.builtins["filter"] = filter_
    V[("int", "DigitsV")] = int_digits
    type(E).sort_model = sort_model
    V[("ListV", "sort")] = list_sort
    X["os.listdir"] = listdir
    X["os.path.isdir"] = isdir
    for n in ("mkdir", "makedirs"):
        X["os." + n] = mkdir
    E.ext_consts["os.path.curdir"] = "."
    E.ext_consts["os.curdir"] = "."
    X["os.getcwd"] = lambda E: Tok(z3.Function("abspath", StrSort, StrSort)(str_term(".")))
    X["pandas.Period"] = period
    X["calendar.monthrange"] = monthrange
    V[("DateV", "days_in_month")] = is_attr(days_in_month)
    V[("DateV", "daysinmonth")] = is_attr(days_in_month)


def is_attr(f):
    f.is_attr = True
    return f
