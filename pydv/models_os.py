"""paths and texts of unknown content: functions of their arguments (assumed contracts on os.path and str)"""
import z3
from .values import *

DIRS = {}


def term(v):
    if isinstance(v, str):
        return str_term(v)
    if isinstance(v, FStr):
        return fstr_term(v)
    if isinstance(v, Tok):
        return v.term
    raise Unsupported(f"text {v!r}")


def text_fn(name, *args):
    f = z3.Function(name, *([StrSort] * len(args)), StrSort)
    return Tok(f(*[term(a) for a in args]))


def join(E, *parts):
    """os.path.join is associative: the parts are joined from the left"""
    if all(isinstance(p, str) for p in parts):
        import posixpath

        return posixpath.join(*parts)
    r = parts[0]
    for p in parts[1:]:
        r = text_fn("path_join", r, p)
    return r


def split(E, p):
    if isinstance(p, str):
        import posixpath

        return TupleV(posixpath.split(p))
    return TupleV((text_fn("dirname", p), text_fn("basename", p)))


def one(name, conc=None):
    def f(E, p):
        if isinstance(p, str) and conc is not None:
            return conc(p)
        return text_fn(name, p)

    return f


def pred(name):
    def f(E, p):
        """a question to the file system: any answer, recorded with its argument"""
        b = E.freshbool(name)
        E.events.append(("ask", name, {"path": p, "answer": b}))
        return b

    return f


def system(E, command):
    """a command of the shell: recorded, any status"""
    E.events.append(("io", "system", {"command": command}))
    return E.freshint("status")


def replace(E, o, a, b):
    if all(isinstance(x, str) for x in (o, a, b)):
        return o.replace(a, b)
    return text_fn("replaced", o, a, b)


def install(E):
    import posixpath

    X, V = E.ext, E.valmeth
    X["os.path.join"] = join
    X["os.path.split"] = split
    X["os.path.basename"] = one("basename", posixpath.basename)
    X["os.path.dirname"] = one("dirname", posixpath.dirname)
    X["os.path.abspath"] = one("abspath")
    X["os.system"] = system
    for n in ("isdir", "exists", "isfile"):
        X["os.path." + n] = pred(n)
    for k in ("Tok", "FStr", "str"):
        V[(k, "replace")] = replace
