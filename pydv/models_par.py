"""process pools, progress bars and dictionaries from numbers to lists of profiles (assumed contract on multiprocessing)

Pool.imap_unordered(f, tasks) gives f(task) once for every task, in any order; map and imap in the order of the tasks.
f runs in another process on copies: nothing it changes is seen here, only its result, of which its contract tells.
An exception of a task is raised where its result is asked for.
"""
import z3
from .values import *


class PoolV:
    pass


class NumDict:
    """state of a dictionary with integer keys and lists of profiles of equal length as values: which keys there are,
    how many profiles each has and their sum, minute by minute"""

    def __init__(self, has, n, tot, width):
        self.has, self.n, self.tot, self.width = has, n, tot, width


class EntryV:
    """the list of profiles a key of such a dictionary leads to"""

    def __init__(self, d, key):
        self.d, self.key = d, key


def set_num(E, d, num):
    old = d.num

    def restore():
        d.num = old

    d.num = num
    E.note_write(("numdict", d.oid, d), restore, num)


def num_has(d, k):
    return d.num.has(k) if d.num is not None else z3.BoolVal(False)


def is_key(d, k):
    """is the dictionary (to be) described as a map from numbers?"""
    if d.d:
        return False
    return is_z3(k) and is_int(k) or isinstance(k, int) and (d.num is not None or getattr(d, "default", None) is not None)


def put(E, d, k, n, row, width, add):
    """the list at k becomes the old one with one more profile (add) or is replaced by a list of the given sum"""
    if d.num is None:
        base = NumDict(lambda j: z3.BoolVal(False), lambda j: z3.IntVal(0), lambda j, m: z3.RealVal(0), width)
    else:
        base = d.num
        if base.width != width:
            raise Unsupported("profiles of different lengths in one dictionary")
    has, cnt, tot, k = base.has, base.n, base.tot, tz(k)
    if add:
        new = NumDict(has, lambda j: z3.If(tz(j) == k, cnt(j) + n, cnt(j)), lambda j, m: z3.If(tz(j) == k, tot(j, m) + row(m), tot(j, m)), width)
    else:
        new = NumDict(lambda j: z3.Or(tz(j) == k, has(j)), lambda j: z3.If(tz(j) == k, tz(n), cnt(j)),
                      lambda j, m: z3.If(tz(j) == k, row(m), tot(j, m)), width)
    set_num(E, d, new)


def profile(v):
    if not (isinstance(v, Arr) and len(v.shape) == 1 and isinstance(simp(v.shape[0]), int)):
        raise Unsupported(f"dictionary of {v!r}")
    g = v.get
    return simp(v.shape[0]), lambda m: tz(to_real(g(m)))


def num_set(E, d, k, v):
    if isinstance(v, EntryV) and v.d is d:
        return
    if not (isinstance(v, ListV) and v.concrete):
        raise Unsupported(f"dictionary of {v!r}")
    if not v.items:
        v.alias = EntryV(d, k)
        return put(E, d, k, 0, lambda m: z3.RealVal(0), 1440, False)
    v.alias = EntryV(d, k)
    rows = [profile(x) for x in v.items]
    put(E, d, k, len(rows), lambda m: sum((r(m) for _, r in rows[1:]), rows[0][1](m)), rows[0][0], False)


def num_get(E, d, k):
    if not E.decide(num_has(d, k), "the key is in the dictionary"):
        if getattr(d, "default", None) == "list":
            put(E, d, k, 0, lambda m: z3.RealVal(0), 1440 if d.num is None else d.num.width, False)
        else:
            raise PyExc("KeyError", "key of a dictionary")
    return EntryV(d, k)


def entry_append(E, e, v):
    w, r = profile(v)
    put(E, e.d, e.key, 1, r, w, True)


def entry_sum(E, e):
    num, k = e.d.num, tz(e.key)
    tot = num.tot
    return Arr((num.width,), lambda m: tot(k, tz(m)), "f", oid=E.new_oid())


def entry_matrix(E, e):
    """the profiles below each other; only their number and their sum are known"""
    num = e.d.num
    a = Arr((simp(num.n(tz(e.key))), num.width), E.fresh_fn("profiles", 2, "f"), "f", oid=E.new_oid())
    a.column_sums = entry_sum(E, e)
    return a


def fresh_num(E, base, width):
    has, n, tot = (z3.Function(E.name(base + s), *sig) for s, sig in (
        (".has", (z3.IntSort(), z3.BoolSort())), (".n", (z3.IntSort(), z3.IntSort())), (".sum", (z3.IntSort(), z3.IntSort(), z3.RealSort()))))
    return NumDict(lambda j: has(tz(j)), lambda j: n(tz(j)), lambda j, m: tot(tz(j), tz(m)), width)


def setdefault(E, d, k, v=None):
    if is_key(d, k):
        if not E.decide(num_has(d, k), "the key is in the dictionary"):
            num_set(E, d, k, v)
        return EntryV(d, k)
    from .builtins_ import dict_setdefault

    return dict_setdefault(E, d, k, v)


def defaultdict(E, factory=None):
    d = DictV({}, oid=E.new_oid())
    if factory is None or getattr(factory, "name", None) != "list":
        raise Unsupported("defaultdict of something else than lists")
    d.default = "list"
    return d


def pool(E, processes=None, **k):
    if k:
        raise Unsupported(f"Pool({', '.join(k)})")
    return PoolV()


def tasks_of(E, f, tasks, ordered):
    from .builtins_ import NS

    it = E.iterate(E.force(tasks))
    if not (isinstance(f, FuncV) and f.kind == "repo"):
        raise Unsupported(f"pool of {f!r}")
    fi = f.fi
    n = it.n
    for hook in E.contract.on_call(E.S, NS(tasks=tasks, worker=fi.qual, old=None), "tasks", E.ghost) or ():
        E.set_ghost(*hook)
    if ordered:
        at = lambda j: j
    else:
        p = z3.Function(E.name("arrival"), z3.IntSort(), z3.IntSort())
        j = z3.Int("arr!j")
        E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tz(n)), z3.And(p(j) >= 0, p(j) < tz(n))), patterns=[p(j)]))
        at = lambda j: p(tz(j))

    def get(j):
        i = at(j)
        if is_z3(i):
            E.assume(z3.Implies(z3.And(tz(j) >= 0, tz(j) < tz(n)), z3.And(i >= 0, i < tz(n))))
        return remote_call(E, fi, it.get(i))

    r = IterV(n, get)
    r.effect = True
    return r


def remote_call(E, fi, task):
    locs = E.bind(fi, [task], {}, None)
    c = E.contract_for(fi, locs)
    if c is None:
        raise Unsupported(f"{fi.qual} runs in another process and has no contract")
    return E.call_contract(c, fi, locs, remote=True)


def progress(E, iterable=None, **k):
    if iterable is not None:
        return E.iterate(E.force(iterable))
    return Opaque("progress")


def install(E):
    X, V = E.ext, E.valmeth
    X["multiprocessing.cpu_count"] = lambda E: E.freshint("cpu_count", 1)
    X["os.cpu_count"] = lambda E: E.freshint("cpu_count", 1)
    X["multiprocessing.Pool"] = X["multiprocessing.pool.Pool"] = pool
    X["tqdm.tqdm"] = X["tqdm.auto.tqdm"] = X["tqdm.std.tqdm"] = progress
    X["collections.defaultdict"] = defaultdict
    V[("PoolV", "imap_unordered")] = lambda E, p, f, tasks, chunksize=1: tasks_of(E, f, tasks, False)
    V[("PoolV", "imap")] = lambda E, p, f, tasks, chunksize=1: tasks_of(E, f, tasks, True)
    V[("PoolV", "map")] = lambda E, p, f, tasks, chunksize=None: tasks_of(E, f, tasks, True)
    for m in ("close", "join", "terminate"):
        V[("PoolV", m)] = lambda E, p: None
    for m in ("update", "close", "set_description", "refresh"):
        V[("Opaque", m)] = lambda E, p, *a, **k: None
    V[("EntryV", "append")] = entry_append
    V[("len", "EntryV")] = lambda E, e: simp(e.d.num.n(tz(e.key)))
    V[("DictV", "setdefault")] = setdefault
