"""pd.DataFrame as a sequence of records (one row per appliance), and tables put one below the other."""
from .values import *


class RecV(Heap):
    """a table given row by row: rec(i) maps a column to its cell"""

    def __init__(self, n, rec, oid=None):
        self.n, self.rec, self.oid = n, rec, oid


class StackV(Heap):
    """tables one below the other, rows renumbered"""

    def __init__(self, parts, oid=None):
        self.parts, self.oid = parts, oid


class PowerCell:
    """how a saved row holds a power: its value when it is constant, the list of its values otherwise"""

    def __init__(self, arr):
        self.arr = arr


def from_records(E, recs, **k):
    if k or not isinstance(recs, ListV) or not recs.concrete:
        raise Unsupported("records of a table")
    rows = []
    for r in recs.items:
        r = E.force(r)
        if not isinstance(r, DictV) or r.num is not None or any(p is not True for p, _ in r.d.values()):
            raise Unsupported("record of a table")
        rows.append(dict((c, v) for c, (_, v) in r.d.items()))

    def rec(i):
        i = simp(i)
        if not isinstance(i, int):
            if len(rows) != 1:
                raise Unsupported("row of a table")
            i = 0
        return rows[i]

    return RecV(len(rows), rec, E.new_oid())


def concat(E, parts, ignore_index=False, **k):
    if k or ignore_index is not True or not isinstance(parts, ListV):
        raise Unsupported("options of concat")
    n = simp(parts.n) if not parts.concrete else len(parts.items)
    if n == 0 or not isinstance(n, int) and E.decide(tz(n) == 0, "no table to concatenate"):
        raise PyExc("ValueError", "No objects to concatenate")
    probe = parts.items[0] if parts.concrete else parts.get(z3.Int("concat!probe"))
    if not isinstance(E.force(probe), (RecV, StackV)):
        raise Unsupported("concatenation of tables of another kind")
    items = list(parts.items) if parts.concrete else None
    return StackV(ListV(items, None if items is not None else parts.n, parts.get), E.new_oid())


def to_excel(E, o, path=None, **k):
    from .models_df import io

    io(E, "write xlsx", path=path.info["path"] if isinstance(path, Opaque) else path, data=o, options=dict(k))


def install(E):
    X, V = E.ext, E.valmeth
    X["pandas.DataFrame.from_records"] = from_records
    X["pandas.concat"] = concat
    for c in ("RecV", "StackV"):
        V[(c, "to_excel")] = to_excel
        V[("isinstance", c)] = lambda E, v, short: short in ("DataFrame", "object")
