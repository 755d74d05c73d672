"""ramp/core/core.py: users and appliances read from the rows of a table"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from pydv.values import Unsupported
from .add import CYCLES, ORDER, WINDOWS
from .schema import UNREAD

C = "ramp.core.core:"
U = "ramp.core.utils:"
OF_USER = ("num_users", "user_preference")
TEXT = ("name", "fixed", "flat")
WHOLE = ("number", "num_windows", "func_time", "func_cycle", "fixed_cycle", "continuous_duty_cycle", "pref_index", "wd_we_type")
PAIRS = tuple(n for n in (*WINDOWS, *CYCLES) if n.startswith(("window_", "cw")))
SINGLE = tuple(n for n in (*ORDER, *WINDOWS, *CYCLES) if n not in PAIRS)


def columns():
    out = {"user_name": "s", "num_users": "i", "user_preference": "i", "p_series": "i"}
    for n in SINGLE:
        out[n] = "s" if n in TEXT else "p" if n == "power" else "i" if n in WHOLE or n.startswith("t_") else "f"
    for n in PAIRS:
        out[n + "_start"] = out[n + "_end"] = "i"
    return out


@contract
class ReadFile(Contract):
    """what the rows of a spreadsheet hold, power series checked (executions only)"""

    target = U + "read_input_file"
    assumed = True
    props = ("C18", "C19")
    params = dict(filename=StrS())
    draws = False
    returns = CellsS(columns(), keys=("user_name", "p_series"))
    raises = {"ValueError": ("only", None)}


@contract
class AddRow(Contract):
    """a row whose filled cells lie in the documented ranges is declared (see contracts/add.py for what becomes of the parameters)"""

    target = C + "User.add_appliance"
    case = "a row of a table"
    assumed = True
    props = ()
    params = dict(self=ObjS("User", load=AnyS()), args=TupleS(), kwargs=OptDictS())
    modifies = ("self.App_list",)
    raises = {"InvalidWindow": ("only", None)}


@contract
class Load(Contract):
    target = C + "UseCase.load"
    case = "not initialised"
    props = ("C18", "C19")
    params = dict(self=ObjS("UseCase", **{**UNREAD, "_UseCase__num_days": ConstS(None), "_UseCase__datetimeindex": ConstS(None)}), filename=StrS())
    modifies = ("self.users", "self.appliances")
    modifies_elems = {"User": ("usecase", "App_list")}
    draws = False
    merge_ifs = True
    hasty = True
    budget_s = 150
    raises = {"ValueError": ("only", None), "InvalidWindow": ("only", None)}
    ghost = dict(table=ConstS(None), made=ConstS(0), rows=ConstS(0), last=ConstS(None))

    def group(self, S, t, k):
        m, name = S.groups(t, "user_name")
        return S.rows_with(t, "user_name", name(k))

    def agree(self, S, t, k):
        n, row = self.group(S, t, k)
        return S.ForAll(0, n, lambda j: S.And(*[S.same_cells(t, c, row(j), row(0)) for c in OF_USER]))

    def complete(self, S, t, g):
        """every row of the last user made was declared"""
        return S.Implies(S.ge(g.made, 1), S.eq(g.rows, self.group(S, t, S.sub(g.made, 1))[0]))

    def on_call(self, S, c, callee, ghost):
        if S.eng.contract is not self:
            return ()
        g = S.ns(ghost)
        ok = [True]

        def ob(nm, f):  # the first one that fails is enough
            ok[0] = ok[0] and S.eng.oblige(f"{self.short}: {nm}", f, "post")

        def shape(nm, f):
            """the contract follows a user's rows from the moment it is added to the moment the next one is: any other
            order of the calls is beyond it, not wrong"""
            if not S.eng.oblige(f"{self.short}: {nm}", f, "post") and not S.eng.obls[-1].hasty:
                raise Unsupported(f"not shown: {nm}")

        if callee.startswith("read_input_file"):
            ob("the file asked for is read, once", S.And(g.table is None, S.eq(c.old.filename, S.eng.ctx.old.filename)))
            return [("table", c.result)]
        t = g.table
        if callee.startswith("UseCase.add_user"):
            m, name = S.groups(t, "user_name")
            n, row = self.group(S, t, g.made)
            u = c.old.user
            ob("one user for every name, in the order of the table", S.And(S.lt(g.made, m), S.eq(u.user_name, name(g.made))))
            shape("every row of the user before was declared", self.complete(S, t, g))
            ob("the rows of a user agree", self.agree(S, t, g.made))
            for col, attr, dflt in (("num_users", "num_users", 1), ("user_preference", "user_preference", 0)):
                b, v = S.cell(t, col, row(0))
                ob(f"{col}: the cell, its default when it is blank", S.eq(getattr(u, attr), S.If(b, dflt, v)))
            return [("made", S.simp(S.add(g.made, 1))), ("rows", 0), ("last", S.refid(c.user))]
        if callee.startswith("User.add_appliance"):
            k = S.sub(g.made, 1)
            n, row = self.group(S, t, k)
            shape("the rows of the user in order, each once", S.And(S.ge(g.made, 1), S.lt(g.rows, n)))
            shape("the appliance is declared for its user", S.eq(S.refid(c.self), g.last))
            i = row(g.rows)
            kw = c.old.kwargs
            for x in SINGLE:
                b, v = S.cell(t, x, i)
                ob(f"{x}: the filled cell, nothing when it is blank", self.passed(S, kw, x, S.Not(b), [v]))
            for x in PAIRS:
                (b, v), (d, w) = S.cell(t, x + "_start", i), S.cell(t, x + "_end", i)
                ob(f"{x}: the two filled cells, nothing when one is blank", self.passed(S, kw, x, S.And(S.Not(b), S.Not(d)), [v, w]))
            ob("no other parameter", all(x in SINGLE or x in PAIRS for x in kw.keys()))
            return [("rows", S.simp(S.add(g.rows, 1)))]
        return ()

    def passed(self, S, kw, x, filled, want):
        p = kw.has(x)
        if p is False:
            return S.Not(filled)
        v = kw[x]
        if len(want) == 2:
            return S.And(S.Iff(p, filled), S.Implies(filled, S.And(S.eq(S.at(v, 0), want[0]), S.eq(S.at(v, 1), want[1]))))
        b, v = S.content(v)
        return S.And(S.Iff(p, filled), S.Implies(filled, S.And(S.Not(b), S.eq(v, want[0]))))

    def ensures(self, S, c):
        g = c.ghost
        t = g.table
        if t is None:
            return [("the file is read", False)]
        m, name = S.groups(t, "user_name")
        return [("a user for every name", S.eq(g.made, m)), ("every row of the last user was declared", self.complete(S, t, g)),
                ("the rows of every user agree", S.ForAll(0, m, lambda k: self.agree(S, t, k))),
                ("the users are added after those already there", S.eq(S.len(c.self.users), S.add(S.len(c.old.self.users), m)))]

    def invariants(self, S, L):
        if L.func != "load":
            return []
        g = L.ghost
        if g.table is None:
            return []
        t = g.table
        out = [("users so far", S.eq(g.made, L.k)), ("rows so far", S.eq(g.rows, L.k)),
               ("the user is complete", self.complete(S, t, g)), ("a user was made", S.ge(g.made, 1)),
               ("users in the list", S.eq(S.len(S.eng.ctx.self.users), S.add(S.len(L.old.self.users), g.made))),
               ("the rows of the users so far agree", S.ForAll(0, g.made, lambda k: self.agree(S, t, k)))]
        return out
