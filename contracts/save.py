"""ramp/core/core.py: the table a model is saved as"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .equality import SCALARS, PAIRS
from .schema import UNREAD

C = "ramp.core.core:"
OF_USER = ("user_name", "num_users", "user_preference")


def saved_row(S, a, user):
    """the cells of the row of an appliance: every declared parameter, and the user category it belongs to"""
    row = {n: getattr(user, n) for n in OF_USER}
    row.update({n: getattr(a, n) for n in SCALARS})
    for n in PAIRS:
        row[n + "_start"], row[n + "_end"] = S.at(getattr(a, n), 0), S.at(getattr(a, n), 1)
    row["power"] = S.power_cell(a.power)
    return row


def same_row(S, got, want):
    if set(got) != set(want):
        return False
    return S.And(*[S.power_as_saved(got[k], v.arr) if k == "power" else S.eq(got[k], v) for k, v in want.items()])


@contract
class SaveAppliance(Contract):
    target = C + "Appliance.save"
    props = ("C18",)
    params = dict(self=ObjS("Appliance"))
    draws = False

    def call_value(self, S, c):
        a = c.self
        return S.table([saved_row(S, a, a.user)])

    def ensures(self, S, c):
        a, t = c.old.self, c.result
        if not S.is_rows(t) or S.rows_of(t)[0] != 1:
            return [("a table of one row", False)]
        got, want = S.rows_of(t)[1](0), saved_row(S, a, a.user)
        out = [("one column per parameter", set(got) == set(want))]
        for k, v in want.items():
            if k in got:
                out.append((f"{k} saved as it is", S.power_as_saved(got[k], v.arr) if k == "power" else S.eq(got[k], v)))
        return out


def of_users_list(S, user):
    lst = user.App_list
    return S.stack(S.len(lst), lambda j: S.table([saved_row(S, S.at(lst, j), user)]))


def rows_of_appliances(S, t, user):
    """one row per appliance of the user, in the order of its list"""
    lst = user.App_list
    n, row = S.rows_of(t)
    return [("one row per appliance", S.eq(n, S.len(lst))),
            ("the rows in the order of the list, each with every parameter of its appliance", S.ForAll(
                0, S.len(lst), lambda j: same_row(S, row(j), saved_row(S, S.at(lst, j), user))))]


class _SaveUser(Contract):
    target = C + "User.save"
    props = ("C18",)
    draws = False
    raises = {"Exception": ("iff", lambda S, c: S.eq(S.len(c.self.App_list), 0))}


def unwritten(S, c):
    return [("no file is written", not S.ios(c))] if hasattr(c, "events") else []


def written(S, c):
    """the one file written"""
    ios = S.ios(c)
    return ios[0][1] if len(ios) == 1 and ios[0][0] == "write xlsx" else None


@contract
class SaveUser(_SaveUser):
    case = "table"
    params = dict(self=ObjS("User", usecase=AnyS()), filename=NoneS())

    def call_value(self, S, c):
        return of_users_list(S, c.self)

    def ensures(self, S, c):
        t = c.result
        if not (S.is_rows(t) or S.is_stack(t)):
            return [("a table", False)]
        return rows_of_appliances(S, t, c.old.self) + unwritten(S, c)


@contract
class SaveUserFile(_SaveUser):
    case = "file"
    params = dict(self=ObjS("User", usecase=AnyS()), filename=StrS())

    def ensures(self, S, c):
        w = written(S, c)
        if w is None or not (S.is_rows(w["data"]) or S.is_stack(w["data"])):
            return [("one file is written", False)]
        return [("to the name given, with the extension", S.eq(w["path"], S.text(c.filename, ".xlsx")))] + rows_of_appliances(S, w["data"], c.old.self)


class _SaveCase(Contract):
    target = C + "UseCase.save"
    props = ("C18",)
    draws = False

    def requires(self, S, c):
        us = c.self.users
        return [("there is a user", S.ge(S.len(us), 1)),
                ("every user has an appliance", S.ForAll(0, S.len(us), lambda i: S.ge(S.len(S.at(us, i).App_list), 1)))]

    def table(self, S, t, us):
        if not S.is_stack(t):
            return [("the tables of the users one below the other", False)]
        n, part = S.parts_of(t)

        def block(i):
            fs = [f for _, f in rows_of_appliances(S, part(i), S.at(us, i))]
            return S.And(*fs)

        return [("one block of rows per user", S.eq(n, S.len(us))),
                ("the blocks in the order of the users, each with the user's appliances in order", S.ForAll(0, S.len(us), block))]


@contract
class SaveCase(_SaveCase):
    case = "table"
    params = dict(self=ObjS("UseCase", **UNREAD), filename=NoneS())

    def call_value(self, S, c):
        us = c.self.users
        return S.stack(S.len(us), lambda i: of_users_list(S, S.at(us, i)))

    def ensures(self, S, c):
        return self.table(S, c.result, c.old.self.users) + unwritten(S, c)


@contract
class SaveCaseFile(_SaveCase):
    case = "file"
    params = dict(self=ObjS("UseCase", **UNREAD), filename=StrS())

    def ensures(self, S, c):
        w = written(S, c)
        if w is None:
            return [("one file is written", False)]
        return [("to the name given, with the extension", S.eq(w["path"], S.text(c.filename, ".xlsx"))),
                ("without an index column", w["options"].get("index", True) is False)] + self.table(S, w["data"], c.old.self.users)


@contract
class ExportAppliance(SaveAppliance):
    target = C + "Appliance.export_to_dataframe"


@contract
class ExportUser(SaveUser):
    target = C + "User.export_to_dataframe"
    case = None
    params = dict(self=ObjS("User", usecase=AnyS()))


@contract
class ExportCase(SaveCase):
    target = C + "UseCase.export_to_dataframe"
    case = None
    params = dict(self=ObjS("UseCase", **UNREAD))
