"""ramp/post_process/post_process.py: formatting and export of simulated loads"""
from pydv.registry import contract, Contract
from pydv.sorts import *

P = "ramp.post_process.post_process:"


class _Format(Contract):
    target = P + "Profile_formatting"
    props = ("C23",)
    draws = False
    returns = TupleS(ArrS((1440,)), ListS(ArrS((1440,))), ArrS((None,)))

    def requires(self, S, c):
        S.partial(c.stoch_profiles)
        return [("at least one profile", S.ge(S.len(c.stoch_profiles), 1))]

    def ensures(self, S, c):
        p, r = c.old.stoch_profiles, c.result
        if not (S.is_tuple(r) and len(r) == 3):
            return [("average, profiles in kW, series", False)]
        row, n, tot = S.matrix(p), S.len(p), S.partial(p)
        avg, kw, series = r
        kw_at = S.matrix(kw)
        return [
            ("minute by minute average", S.And(S.eq(S.len(avg), 1440), S.ForAll(0, 1440, lambda m: S.eq(S.at(avg, m), S.div(tot(n, m), n))))),
            ("the same profiles in kW, in the same order", S.And(S.eq(S.len(kw), n), S.ForAll(0, n, lambda i: S.ForAll(
                0, 1440, lambda m: S.eq(kw_at(i, m), S.div(row(i, m), 1000)))))),
            ("each of 1440 minutes", S.ForAll(0, n, lambda i: S.eq(S.len(S.at(kw, i)) if not S.is_array(kw) else kw.shape[1], 1440))),
            ("the profiles one after the other", S.And(S.eq(S.len(series), S.mul(1440, n)), S.ForAll(0, n, lambda i: S.ForAll(
                0, 1440, lambda m: S.eq(S.at(series, S.add(S.mul(1440, i), m)), row(i, m)))))),
        ]

    def invariants(self, S, L):
        if L.func != "Profile_formatting":
            return []
        p = S.eng.ctx.old.stoch_profiles
        row, tot = S.matrix(p), S.partial(p)
        S.unfold(p, L.k)
        out = []
        for nm, cur, ent in L.arrays:
            if len(cur.shape) != 1:
                continue
            if cur.shape[0] == 1440:
                out.append((f"{nm} is the sum so far", S.ForAll(0, 1440, lambda m: S.eq(S.at(cur, m), tot(L.k, m)))))
            else:
                out.append((f"{nm} has the length so far", S.eq(S.len(cur), S.mul(1440, L.k))))
                out.append((f"{nm} holds the profiles so far", S.ForAll(0, L.k, lambda i: S.ForAll(
                    0, 1440, lambda m: S.eq(S.at(cur, S.add(S.mul(1440, i), m)), row(i, m))))))
        for nm, cur, ent in L.lists:
            if cur is ent:
                continue
            out.append((f"{nm} has one row per profile so far", S.eq(S.len(cur), L.k)))
            if S.rows(cur):
                empty = S.concretely_empty(cur)
                out.append((f"{nm} has rows of 1440 minutes", empty or S.ForAll(0, L.k, lambda i: S.eq(S.len(S.at(cur, i)), 1440))))
                out.append((f"{nm} holds the profiles in kW so far", empty or S.ForAll(0, L.k, lambda i: S.ForAll(
                    0, 1440, lambda m: S.eq(S.at(S.at(cur, i), m), S.div(row(i, m), 1000))))))
        return out


@contract
class FormatMatrix(_Format):
    case = "matrix"
    params = dict(stoch_profiles=ArrS((None, 1440), "f", None, None, 1))


@contract
class FormatList(_Format):
    case = "list"
    params = dict(stoch_profiles=ListS(ArrS((1440,)), 1))


class _Export(Contract):
    target = P + "export_series"
    props = ("C23",)
    draws = False
    series = ArrS((None,), "f")

    def path(self, S, c):
        raise NotImplementedError

    def ensures(self, S, c):
        ws = S.ios(c)
        if len(ws) != 1 or ws[0][0] != "write csv" or not S.is_table(ws[0][1]["data"]):
            return [("the series is written once", False)]
        w = ws[0][1]
        f, x, o = w["data"], c.old.stoch_profiles_series, w["options"]
        return [
            ("exactly that series", S.And(S.eq(f.n, S.len(x)), S.eq(f.m, 1), S.ForAll(0, f.n, lambda i: S.eq(f.get(S.tz(i), 0), S.at(x, i))))),
            ("to that path", S.eq(w["path"], self.path(S, c))),
            ("in full", S.And(o.get("index", True) is True, o.get("header", True) is True, not set(o) - {"index", "header"})),
        ]

    def results(self, S, name):
        return S.join(S.glob("ramp.post_process.post_process", "BASE_PATH"), "results", name)


@contract
class ExportTo(_Export):
    case = "output path"
    params = dict(stoch_profiles_series=_Export.series, j=OneOf(ConstS(None), IntS()), fname=OneOf(ConstS(None), StrS()), ofname=StrS())

    def path(self, S, c):
        return c.ofname


@contract
class ExportInput(_Export):
    case = "input file"
    params = dict(stoch_profiles_series=_Export.series, j=OneOf(ConstS(None), IntS()), fname=StrS(), ofname=NoneS())

    def path(self, S, c):
        return self.results(S, S.text("output_file_", S.fn("replaced", S.fn("basename", c.fname), ".", "_"), ".csv"))


@contract
class ExportNumber(_Export):
    case = "number"
    params = dict(stoch_profiles_series=_Export.series, j=IntS(), fname=NoneS(), ofname=NoneS())

    def path(self, S, c):
        return self.results(S, S.text("output_file_", c.j, ".csv"))


@contract
class ExportNowhere(_Export):
    case = "no path"
    params = dict(stoch_profiles_series=_Export.series, j=NoneS(), fname=NoneS(), ofname=NoneS())

    def ensures(self, S, c):
        return [("nothing is written", not S.ios(c))]


class _Plot(Contract):
    """draws on the screen and writes nothing (matplotlib)"""

    assumed = True
    draws = False
    props = ("C23",)


@contract
class SeriesPlot(_Plot):
    target = P + "Profile_series_plot"
    params = dict(stoch_profiles_series=ArrS((None,)))


@contract
class CloudPlot(_Plot):
    target = P + "Profile_cloud_plot"
    params = dict(stoch_profiles=OneOf(ArrS((None, 1440)), ListS(ArrS((1440,)))), stoch_profiles_avg=ArrS((1440,)))


class _Post(Contract):
    """what the command line writes: the simulated series in full, once"""

    target = P + "old_post_process"
    props = ("C23", "C22")
    draws = False
    inline_calls = (P + "export_series",)

    def requires(self, S, c):
        return [("at least one profile", S.ge(S.len(c.Profiles_list), 1))]

    def ensures(self, S, c):
        if c.draws is None:
            return []
        ws = S.ios(c)
        if len(ws) != 1 or ws[0][0] != "write csv" or not S.is_table(ws[0][1]["data"]):
            return [("the series is written once", False)]
        w = ws[0][1]
        f, p, o = w["data"], c.old.Profiles_list, w["options"]
        row, n = S.matrix(p), S.len(p)
        return [
            ("the profiles one after the other", S.And(S.eq(f.n, S.mul(1440, n)), S.eq(f.m, 1), S.ForAll(0, n, lambda i: S.ForAll(
                0, 1440, lambda m: S.eq(f.get(S.tz(S.add(S.mul(1440, i), m)), 0), row(i, m)))))),
            ("to the output path", S.eq(w["path"], self.path(S, c.old))),
            ("in full", S.And(o.get("index", True) is True, o.get("header", True) is True, not set(o) - {"index", "header"})),
        ]

    def path(self, S, c):
        return c.ofname if c.ofname is not None else ExportInput().path(S, c)


for _k, _s in (("matrix", ArrS((None, 1440), "f", None, None, 1)), ("list", ListS(ArrS((1440,)), 1))):
    contract(type("Post", (_Post,), dict(case=_k, params=dict(Profiles_list=_s, fname=StrS(), ofname=OneOf(ConstS(None), StrS())))))
