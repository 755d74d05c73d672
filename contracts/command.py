"""ramp/cli.py and ramp/ramp_run.py: what the command line simulates"""
from pydv.registry import contract, Contract
from pydv.sorts import *
from .calendar import constant_ok
from .simulation import DATES, GEN_ATTRS, user_ok

OPT = lambda s: OneOf(ConstS(None), s)
DAY = DateS(True)
C = "ramp.core.core:"
RUN = "ramp.ramp_run:run_usecase"


class _Run(Contract):
    """one simulation: of the appliances in one file, for the days asked for"""

    target = RUN
    props = ("C22",)
    raises = {"ValueError": ("only", None), "TypeError": ("only", None), "FileNotFoundError": ("only", None)}
    inline_calls = (C + "UseCase.__init__",)
    PAR = OneOf(ConstS(False), ConstS(True))
    ghost = dict(steps=ConstS(()))
    days = (True, True)
    light_callees = True
    modifies_elems = {"Appliance": GEN_ATTRS + ("power",), "User": ("rand_daily_pref", "load", "usecase")}

    def requires(self, S, c):
        out = [("a spreadsheet", S.ends(c.fname, ".xlsx"))] if self.returns else []
        if c.date_start is not None and c.date_end is not None:
            out.append(("start not after the end", S.le(S.ordinal(c.date_start), S.ordinal(c.date_end))))
        elif c.date_end is not None and c.num_days is not None:
            out.append(("the first day is in the calendar", S.le(c.num_days, S.ordinal(c.date_end))))
        if S.eng.contract is self:
            out.append(("class invariant: constant powers are the same on every day", S.every("Appliance", lambda a: constant_ok(S, a))))
        return out

    def asked(self, S, c):
        """first day and number of days asked for (first day None: today)"""
        a, b, n = c.date_start, c.date_end, c.num_days
        if a is not None and b is not None:
            return S.ordinal(a), S.add(S.sub(S.ordinal(b), S.ordinal(a)), 1)
        if a is not None:
            return S.ordinal(a), n
        if b is not None:
            return S.add(S.sub(S.ordinal(b), n), 1), n
        return None, n

    def on_call(self, S, c, callee, ghost):
        if S.eng.contract is not self:
            return ()
        what = callee.split("[")[0]
        top = S.eng.ctx.old
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        done = ghost["steps"]
        if what == "UseCase.load":
            ob("the appliances of the file asked for are loaded, once", S.And(S.eq(c.old.filename, top.fname), "load" not in [x[0] for x in done]))
            return [("steps", done + (("load", c.self),))]
        if what == "UseCase.generate_daily_load_profiles":
            ob("they are simulated once, after they have been loaded", S.And([x[0] for x in done] == ["load"], done[-1][1] is c.self))
            first, n = self.asked(S, top)
            u = c.old.self
            days, nd = u.days, u._UseCase__num_days
            ob("for the number of days asked for", S.And(S.eq(nd, n), S.eq(S.len(days), n)))
            if first is not None:
                ob("from the first day asked for", S.ForAll(0, n, lambda i: S.eq(S.minutes(S.at(days, i)), S.mul(1440, S.add(first, i)))))
            ob("in parallel when asked for", S.Iff(u.parallel_processing, top.parallel))
            return [("steps", done + (("simulate", c.result),))]
        if what == "old_post_process":
            ob("what was simulated is written, once", S.And([x[0] for x in done] == ["load", "simulate"], done[-1][1] is c.Profiles_list))
            ob("for that file", S.eq(c.old.fname, top.fname))
            ob("to the output path asked for", same_opt(S, c.old.ofname, top.ofname))
            return [("steps", done + (("write", None),))]
        return ()

    def script(self, S, c):
        """the command run for a file that is not a spreadsheet, or None"""
        runs = [w for op, w in S.ios(c) if op == "system"]
        return runs

    def ensures(self, S, c):
        if c.draws is None:
            return self.at_calls(S, c)
        done = [x[0] for x in c.ghost.steps]
        runs = self.script(S, c)
        if done:
            return [
                ("a spreadsheet is simulated", S.And(S.ends(c.old.fname, ".xlsx"), not runs)),
                ("simulated and written" if c.old.plot else "simulated and returned", done == ["load", "simulate"] + ["write"] * c.old.plot),
            ] + ([("what was simulated is returned", c.result is c.ghost.steps[1][1])] + self.at_calls(S, c) if not c.old.plot and len(done) > 1 else [])
        return [("a script is run once", len(runs) == 1 and S.And(
            S.ends(c.old.fname, ".py"), S.eq(runs[0]["command"], S.text("python ", c.old.fname)), self.there(S, c)))]

    def there(self, S, c):
        """the answers of the file system to the question whether the file exists"""
        qs = [e[2] for e in c.events if e[0] == "ask" and e[1] in ("exists", "isfile")]
        return len(qs) >= 1 and S.And(*[S.And(S.eq(q["path"], c.old.fname), q["answer"]) for q in qs])

    def at_calls(self, S, c):
        if self.returns is None:
            return []
        return [("one row per day", S.eq(c.result.shape[0], self.asked(S, c.old)[1]))]

    def ensures_exc(self, S, c):
        if S.refusals(c):
            return [("only a simulation fails", S.ends(c.old.fname, ".xlsx"))]
        qs = [e[2] for e in c.events if e[0] == "ask" and e[1] in ("exists", "isfile")]
        x, py = S.ends(c.old.fname, ".xlsx"), S.ends(c.old.fname, ".py")
        return [
            ("a script that does not exist, or neither a spreadsheet nor a script", {
                "FileNotFoundError": S.And(py, S.Not(x), len(qs) >= 1 and S.And(*[S.And(S.eq(q["path"], c.old.fname), S.Not(q["answer"])) for q in qs])),
                "TypeError": S.And(S.Not(x), S.Not(py))}.get(c.exc, False)),
            ("nothing is simulated or run", S.And(not c.ghost.steps, not self.script(S, c))),
        ]


def run_case(nm, ds, de, n, plot=True, **k):
    contract(type("Run", (_Run,), dict(
        case=("results written, " if plot else "results returned, ") + nm,
        params=dict(fname=StrS(), ofname=OPT(StrS()) if plot else ConstS(None), num_days=n, date_start=ds, date_end=de, plot=ConstS(plot), parallel=_Run.PAR), **k)))


NO = ConstS(None)
run_case("both dates", DAY, DAY, OPT(IntS(1)))
run_case("start and a number of days", DAY, NO, IntS(1))
run_case("end and a number of days", NO, DAY, IntS(1))
run_case("a number of days", NO, NO, IntS(1))
run_case("no days", OPT(DAY), OPT(DAY), NO, assumed=True, __doc__="the number of days is asked on the terminal")
run_case("both dates", DAY, DAY, NO, False, returns=ArrS((None, 1440)), raises={"ValueError": ("only", None)})


@contract
class LoadKnown(Contract):
    """the users of a spreadsheet, their appliances declared within the documented ranges, are added to an initialised use case"""

    target = C + "UseCase.load"
    assumed = True
    props = ("C22", "C19")
    params = dict(self=ObjS("UseCase", **DATES), filename=StrS())
    modifies = ("self.users", "self.appliances", "self.peak_time_range")
    raises = {"ValueError": ("only", None)}

    def ensures(self, S, c):
        u = c.self
        return [("declared within the documented ranges, with a power for every day", S.ForAll(0, S.len(u.users), lambda i: user_ok(
            S, S.at(u.users, i), S.sub(u._UseCase__num_days, 1))))]


def same_opt(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S.eq(a, b)


def same_day(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S.eq(S.ordinal(a) if hasattr(a, "minutes") else a, S.ordinal(b) if hasattr(b, "minutes") else b)


class _Main(Contract):
    target = "ramp.cli:main"
    props = ("C22",)
    params = {}
    draws = False
    modifies_elems = _Run.modifies_elems
    raises = {"ValueError": ("only", None), "TypeError": ("only", None), "FileNotFoundError": ("only", None)}
    years = OPT(ListS(IntS(1678, 2261), 1))
    base = dict(
        opt_i=OPT(ListS(StrS(), 1)), opt_o=OPT(ListS(StrS(), 1)), opt_n=OPT(ListS(IntS(1), 1)),
        opt_start_date=OPT(DAY), opt_end_date=OPT(DAY), opt_ext=OPT(StrS()), opt_p=BoolS(), cnt=ConstS(0))

    def requires(self, S, c):
        g = c.ghost
        return [(f"documented range of {nm}", S.ForAll(0, S.len(o), lambda k: S.between(lo, S.at(o, k), hi)))
                for nm, o, lo, hi in (("-n", g.opt_n, 1, 10**9), ("-y", g.opt_y, 1678, 2261)) if o is not None] + self.order(S, g)

    def order(self, S, g):
        a, b, n = g.opt_start_date, g.opt_end_date, g.opt_n
        if a is not None and b is not None:
            return [("the start is not after the end", S.le(S.ordinal(a), S.ordinal(b)))]
        if b is not None and n is not None:
            return [("the first day is in the calendar", S.ForAll(0, S.len(n), lambda k: S.le(S.at(n, k), S.ordinal(b))))]
        return []

    def files(self, S, g):
        return S.len(g.opt_i) if g.opt_i is not None else 0

    def bad(self, S, g):
        """options that contradict each other or do not match in number"""
        out = []
        if g.opt_y is not None and (g.opt_start_date is not None or g.opt_end_date is not None):
            out.append(True)
        if g.opt_i is not None:
            n = self.files(S, g)
            for o in (g.opt_n, g.opt_o):
                if o is not None:
                    out.append(S.And(S.ne(S.len(o), 1), S.ne(S.len(o), n)))
        return S.Or(*out)

    def span(self, S, g):
        """first and last day implied by the options"""
        a, b = g.opt_start_date, g.opt_end_date
        if g.opt_y is not None:
            return S.ymd(S.at(g.opt_y, 0), 1, 1), S.ymd(S.at(g.opt_y, S.sub(S.len(g.opt_y), 1)), 12, 31)
        if g.opt_n is None:
            if a is not None and b is None:
                b = S.ymd(S.attr(a, "year"), 12, 31)
            elif b is not None and a is None:
                a = S.ymd(S.attr(b, "year"), 1, 1)
        return a, b

    def pick(self, S, o, k):
        if o is None:
            return None
        return S.If(S.eq(S.len(o), 1), S.at(o, 0), S.at(o, k))

    def on_call(self, S, c, callee, ghost):
        if not callee.startswith("run_usecase"):
            return ()
        g = S.ns(ghost)
        k, a = g.cnt, c.old
        ob = lambda nm, f: S.eng.oblige(f"{self.short}: {nm}", f, "post")
        ob("nothing is simulated when the options do not agree", S.Not(self.bad(S, g)))
        self.run(S, g, k, a, ob, c)
        return [("cnt", S.simp(S.add(k, 1)))]

    def run(self, S, g, k, a, ob, c):
        i, o, n = g.opt_i, g.opt_o, g.opt_n
        if i is None:
            return ob("nothing is simulated without an input file", False)
        ob("the files one after the other, each once", S.And(S.lt(k, S.len(i)), S.eq(a.fname, S.at(i, k))))
        ob("with its output path", a.ofname is None if o is None else a.ofname is not None and S.eq(a.ofname, self.pick(S, o, k)))
        ob("for its number of days", a.num_days is None if n is None else a.num_days is not None and S.eq(a.num_days, self.pick(S, n, k)))
        s, e = self.span(S, g)
        ob("from the first day implied by the options", same_day(S, a.date_start, s))
        ob("to the last day implied by the options", same_day(S, a.date_end, e))
        ob("with the results written", a.plot is True)
        ob("in parallel when asked for", S.Iff(a.parallel, g.opt_p))

    def ensures(self, S, c):
        g = c.ghost_old
        return [("options that do not agree are refused", S.Not(self.bad(S, g))),
                ("every input file is simulated", S.eq(c.ghost.cnt, self.files(S, g)))]

    def ensures_exc(self, S, c):
        if S.refusals(c):
            return []  # a simulation failed
        return [("only options that do not agree are refused", self.bad(S, c.ghost_old)), ("nothing has been simulated", S.eq(c.ghost.cnt, 0))]

    def invariants(self, S, L):
        if L.func != "main":
            return []
        return [("runs so far", S.eq(L.ghost.cnt, L.k))]


@contract
class MainDates(_Main):
    case = "dates"
    ghost = dict(_Main.base, opt_y=ConstS(None))


@contract
class MainYears(_Main):
    case = "years"
    ghost = dict(_Main.base, opt_y=ListS(IntS(1678, 2261), 1))

    def requires(self, S, c):
        g = c.ghost
        return super().requires(S, c) + [("the years are in order", S.le(S.at(g.opt_y, 0), S.at(g.opt_y, S.sub(S.len(g.opt_y), 1))))] + ([] if g.opt_i is None else [
            ("not one year with a folder", S.Not(S.And(S.eq(S.len(g.opt_y), 1), S.isdir(S.at(g.opt_i, 0)))))])


class _MainMonths(_Main):
    """one year and a folder"""

    def ext(self, g):
        return "xlsx" if g.opt_ext is None else g.opt_ext

    def listed(self, S, g, f):
        return S.endswith(f, self.ext(g))

    def requires(self, S, c):
        g = c.ghost
        d = S.at(g.opt_i, 0)
        ls = S.listing(d)
        return super().requires(S, c) + [("a folder", S.isdir(d)),
                ("of spreadsheets", S.ForAll(0, S.len(ls), lambda j: S.Implies(
                    S.endswith(S.join(d, S.at(ls, j)), self.ext(g)), S.ends(S.join(d, S.at(ls, j)), ".xlsx")))),
                ("the name decides, not the folder", S.ForAll(0, S.len(ls), lambda j: S.Iff(
                    S.endswith(S.join(d, S.at(ls, j)), self.ext(g)), self.listed(S, g, S.at(ls, j)))))]

    def files(self, S, g):
        return 12

    def bad(self, S, g):
        ls = S.listing(S.at(g.opt_i, 0))
        out = [S.ne(S.count(ls, lambda f: self.listed(S, g, f)), 12),
               S.Exists(0, S.len(ls), lambda j: S.And(self.listed(S, g, S.at(ls, j)), S.Not(S.has_number(S.at(ls, j)))))]
        if g.opt_n is not None:
            out.append(S.And(S.ne(S.len(g.opt_n), 1), S.ne(S.len(g.opt_n), 12)))
        if g.opt_o is not None:
            out.append(S.ne(S.len(g.opt_o), 1))
        return S.Or(*out)

    def run(self, S, g, k, a, ob, c):
        if not isinstance(k, int):
            return ob("one simulation per month", False)
        d = S.at(g.opt_i, 0)
        ls = S.listing(d)
        name = lambda x: S.fn("basename", x)
        j = S.place_in_listing(d, name(a.fname))
        ob("a file of the folder with the extension asked for", S.And(S.between(0, j, S.sub(S.len(ls), 1)),
            self.listed(S, g, S.at(ls, j)), S.eq(a.fname, S.join(d, S.at(ls, j)))))
        before = [r.args.fname for r in S.eng.calls if r.short.startswith("run_usecase")][:k]
        if before:
            ob("in the order of the numbers in their names", S.le(S.number_in(name(before[-1])), S.number_in(name(a.fname))))
            ob("each file once", S.And(*[S.ne(x, a.fname) for x in before]))
        y, m = S.at(g.opt_y, 0), k + 1
        ob("from the first day of its month", same_day(S, a.date_start, S.ymd(y, m, 1)))
        ob("to the last day of its month", same_day(S, a.date_end, S.sub(S.ymd(y, m + 1, 1) if m < 12 else S.ymd(S.add(y, 1), 1, 1), 1)))
        ob("for the days of the month", a.num_days is None)
        ob("in parallel when asked for", S.Iff(a.parallel, g.opt_p))

    def ensures(self, S, c):
        g = c.ghost_old
        out = super().ensures(S, c)
        name = "yearly_profile_min_resolution.csv"
        folder = S.fn("abspath", ".") if g.opt_o is None else S.at(g.opt_o, 0)
        ws = [w for op, w in S.ios(c) if op == "write csv" and S.certain(S.eq(w["path"], S.join(folder, name)))]
        if len(ws) != 1 or not S.is_table(ws[0]["data"]) or S.date_index(ws[0]["data"]) is None:
            return out + [("the yearly profile is written once, in the output folder", False)]
        f, o = ws[0]["data"], ws[0]["options"]
        ix = S.date_index(f)
        y = S.at(g.opt_y, 0)
        first, last = S.ymd(y, 1, 1), S.ymd(y, 12, 31)
        out.append(("the minutes of the year", S.And(S.eq(ix.start, S.mul(first, 1440)), S.eq(ix.step, 1), S.eq(ix.n, S.mul(1440, S.add(S.sub(last, first), 1))), S.eq(f.n, ix.n), S.eq(f.m, 1))))
        runs = [r.result for r in S.eng.calls if r.short.startswith("run_usecase")]
        for k, r in enumerate(runs[:12]):
            off = S.mul(1440, S.sub(S.ymd(y, k + 1, 1), first))
            out.append((f"month {k + 1} is what was simulated for it", S.ForAll(0, S.mul(1440, r.shape[0]), lambda t: S.eq(
                f.get(S.tz(S.add(off, t)), 0), S.at(r, S.div_int(t, 1440), S.mod(t, 1440))))))
        return out


for _o in (None, ListS(StrS(), 1)):
    for _n in (None, ListS(IntS(1), 1)):
        for _x in (None, StrS()):
            nm = ", ".join(["months"] + [t for t, v in (("-o", _o), ("-n", _n), ("--ext", _x)) if v])
            contract(type("MainMonths", (_MainMonths,), dict(case=nm, ghost=dict(
                _Main.base, opt_i=ListS(StrS(), 1), opt_y=FixedListS(IntS(1678, 2261)), opt_start_date=ConstS(None), opt_end_date=ConstS(None),
                opt_o=_o or ConstS(None), opt_n=_n or ConstS(None), opt_ext=_x or ConstS(None)))))
