"""C18, C19, C22-C24: files, command line, post-processing"""
from base import *
import datetime, json, os, shutil, tempfile
from openpyxl import Workbook
from cases_model import DECLARED, DEFAULTS, ORDER, CYCLE, same
from ramp.errors_logs.errors import InvalidType, InvalidWindow
from ramp.post_process import post_process as PP
from ramp.post_process.post_process import Plot

with contextlib.redirect_stdout(io.StringIO()):
    from ramp import cli as CLI, ramp_run as RUN


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="case_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def series_values(g):
    k = g.random()
    if k < 0.25:
        return [float(g.choice((0, 5, 100))) for _ in range(366)]
    if k < 0.45:
        return [round(g.random() * 1000, g.choice((0, 1, 3))) for _ in range(366)]
    if k < 0.6:
        v = [float(i) for i in range(366)]
        v[-1] = v[0]
        return v
    if k < 0.7:
        v = [7.0] * 366
        v[g.randint(0, 365)] += 1
        return v
    return [g.random() * 10 ** g.randint(-3, 4) for _ in range(366)]


def declared(a):
    return {k: getattr(a, k) for k in DECLARED}


def gen_model(g, series=0.3):
    users = []
    names = g.sample(["household", "school", "a", "b", "low income", "x1", "10", "User_3", "été"], 3)
    for i in range(g.randint(1, 3)):
        u = User(names[i], g.choice((0, 1, g.randint(1, 30))), user_preference=g.randint(0, 3))
        for j in range(g.randint(1, 3)):
            kw = gen_params(g)
            if g.random() < 0.5:
                kw["name"] = f"app {g.randint(0, 99)}"
            if g.random() < series:
                kw["power"] = g.choice((pd.DataFrame(v), json.dumps(v))[:] if (v := series_values(g)) else ())
            if kw["fixed_cycle"] == 0 and g.random() < 0.2:
                kw["p_11"], kw["t_11"], kw["r_c1"] = 12, 3, 0.5
            try:
                quiet(u.add_appliance, **kw)
            except InvalidWindow:
                pass
        if u.App_list:
            users.append(u)
    if not users:
        raise Skip()
    return users


def check_reloaded(users, got, info):
    require([u.user_name for u in got] == [u.user_name for u in users], f"users {[u.user_name for u in got]} instead of {[u.user_name for u in users]}", **info)
    for u, v in zip(users, got):
        require(v.num_users == u.num_users, f"{u.user_name}: number of users {v.num_users} instead of {u.num_users}", **info)
        require(v.user_preference == u.user_preference, f"{u.user_name}: preference {v.user_preference} instead of {u.user_preference}", **info)
        require(len(u.App_list) == len(v.App_list), f"{u.user_name}: {len(v.App_list)} appliances instead of {len(u.App_list)}", **info)
        for a, b in zip(u.App_list, v.App_list):
            for k in DECLARED:
                x, y = getattr(a, k), getattr(b, k)
                if k == "power":
                    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
                    if bool((x == x[0]).all()):
                        ok = bool((y == x[0]).all()) and len(y) >= 366
                    else:
                        ok = len(x) == len(y) and bool((x == y).all())
                    require(ok, f"{a.name}: the power was reloaded with other values", values=[x[:4].tolist(), y[:4].tolist(), x[-2:].tolist(), y[-2:].tolist(), len(x), len(y)], **info)
                else:
                    require(same(x, y), f"{a.name}: {k} = {x!r} was reloaded as {y!r}", **info)


@case("C18")
def save_and_load(g):
    users = gen_model(g)
    info = dict(users=[(u.user_name, len(u.App_list)) for u in users])
    with scratch() as d:
        f = os.path.join(d, g.choice(("model", "my.model", "m 1")))
        which = g.random()
        if which < 0.75:
            uc = quiet(UseCase, users=users)
            if g.random() < 0.2:
                uc.date_start, n = "2020-01-01", g.choice((1, 5))
                quiet(uc.initialize, num_days=n)
            quiet(uc.save, f)
        else:
            users = users[:1]
            quiet(users[0].save, f)
        uc2 = quiet(UseCase)
        quiet(uc2.load, f + ".xlsx")
    check_reloaded(users, uc2.users, info)
    require(all(u.usecase is uc2 for u in uc2.users), "a loaded user is not linked to the use case", **info)
    want = [a for u in uc2.users for a in u.App_list]
    require(len(uc2.appliances) == len(want) and all(x is y for x, y in zip(uc2.appliances, want)), "the appliances of the use case are not those loaded", **info)


@case("C18")
def saved_table(g):
    """the table itself: one row per appliance with every parameter"""
    users = gen_model(g)
    uc = quiet(UseCase, users=users)
    df = quiet(uc.save) if g.random() < 0.5 else quiet(uc.export_to_dataframe)
    apps = [a for u in users for a in u.App_list]
    require(len(df) == len(apps), f"{len(df)} rows for {len(apps)} appliances")
    for i, a in enumerate(apps):
        row = df.iloc[i]
        require(row["user_name"] == a.user.user_name and row["num_users"] == a.user.num_users and row["user_preference"] == a.user.user_preference,
                f"row {i} names another user category")
        for k in DECLARED:
            v = getattr(a, k)
            if k == "power":
                p = row["power"]
                p = np.asarray(p, dtype=float) if isinstance(p, (list, np.ndarray)) else np.full(len(v), float(p))
                require(len(p) == len(v) and bool((p == np.asarray(v, dtype=float)).all()), f"row {i}: the saved power differs from the declared one")
            elif k.startswith("window_") or k.startswith("cw"):
                require(row[k + "_start"] == v[0] and row[k + "_end"] == v[1], f"row {i}: {k} saved as {row[k + '_start']}..{row[k + '_end']} instead of {list(v)}")
            else:
                require(row[k] == v, f"row {i}: {k} saved as {row[k]} instead of {v}")


# ------------------------------------------------------------------------------------------------ C19
COLUMNS = ["user_name", "num_users", "user_preference", "name", "number", "power", "num_windows", "func_time", "time_fraction_random_variability",
           "func_cycle", "fixed", "fixed_cycle", "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type"]
for _i in (1, 2, 3):
    COLUMNS += [f"p_{_i}1", f"t_{_i}1", f"cw{_i}1_start", f"cw{_i}1_end", f"p_{_i}2", f"t_{_i}2", f"cw{_i}2_start", f"cw{_i}2_end", f"r_c{_i}"]
COLUMNS += ["window_1_start", "window_1_end", "window_2_start", "window_2_end", "window_3_start", "window_3_end", "random_var_w"]


def write_rows(path, rows, columns=COLUMNS, sheets=(), active=0):
    wb = Workbook()
    ws = wb.active
    ws.title = "appliances"
    ws.append(columns)
    for r in rows:
        ws.append([r.get(c) for c in columns])
    for title, cells in sheets:
        s = wb.create_sheet(title)
        for (i, j), v in cells.items():
            s.cell(row=i, column=j).value = v
    wb.active = active  # the sheet on display when the file was saved
    wb.save(path)


def gen_row(g, user, n, pref, i):
    p = gen_params(g)
    r = {"user_name": user}
    if n is not None:
        r["num_users"] = n
    if pref is not None:
        r["user_preference"] = pref
    want = {}
    if g.random() < 0.6:
        want["name"] = f"app{i}"
    wins = {}
    for k, v in p.items():
        if k.startswith("window_") or k.startswith("cw"):
            wins[k] = [int(x) for x in v]
        elif k in ("num_windows", "func_time", "fixed_cycle") or g.random() < 0.65:
            want[k] = v
    # duty cycle parameters of a cycle go together with its windows
    r.update(want)
    for k, w in wins.items():
        r[k + "_start"], r[k + "_end"] = w
        want[k] = w
    return r, want


def check_row(a, want, info):
    for k, v in DEFAULTS.items():
        if k == "power":
            p = np.asarray(a.power, dtype=float)
            w = want.get(k, 0)
            if isinstance(w, list):
                require(len(p) == len(w) and bool((p == np.asarray(w, dtype=float)).all()), f"power series read as {p[:3].tolist()}.. instead of {w[:3]}..", **info)
            else:
                require(bool((p == float(w)).all()), f"power {w} read as {p[:2].tolist()}", **info)
        elif k == "name" and k not in want:
            continue
        else:
            require(same(getattr(a, k), want.get(k, v)), f"{k}: {want.get(k, 'blank')!r} read as {getattr(a, k)!r}", **info)
    for k in DECLARED:
        if k in DEFAULTS:
            continue
        if k in want:
            v = int(want[k]) if k.startswith("t_") else want[k]
            require(same(getattr(a, k), v), f"{k}: {want[k]!r} read as {getattr(a, k)!r}", **info)
        elif k in ("cw11", "cw12") and want.get("fixed_cycle") == 1:
            continue
        else:
            require(same(getattr(a, k), [0, 0] if k.startswith("w") or k.startswith("cw") else 0), f"{k}: blank read as {getattr(a, k)!r}", **info)


@case("C19", 2)
def rows(g):
    users, all_rows = [], []
    for u in range(g.randint(1, 3)):
        n = g.choice((None, 0, 1, 5, 17))
        pref = g.choice((None, 0, 1, 2, 3))
        rs = [gen_row(g, f"user{u}", n, pref, f"{u}_{j}") for j in range(g.randint(1, 3))]
        users.append((f"user{u}", 1 if n is None else n, 0 if pref is None else pref, rs))
        all_rows += [r for r, _ in rs]
    if len(users) > 1 and g.random() < 0.3:
        # the rows of a user need not follow each other
        queues = [[r for r, _ in u[3]] for u in users]
        all_rows = [q.pop(0) for q in queues]
        while any(queues):
            all_rows.append(g.choice([q for q in queues if q]).pop(0))
    cols = list(COLUMNS)
    if g.random() < 0.3:
        used = {k for r in all_rows for k in r}
        cols = [c for c in cols if c in used or c in ("user_name", "num_users", "user_preference", "power", "name")]
        g.shuffle(cols)
    with scratch() as d:
        f = os.path.join(d, "in.xlsx")
        write_rows(f, all_rows, cols)
        uc = quiet(UseCase)
        try:
            quiet(uc.load, f)
        except InvalidWindow:
            raise Skip()
    info = dict(rows=[{k: v for k, v in r.items()} for r in all_rows])
    require([u.user_name for u in uc.users] == [u[0] for u in users], f"users {[u.user_name for u in uc.users]}", **info)
    for u, (nm, n, pref, rs) in zip(uc.users, users):
        require(u.num_users == n, f"number of users read as {u.num_users} instead of {n}", **info)
        require(u.user_preference == pref, f"preference read as {u.user_preference} instead of {pref}", **info)
        wants = [w for _, w in rs]
        if len(u.App_list) != len(wants):
            require(len(u.App_list) < len(wants) and len({json.dumps(w, sort_keys=True, default=str) for w in wants}) < len(wants),
                    f"{len(u.App_list)} appliances for {len(wants)} rows", **info)
            raise Skip()
        for a, w in zip(u.App_list, wants):
            check_row(a, w, info)


def power_cell(g):
    """a power cell together with the values it stands for (None: must be refused) and the cells of a second sheet"""
    n = g.choice((366, 366, 366, 365, 367, 1, 0, 12))
    vals = [float('%.15g' % g.choice((0, 3, 12.5, i, i / 7, 1e-12 * i))) for i in range(n)]  # what a cell of a spreadsheet holds
    kind = g.choice(("json", "json2", "range", "range2", "range3", "text", "scalar", "hole", "words", "dict", "mixed", "odd", "odd"))
    ok = vals if n == 366 else None
    if kind == "json":
        return json.dumps(vals), ok, (), kind
    if kind == "json2":
        return json.dumps([[i, v] for i, v in enumerate(vals)]), ok, (), kind
    if kind == "mixed":
        k = g.choice((1, max(n // 2, 1), max(n - 1, 1)))
        one, two, flat = [[v] for v in vals], [[i, v] for i, v in enumerate(vals)], list(vals)
        a, b = g.sample((one, two, flat), 2)
        return json.dumps(a[:k] + b[k:]), None, (), kind
    if kind == "odd":
        if n == 0:
            raise Skip()
        cells = [[i, v] for i, v in enumerate(vals)] if g.random() < 0.5 else list(vals)
        k, x = g.randint(0, n - 1), g.choice((True, False, None, "5", [1.0], {}, float("inf"), float("nan")))
        if isinstance(cells[k], list):
            cells[k][1] = x
        else:
            cells[k] = x
        return json.dumps(cells), None, (), kind
    if kind in ("range", "range2", "range3", "hole", "words"):
        if n == 0:
            raise Skip()
        r0, c0 = g.randint(1, 5), g.randint(1, 3)
        ncol = {"range": 1, "range2": 2, "range3": 3, "hole": g.randint(1, 2), "words": g.randint(1, 2)}[kind]
        cells = {}
        t0 = datetime.datetime(2020, 1, 1)
        stamps = g.choice(("date", "number", "text"))
        for i, v in enumerate(vals):
            for j in range(ncol - 1):
                cells[(r0 + i, c0 + j)] = {"date": t0 + datetime.timedelta(days=i), "number": i, "text": f"day {i}"}[stamps]
            cells[(r0 + i, c0 + ncol - 1)] = v
        if kind in ("hole", "words"):
            ok = None
            k = (r0 + g.randint(0, n - 1), c0 + ncol - 1)
            if kind == "hole":
                del cells[k]
            else:
                cells[k] = "n/a"
        if ncol == 3:
            ok = None
        title = g.choice(("powers", "sheet2", "my powers"))
        col = lambda c: "ABCDEFG"[c - 1]
        dollar = g.choice(("", "$"))
        ref = f"{dollar}{col(c0)}{dollar}{r0}:{dollar}{col(c0 + ncol - 1)}{dollar}{r0 + n - 1}"
        t = f"'{title}'" if " " in title else title
        return f"={t}!{ref}", ok, ((title, cells),), kind + (" quoted" if " " in title else "")
    if kind == "text":
        return g.choice(("abc", "1 2 3", "[1, 2", "12 W", "{}")), None, (), kind
    if kind == "scalar":
        return g.choice(('"' + "x" * 364 + '"', '"' + "x" * 366 + '"', "12 ", "null", "true")), None, (), kind
    return json.dumps({str(i): v for i, v in enumerate(vals)}), None, (), kind


@case("C19", 2)
def power_cells(g):
    text, ok, sheets, kind = power_cell(g)
    row = {"user_name": "u", "num_users": 1, "user_preference": 0, "name": "x", "number": 1, "power": text, "num_windows": 1, "func_time": 0,
           "window_1_start": 0, "window_1_end": 1440}
    other = dict(row, name="y", power=5)
    twin = dict(row, user_name="v", power=g.choice((7, json.dumps([7.0] * 183 + [9.0] * 183))))  # same appliance name, another user
    table = [other, row, twin]
    g.shuffle(table)
    with scratch() as d:
        f = os.path.join(d, "in.xlsx")
        write_rows(f, table, sheets=sheets, active=g.randint(0, len(sheets)))
        uc = quiet(UseCase)
        info = dict(kind=kind, cell=text[:60])
        try:
            quiet(uc.load, f)
        except ValueError:
            require(ok is None, f"a power series of 366 values ({kind}) was refused", **info)
            return
        except Exception as e:
            require(False, f"a power cell ({kind}) stopped the load with {type(e).__name__}: {e}", **info)
    require(ok is not None, f"a power cell that is not a series of exactly 366 values ({kind}) was accepted", **info)
    by = {u.user_name: u for u in uc.users}
    a = [x for x in by["u"].App_list if x.name == "x"][0]
    p = np.asarray([x for x in by["v"].App_list if x.name == "x"][0].power, dtype=float)
    require(bool((p[:366] == np.asarray([7.0] * 366 if twin["power"] == 7 else json.loads(twin["power"]))).all()),
            f"the power of an appliance of the same name of another user was read as {p[:2].tolist()}..{p[-2:].tolist()}", **info)
    p = np.asarray(a.power, dtype=float)
    require(len(p) == 366 and bool((p == np.asarray(ok)).all()), f"the power series was read as {p[:4].tolist()}.. instead of {ok[:4]}..", **info)


@case("C19")
def disagreeing_rows(g):
    base = {"user_name": "u", "num_users": 3, "user_preference": 2, "number": 1, "power": 5, "num_windows": 1, "func_time": 0,
            "window_1_start": 0, "window_1_end": 1440}
    n = g.randint(2, 5)
    rs = [dict(base, name=f"a{i}") for i in range(n)]
    col = g.choice(("num_users", "user_preference", None))
    if col:
        # another value in one row, or a blank cell (which means the default) in all but one or in one row only
        i, how = g.randint(0, n - 1), g.choice(("other", "blank", "only"))
        if how == "other":
            rs[i][col] += g.choice((1, -1))
        for j, r in enumerate(rs):
            if how == "blank" and j == i or how == "only" and j != i:
                del r[col]
    rs += [dict(base, name="z", user_name="v", num_users=9, user_preference=1)]
    with scratch() as d:
        f = os.path.join(d, "in.xlsx")
        write_rows(f, rs)
        uc = quiet(UseCase)
        try:
            quiet(uc.load, f)
        except ValueError:
            require(col is not None, "rows of one user that agree were refused")
            return
    require(col is None, f"rows of one user that disagree on {col} were accepted")
    require([(u.num_users, u.user_preference) for u in uc.users] == [(3, 2), (9, 1)], "numbers of users and preferences are not those of the rows")


# ------------------------------------------------------------------------------------------------ C22
class Runs:
    """records the simulations started by the command line"""

    def __init__(self, result=None):
        self.calls, self.result = [], result

    def __enter__(self):
        f = RUN.run_usecase
        sig = inspect.signature(f)
        self.olds = [(m, m.run_usecase) for m in (RUN, CLI) if hasattr(m, "run_usecase")]

        def w(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append(dict(b.arguments))
            return self.result(b.arguments) if self.result else None

        for m, _ in self.olds:
            m.run_usecase = w
        return self

    def __exit__(self, *a):
        for m, o in self.olds:
            m.run_usecase = o


def run_cli(argv):
    with patched(sys, "argv", ["ramp"] + argv):
        quiet(CLI.main)


def gen_dates(g):
    y = g.randint(2000, 2040)
    a = datetime.date(y, g.randint(1, 12), g.randint(1, 28))
    b = a + datetime.timedelta(days=g.randint(0, 400))
    return a, b


@case("C22", 3)
def options(g):
    n = g.randint(1, 4)
    files = [f"some/file{g.randint(0, 9)}_{i}.{g.choice(('xlsx', 'py'))}" for i in range(n)]
    argv = ["-i"] + files
    bad = False
    nd = [None] * n
    a = b = None
    k = g.random()
    if g.random() < 0.6:
        m = g.choice((1, n, n, n + 1, 2))
        v = [g.randint(1, 99) for _ in range(m)]
        argv += ["-n"] + [str(x) for x in v]
        if m == 1:
            nd = v * n
        elif m == n:
            nd = v
        else:
            bad = True
    has_n = "-n" in argv
    of = [None] * n
    if g.random() < 0.6:
        m = g.choice((1, n, n, n + 1, 2))
        v = [f"out{i}_{g.randint(0, 9)}.csv" for i in range(m)]
        argv += ["-o"] + v
        if m == 1:
            of = v * n
        elif m == n:
            of = v
        else:
            bad = True
    d0, d1 = gen_dates(g)
    dates = False
    if g.random() < 0.45:
        argv += ["--start-date", d0.isoformat()]
        a = d0
        dates = True
    if g.random() < 0.45:
        argv += ["--end-date", d1.isoformat()]
        b = d1
        dates = True
    if not has_n:
        if a is not None and b is None:
            b = datetime.date(a.year, 12, 31)
        elif b is not None and a is None:
            a = datetime.date(b.year, 1, 1)
    if g.random() < 0.35:
        ys = [g.randint(1990, 2050)]
        for _ in range(g.randint(0, 2)):
            ys.append(ys[-1] + g.randint(1, 3))
        argv += ["-y"] + [str(y) for y in ys]
        if dates:
            bad = True
        a, b = datetime.date(ys[0], 1, 1), datetime.date(ys[-1], 12, 31)
    par = g.random() < 0.3
    if par:
        argv += ["-p"]
    info = dict(argv=argv)
    with Runs() as r:
        try:
            run_cli(argv)
        except ValueError:
            require(bad, "options that agree were refused", **info)
            require(not r.calls, "options were refused after something had been simulated", **info)
            return
    require(not bad, "options that contradict each other or do not match in number were accepted", **info)
    got = [c["fname"] for c in r.calls]
    require(got == files, f"simulated {got}", **info)
    for i, c in enumerate(r.calls):
        require(c["num_days"] == nd[i], f"{c['fname']} simulated for {c['num_days']} days", **info)
        require(c["ofname"] == of[i], f"{c['fname']} written to {c['ofname']}", **info)
        require((c["date_start"], c["date_end"]) == (a, b), f"{c['fname']} simulated from {c['date_start']} to {c['date_end']} instead of {a} to {b}", **info)
        require(bool(c["parallel"]) == par, f"parallel {c['parallel']}", **info)


@case("C22")
def months(g):
    year = g.choice((2019, 2020, 2021, 2024, 1900, 2000))
    with scratch() as d:
        sub = os.path.join(d, g.choice(("inputs", "in7", "m12", "2020")))
        os.mkdir(sub)
        style = g.choice(("{}.xlsx", "month_{}.xlsx", "{:02d}.xlsx", "input_file_{}.xlsx", "m{:02d}_x.xlsx"))
        k = g.choice((12, 12, 12, 11, 13))
        names = [style.format(i) for i in range(1, k + 1)]
        if g.random() < 0.3:
            names = [(style if g.random() < 0.5 else style.replace("{}", "{:02d}")).format(i) for i in range(1, k + 1)]
        order = list(names)
        g.shuffle(order)
        for f in order:
            open(os.path.join(sub, f), "w").close()
        for f in ("readme.txt", "3.csv"):
            open(os.path.join(sub, f), "w").close()
        out = os.path.join(d, g.choice(("out", "out2")))
        argv = ["-i", sub, "-y", str(year)]
        if g.random() < 0.8:
            argv += ["-o", out]
        else:
            out = None
        several = False
        if out and g.random() < 0.15:
            argv.append(os.path.join(d, "other"))
            several = True
        if g.random() < 0.3:
            argv += ["-n", str(g.choice((1, 1, 30, 365)))]
        # each month has its own recognisable profile
        seen = []

        def fake(args):
            a, b = args["date_start"], args["date_end"]
            n = (b - a).days + 1
            seen.append(n)
            v = np.zeros((n, 1440))
            for i in range(n):
                v[i, :] = len(seen) * 1000 + i + np.arange(1440) / 10000.0
            return v

        frames = []

        def to_csv(df, path=None, *a, **kw):
            frames.append((str(path), df.copy()))

        info = dict(argv=argv, files=k)
        with Runs(fake) as r, patched(pd.DataFrame, "to_csv", to_csv):
            cwd = os.getcwd()
            os.chdir(d)
            try:
                run_cli(argv)
            except ValueError:
                require(k != 12 or several, "a folder of twelve monthly files was refused", **info)
                require(not r.calls, "refused after something had been simulated", **info)
                return
            finally:
                os.chdir(cwd)
    require(k == 12, f"a folder of {k} files was accepted for twelve months", **info)
    require(not several, "two output paths were accepted for one yearly profile", **info)
    require([os.path.basename(c["fname"]) for c in r.calls] == names, f"months simulated with {[os.path.basename(c['fname']) for c in r.calls]}", **info)
    for i, c in enumerate(r.calls):
        first = datetime.date(year, i + 1, 1)
        last = (datetime.date(year + (i == 11), (i + 1) % 12 + 1, 1)) - datetime.timedelta(days=1)
        require((c["date_start"], c["date_end"]) == (first, last), f"month {i + 1} simulated from {c['date_start']} to {c['date_end']}", **info)
        require(c["num_days"] is None, f"month {i + 1} simulated for {c['num_days']} days", **info)
    mins = [f for p, f in frames if "min_resolution" in p]
    hours = [(p, f) for p, f in frames if "hourly" in p]
    require(len(mins) == 1 and len(frames) == 2, f"files written: {[p for p, _ in frames]}", **info)
    df = mins[0]
    days = 366 if (year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)) else 365
    require(len(df) == days * 1440, f"the yearly profile has {len(df)} minutes", **info)
    require(df.index[0] == pd.Timestamp(year, 1, 1) and df.index[-1] == pd.Timestamp(year, 12, 31, 23, 59), f"the yearly profile runs from {df.index[0]} to {df.index[-1]}", **info)
    got = df.iloc[:, 0].to_numpy()
    pos = 0
    for i, n in enumerate(seen):
        blk = got[pos : pos + n * 1440]
        pos += n * 1440
        require(bool((np.abs(blk[::1440] - ((i + 1) * 1000 + np.arange(n))) < 1e-9).all()) and bool((np.abs(blk[1439::1440] - ((i + 1) * 1000 + np.arange(n) + 0.1439)) < 1e-9).all()),
                f"month {i + 1} of the yearly profile is not what was simulated for it", **info)
    if len(hours) == 1 and {"mean", "max", "min"} <= set(hours[0][1].columns):
        h = hours[0][1]
        require(len(h) == days * 24 and close(h["max"].iloc[0], 1000 + 0.0059) and close(h["min"].iloc[25], 1001 + 0.006) and close(h["mean"].iloc[0], 1000 + 0.00295), "the hourly profile does not summarise the minutes", **info)
    for p, _ in frames:
        require(os.path.dirname(os.path.abspath(os.path.join(d, p))) in (os.path.abspath(out) if out else os.path.abspath(d), os.path.realpath(d)), f"written to {p}", **info)


@case("C22")
def one_file(g):
    """one input file from the command line to its output, with its own appliances and days"""
    with scratch() as d:
        files, outs, powers, days = [], [], [], []
        k = g.randint(1, 2)
        for i in range(k):
            p = g.choice((10, 25, 70)) + i
            f = os.path.join(d, f"in{i}.xlsx")
            write_rows(f, [{"user_name": "u", "num_users": 2, "user_preference": 0, "name": "x", "number": 1, "power": p, "num_windows": 1, "func_time": 60,
                            "flat": "yes", "window_1_start": 100, "window_1_end": 200}])
            files.append(f)
            outs.append(os.path.join(d, f"out{i}.csv"))
            powers.append(p)
            days.append(g.randint(1, 3))
        argv = ["-i"] + files + ["-o"] + outs
        a = datetime.date(2021, g.randint(1, 12), g.randint(1, 20))
        if g.random() < 0.5:
            argv += ["-n"] + [str(x) for x in days]
            if g.random() < 0.5:
                argv += ["--start-date", a.isoformat()]
        else:
            n = g.randint(1, 4)
            days = [n] * k
            argv += ["--start-date", a.isoformat(), "--end-date", (a + datetime.timedelta(days=n - 1)).isoformat()]
        import matplotlib.pyplot as plt
        run_cli(argv)
        plt.close("all")
        info = dict(argv=argv[2 * k :])
        for i in range(k):
            require(os.path.exists(outs[i]), f"no output for input file {i}", **info)
            v = pd.read_csv(outs[i], index_col=0).iloc[:, 0].to_numpy()
            require(len(v) == days[i] * 1440, f"input file {i}: {len(v)} minutes for {days[i]} days", **info)
            require(all(v[1440 * j + 150] == 2 * powers[i] and v[1440 * j + 50] == 0 for j in range(days[i])), f"input file {i}: demand {v[150]} instead of {2 * powers[i]}", **info)


# ------------------------------------------------------------------------------------------------ C23
@case("C23", 2)
def formatting(g):
    n = g.randint(1, 6)
    s0 = g.randint(0, 10**6)
    r = np.random.RandomState(s0)
    mat = r.randint(0, 10**6, size=(n, 1440)).astype(float)
    if g.random() < 0.5:
        mat = mat / 7
    form = g.choice(("list", "matrix"))
    data = [mat[i].copy() for i in range(n)] if form == "list" else mat.copy()
    avg, kw, ser = quiet(PP.Profile_formatting, data)
    info = dict(days=n, form=form)
    require(np.asarray(avg).shape == (1440,), f"average of shape {np.asarray(avg).shape}", **info)
    require(bool((np.abs(np.asarray(avg) - mat.sum(axis=0) / n) <= 1e-9 * (1 + mat.max())).all()), "the average is not minute by minute over the days", **info)
    require(len(kw) == n and all(np.asarray(k).shape == (1440,) for k in kw), f"{len(kw)} profiles in kW", **info)
    for i in range(n):
        require(bool((np.abs(np.asarray(kw[i]) - mat[i] / 1000) <= 1e-12 * (1 + mat[i])).all()), f"profile {i} in kW is not the profile divided by 1000", **info)
    require(np.asarray(ser).shape == (n * 1440,) and bool((np.asarray(ser) == mat.reshape(-1)).all()), "the series is not all daily profiles one after the other", **info)
    require(all(bool((np.asarray(data[i]) == mat[i]).all()) for i in range(n)), "the input profiles were changed", **info)


@case("C23", 2)
def export(g):
    n = g.choice((1, 3, 1440))
    v = np.array([g.random() * 1000 for _ in range(min(n, 20))] * (n // min(n, 20)))
    where = g.choice(("ofname", "ofname", "number", "file"))
    with scratch() as d:
        kw = {}
        out = os.path.join(d, g.choice(("o.csv", "a b.csv", "results.txt")))
        num, fn = 900000 + g.randint(0, 9999), f"zz_{g.randint(0, 99999)}_{g.choice(('in', 'file.v1'))}.{g.choice(('xlsx', 'py'))}"
        full = g.choice((fn, os.path.join("some", "dir", fn), os.path.join(d, fn)))
        if where == "ofname":
            kw["ofname"] = out
            if g.random() < 0.5:
                kw["fname"] = full
            if g.random() < 0.5:
                kw["j"] = num
            quiet(PP.export_series, v, **kw)
            require(os.listdir(d) == [os.path.basename(out)], f"files written: {os.listdir(d)}", given=kw)
            got = pd.read_csv(out, index_col=0).iloc[:, 0].to_numpy()
            require(len(got) == len(v) and bool((np.abs(got - v) <= 1e-9).all()), "the file does not hold the series", given=kw)
            return
        if where == "number":
            kw["j"] = num
        else:
            kw["fname"] = full
        frames = []

        def to_csv(df, path=None, *a, **k):
            frames.append((str(path), df.copy()))

        with patched(pd.DataFrame, "to_csv", to_csv), patched(pd.Series, "to_csv", to_csv):
            quiet(PP.export_series, v, **kw)
        require(len(frames) == 1, f"{len(frames)} files written", given=kw)
        path, df = frames[0]
        got = np.asarray(df).reshape(-1)
        require(len(got) == len(v) and bool((got == v).all()), "the file does not hold the series", given=kw)
        folder = os.path.join(os.path.dirname(os.path.abspath(ramp.__file__)), "results")
        require(os.path.dirname(os.path.abspath(path)) == folder, f"written to {path}", given=kw)
        base = os.path.basename(path)
        require(base.endswith(".csv") and (str(num) in base if where == "number" else fn.rsplit(".", 1)[0].replace(".", "_") in base),
                f"written to {base}", given=kw)


@case("C23")
def post_processing(g):
    """the whole step: the series exported is the one of the daily profiles"""
    import matplotlib.pyplot as plt
    n = g.randint(1, 3)
    mat = np.array([[float(g.randint(0, 500)) for _ in range(48)] * 30 for _ in range(n)])
    with scratch() as d:
        out = os.path.join(d, "o.csv")
        data = mat.copy()
        quiet(PP.old_post_process, data, "x/in.xlsx", out)
        plt.close("all")
        got = pd.read_csv(out, index_col=0).iloc[:, 0].to_numpy()
    require(len(got) == n * 1440 and bool((got == mat.reshape(-1)).all()), "the exported series is not the daily profiles one after the other", days=n)
    require(bool((data == mat).all()), "post-processing changed the profiles", days=n)


# ------------------------------------------------------------------------------------------------ C24
def gen_frame(g, cols=None, n=None):
    n = n or g.choice((1, 5, 60, 130))
    cols = cols or [f"case {i}" for i in range(g.randint(1, 4))]
    idx = pd.date_range("2021-02-27 22:00", periods=n, freq=g.choice(("min", "min", "15min", "h")))
    near = g.random() < 0.3  # values that differ in the last digits only
    data = {c: [float(g.choice((0, 0, 1, 2.5, g.randint(0, 9), 7))) * (g.choice((1, 1 - 1e-15, 1 - 1e-13, 1 - 1e-9)) if near else 1) for _ in range(n)] for c in cols}
    return pd.DataFrame(data, index=idx)


def equal_frames(a, b):
    return a.shape == b.shape and list(a.columns) == list(b.columns) and a.index.equals(b.index) and bool((a.to_numpy() == b.to_numpy()).all())


@case("C24", 2)
def plot_data(g):
    df = gen_frame(g)
    keep = df.copy()
    p = Plot(df)
    cols = list(df.columns)
    a = keep.to_numpy()
    m = quiet(p.mean).DataFrame
    require(m.shape == (len(df), 1) and m.index.equals(keep.index) and bool((np.abs(m.iloc[:, 0].to_numpy() - a.sum(axis=1) / len(cols)) <= 1e-9).all()), "mean is not the mean across the cases at each time step")
    s = quiet(p.sum).DataFrame
    require(s.shape == (len(df), 1) and s.index.equals(keep.index) and bool((np.abs(s.iloc[:, 0].to_numpy() - a.sum(axis=1)) <= 1e-9).all()), "sum is not the sum across the cases at each time step")
    b, v = g.choice(cols), g.choice(cols)
    er = quiet(p.error, b, v)
    x, y = keep[b].to_numpy(), keep[v].to_numpy()
    er_ = np.asarray(er)
    require(len(er_) == len(df) and er.index.equals(keep.index), "the error has other time steps")
    for i in range(len(df)):
        if y[i] != 0:
            require(close(er_[i], (x[i] - y[i]) / y[i] * 100), f"error of {x[i]} against {y[i]} is {er_[i]} %")
        elif x[i] == 0:
            require(er_[i] == 0, f"error of 0 against 0 is {er_[i]}")
    pk = p.peak
    require(list(pk) == cols, f"peaks of {list(pk)}")
    for c in cols:
        want = keep[c][keep[c].to_numpy() == keep[c].max()]
        require(pk[c].index.equals(want.index) and bool((pk[c].to_numpy() == want.to_numpy()).all()), f"peak of {c}: {len(pk[c])} time steps instead of {len(want)}")
    k = g.choice(cols)
    require(equal_frames(p[k].DataFrame, keep[[k]]), "selecting a case")
    i0 = g.randint(0, len(df) - 1)
    require(equal_frames(p.head(i0).DataFrame, keep.iloc[:i0]), "head")
    require(equal_frames(p.iloc(slice(i0, None)).DataFrame, keep.iloc[i0:]), "iloc")
    require(equal_frames(p.loc(slice(keep.index[i0], None), [k]).DataFrame, keep.loc[keep.index[i0]:, [k]]), "loc")
    require(p.columns == cols and p.index.equals(keep.index), "columns or index")
    c2 = p.copy()
    require(equal_frames(c2.DataFrame, keep), "copy")
    c2.DataFrame.iloc[0, 0] = 99.5
    require(equal_frames(p.DataFrame, keep) and equal_frames(df, keep), "the original data changed")


@case("C24", 2)
def resampling(g):
    df = gen_frame(g, n=g.choice((60, 130, 241)))
    keep = df.copy()
    p = Plot(df)
    rule = g.choice(("sum", "mean", "max", "min"))
    freq = g.choice(("h", "30min", "2h", "D"))
    conv = g.choice((1, 1, 1000, 60, 0.5))
    inplace = g.random() < 0.4
    r = quiet(p.resample, freq, rule, **({} if conv == 1 and g.random() < 0.5 else {"conversion": conv}), inplace=inplace)
    got = p.DataFrame if inplace else r.DataFrame
    info = dict(rule=rule, freq=freq, conversion=conv, inplace=inplace)
    want = {}
    step = pd.Timedelta(1, freq) if freq in ("h", "D") else pd.Timedelta(freq)
    for c in keep.columns:
        groups = {}
        for t, x in zip(keep.index, keep[c].tolist()):
            groups.setdefault(t.floor(freq), []).append(x / conv)
        f = {"sum": sum, "mean": lambda z: sum(z) / len(z), "max": max, "min": min}[rule]
        want[c] = {t: f(z) for t, z in groups.items()}
    for c in keep.columns:
        g_ = dict(zip(got.index, got[c].tolist()))
        for t, x in want[c].items():
            require(t in g_ and close(g_[t], x), f"{c} at {t}: {g_.get(t)} instead of {x}", **info)
    if inplace:
        require(equal_frames(df, keep), "in-place resampling changed the data the object was made from", **info)
    else:
        require(equal_frames(p.DataFrame, keep) and equal_frames(df, keep), "resampling changed the original data", **info)


@case("C24")
def adding_cases(g):
    df = gen_frame(g)
    keep = df.copy()
    p = Plot(df.copy())
    new = gen_frame(g, cols=["new"], n=len(df))
    kind = g.choice(("same", "same", "shifted", "longer", "reversed", "shorter"))
    if kind == "same":
        new.index = df.index
    elif kind == "shifted":
        new.index = df.index + pd.Timedelta(1, "min")
    elif kind == "longer":
        new = gen_frame(g, cols=["new"], n=len(df) + 1)
    elif kind == "shorter":
        if len(df) < 2:
            raise Skip()
        new = new.iloc[1:]
        new.index = df.index[1:]
    else:
        if len(df) < 2:
            raise Skip()
        new.index = df.index[::-1]
    nk = new.copy()
    obj = Plot(new) if g.random() < 0.5 else new
    try:
        quiet(p.add_column, obj)
    except ValueError:
        require(kind != "same", "a case with the same time index was refused")
        require(equal_frames(p.DataFrame, keep), "a refused case changed the data")
        return
    require(kind == "same", f"a case with another time index ({kind}) was added")
    require(equal_frames(p.DataFrame[list(keep.columns)], keep) and list(p.DataFrame["new"]) == list(nk["new"]) and p.index.equals(keep.index), "adding a case changed other data")
    require(equal_frames(new, nk), "adding a case changed the data added")


@case("C24")
def files(g):
    df = gen_frame(g)
    keep = df.copy()
    p = Plot(df)
    ext = g.choice(("csv", "csv", "xlsx"))
    with scratch() as d:
        f = os.path.join(d, "r." + ext)
        kw = {}
        if ext == "csv":
            if g.random() < 0.3:
                kw["sep"] = ";"
            quiet(p.to_csv, f, **kw)
        else:
            quiet(p.to_excel, f)
        q = quiet(Plot.from_file, f, **kw)
        idx = pd.date_range("2030-01-01", periods=len(df), freq="min")
        q2 = quiet(Plot.from_file, f, index=idx, **kw)
        try:
            quiet(Plot.from_file, os.path.join(d, "r.txt"))
        except ValueError:
            pass
        else:
            require(False, "a file of another format was loaded")
    r = q.DataFrame
    require(list(r.columns) == list(keep.columns) and r.shape == keep.shape and bool((np.abs(r.to_numpy() - keep.to_numpy()) < 1e-9).all()), f"{ext}: loaded data differ")
    require(list(r.index) == list(keep.index) and isinstance(r.index, pd.DatetimeIndex), f"{ext}: loaded time index starts at {r.index[0]!r} instead of {keep.index[0]!r}")
    require(list(q2.DataFrame.index) == list(idx) and bool((np.abs(q2.DataFrame.to_numpy() - keep.to_numpy()) < 1e-9).all()), "loading with another time index")
    require(equal_frames(p.DataFrame, keep) and equal_frames(df, keep), "saving changed the data")
    d2 = keep.copy()
    quiet(Plot, d2, idx)
    require(equal_frames(d2, keep), "giving a new time index changed the original data")
