"""C16, C17, C20, C21: declaration of appliances, power per day, structure of a model, seeds"""
from base import *
import datetime, json, multiprocessing
from cases_sim import gen_usecase, gen_date, Generated, FakePool, arg, simple_app
from ramp.errors_logs.errors import InvalidType, InvalidWindow

ORDER = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
         "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")
LEGACY = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
          "occasional_use", "flat", "thermal_P_var", "pref_index", "wd_we_type", "name")
DEFAULTS = dict(number=1, power=0, num_windows=1, func_time=0, time_fraction_random_variability=0, func_cycle=1, fixed="no", fixed_cycle=0,
                continuous_duty_cycle=1, occasional_use=1, flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, name="")
CYCLE = [tuple(x.format(i) for x in ("p_{0}1", "t_{0}1", "cw{0}1", "p_{0}2", "t_{0}2", "cw{0}2", "r_c{0}")) for i in (1, 2, 3)]
DECLARED = ORDER + ("window_1", "window_2", "window_3", "random_var_w") + CYCLE[0] + CYCLE[1] + CYCLE[2]


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def value_of(g, k, distinct=None):
    return {
        "number": g.randint(2, 9), "power": g.choice((11, 23.5, 401)), "num_windows": 1, "func_time": g.randint(1, 60),
        "time_fraction_random_variability": g.choice((0.11, 0.21)), "func_cycle": g.randint(2, 30), "fixed": g.choice(("yes", "no")),
        "fixed_cycle": g.choice((1, 2, 3)), "continuous_duty_cycle": g.choice((0, 1)), "occasional_use": g.choice((0.31, 0.71)),
        "flat": g.choice(("yes", "no")), "thermal_p_var": g.choice((0.12, 0.42)), "thermal_P_var": g.choice((0.12, 0.42)),
        "pref_index": g.randint(1, 3), "wd_we_type": g.choice((0, 1)), "name": "n" + str(g.randint(0, 99)),
    }[k]


@case("C16", 2)
def window_validation(g):
    u = User("u", 1)
    nw = g.randint(1, 3)
    give = [g.random() < 0.8 for _ in range(3)]
    ws = [None, None, None]
    for i in range(3):
        if give[i]:
            a = g.randint(0, 1440)
            ws[i] = [a, g.randint(a, 1440)]
    lens = [(w[1] - w[0]) if w else (1440 if i == 0 else 0) for i, w in enumerate(ws)]
    tot = sum(lens[:nw])
    ft = g.choice((0, tot, tot + 1, max(0, tot - 1), g.randint(0, 1440)))
    ft = min(ft, 1440) if g.random() < 0.8 else ft
    rv = g.choice((0, 0.1, 0.35, 0.5, 1, 0.07))
    app = quiet(Appliance, u, number=1, power=5, num_windows=nw, func_time=ft, name="x")
    given = {f"window_{i + 1}": wrap_win(g, w) for i, w in enumerate(ws) if w is not None}
    missing = any(ws[i] is None for i in range(1, nw))
    expect = missing or tot < ft
    info = dict(num_windows=nw, windows=ws, func_time=ft, random_var_w=rv)
    how = g.choice(("windows", "add"))
    try:
        if how == "windows":
            quiet(app.windows, random_var_w=rv, **given)
        else:
            app = quiet(u.add_appliance, number=1, power=5, num_windows=nw, func_time=ft, name="x", random_var_w=rv, **given)
    except InvalidWindow:
        require(expect, "windows refused although all required ones are given and long enough", **info)
        return
    require(not expect, "windows accepted although one is missing or they are shorter than the functioning time", **info)
    for i in range(3):
        w = getattr(app, f"window_{i + 1}")
        if ws[i] is not None:
            require(same(w, ws[i]), f"window {i + 1} was stored as {list(w)}", **info)
        elif i == 0:
            require(same(w, [0, 1440]), f"the default first window is {list(w)}", **info)
        n = ws[i][1] - ws[i][0] if ws[i] is not None else (1440 if i == 0 else 0)
        require(getattr(app, f"random_var_{i + 1}") == int(rv * n), f"random range of window {i + 1} is {getattr(app, f'random_var_{i + 1}')} instead of {int(rv * n)}", **info)
    require(app.random_var_w == rv, f"window variability stored as {app.random_var_w}", **info)
    require(any(x is app for x in u.App_list), "the appliance is not listed after its windows were declared", **info)


def check_stored(app, given, info):
    for k, v in DEFAULTS.items():
        want = given.get(k, v)
        got = getattr(app, k)
        if k == "power":
            require(len(got) >= 366 and bool((np.asarray(got) == want).all()), f"power {want} was stored as {got[:2]}...", **info)
        elif k == "name" and want == "":
            continue
        else:
            require(same(got, want), f"{k} = {want!r} was stored as {got!r}", **info)


@case("C16", 2)
def arguments(g):
    u = User("u", 1)
    legacy = g.random() < 0.35
    order = LEGACY if legacy else ORDER
    npos = g.randint(0, len(order)) if g.random() < 0.7 else 0
    given, args, kw = {}, [], {}
    for i, k in enumerate(order):
        if i < npos or g.random() < 0.5:
            v = value_of(g, k)
            given["thermal_p_var" if k == "thermal_P_var" else k] = v
            if i < npos:
                args.append(v)
            else:
                kw[k] = v
    items = list(kw.items())
    g.shuffle(items)
    kw = dict(items)
    info = dict(positional=args, named=kw, legacy=legacy)
    app = quiet(u.Appliance if legacy else u.add_appliance, *args, **kw)
    require(isinstance(app, Appliance), "no appliance is returned", **info)
    check_stored(app, given, info)
    require(len(u.App_list) == 1 and u.App_list[0] is app, "the appliance is not listed exactly once", **info)


@case("C16", 2)
def all_arguments(g):
    """windows and duty-cycle parameters given when adding, or through the legacy methods"""
    u = User("u", 1)
    fc = g.randint(0, 3)
    nw = g.randint(1, 3)
    kw = dict(number=g.randint(1, 4), power=g.choice((7, 90.5)), num_windows=nw, func_time=g.randint(1, 30), fixed_cycle=fc, name="x",
              continuous_duty_cycle=g.choice((0, 1)))
    wins = {}
    for i in range(1, nw + 1):
        a = g.randint(0, 1300)
        wins[f"window_{i}"] = wrap_win(g, [a, g.randint(a + 40, 1440)])
    if g.random() < 0.7:
        wins["random_var_w"] = g.choice((0, 0.2, 0.35))
    cyc = {}
    for i in range(1, max(1, fc) + 1):
        for k in CYCLE[i - 1]:
            if g.random() < 0.8:
                if k.startswith("p_"):
                    cyc[k] = g.choice((50, 20.5, 300)) + i
                elif k.startswith("t_"):
                    cyc[k] = g.choice((g.randint(1, 60), float(g.randint(1, 60))))
                elif k.startswith("r_c"):
                    cyc[k] = g.choice((0.1, 0.25))
                else:
                    a = g.randint(0, 1439)
                    cyc[k] = wrap_win(g, [a, g.randint(a + 1, 1440)])
    info = dict(arguments=show(kw), windows=show(wins), cycles=show(cyc))
    how = g.choice(("add", "add", "methods"))
    if how == "add":
        items = list({**kw, **wins, **cyc}.items())
        g.shuffle(items)
        app = quiet(u.add_appliance, **dict(items))
    else:
        app = quiet(u.add_appliance, **kw)
        quiet(app.windows, **wins)
        for i in (1, 2, 3):
            c = {k: v for k, v in cyc.items() if k in CYCLE[i - 1]}
            if c:
                if g.random() < 0.5:
                    quiet(app.specific_cycle, i, **c)
                else:
                    quiet(getattr(app, f"specific_cycle_{i}"), **c)
    for k, v in {**wins, **cyc}.items():
        want = int(v) if k.startswith("t_") else v
        require(same(getattr(app, k), want), f"{k} = {v!r} was stored as {getattr(app, k)!r}", how=how, **info)
    check_stored(app, kw, info)
    for i in (1, 2, 3):
        for k in CYCLE[i - 1]:
            if k in cyc:
                continue
            if k.startswith("cw"):
                if fc == 1 and k in ("cw11", "cw12"):
                    continue
                require(same(getattr(app, k), [0, 0]), f"{k} was not given but is {getattr(app, k)!r}", how=how, **info)
            else:
                require(getattr(app, k) == 0, f"{k} was not given but is {getattr(app, k)!r}", how=how, **info)
    # what the simulation uses
    if fc:
        for i in (1, 2, 3):
            setattr(app, f"r_c{i}", 0)
        SRC.start(g.random(), 0)
        try:
            quiet(app.assign_random_cycles)
        finally:
            SRC.stop()
        t, p = (lambda k: int(cyc.get(k, 0))), (lambda k: cyc.get(k, 0))
        want = [p("p_11")] * t("t_11") + [p("p_12")] * t("t_12")
        got = list(app.random_cycle1)
        swapped = [p("p_12")] * t("t_12") + [p("p_11")] * t("t_11")
        require(same(got, want) or (fc == 3 and same(got, swapped)), "the first duty cycle simulated is not the declared one", got=got[:80], **info)


@case("C16")
def cycle_windows(g):
    u = User("u", 1)
    app = quiet(u.add_appliance, number=1, power=5, num_windows=1, func_time=0, name="x", fixed_cycle=3, window_1=[0, 1440])
    kw = {}
    for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32"):
        if g.random() < 0.7:
            a = g.randint(0, 1439)
            kw[k] = wrap_win(g, [a, g.randint(a, 1440)])
    quiet(app.cycle_behaviour, **kw)
    for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32"):
        require(same(getattr(app, k), kw.get(k, [0, 0])), f"{k} = {kw.get(k)} was stored as {getattr(app, k)}")


# ------------------------------------------------------------------------------------------------ C17
def power_form(g, n=366):
    """a declared power together with its value on each day"""
    kind = g.choice(("constant", "table", "table2", "json", "json2"))
    vals = [float(g.choice((0, 1, 17, 250.5, 1000, i))) for i in range(n)]
    if g.random() < 0.3:
        vals[-1] = vals[0]
    if kind == "constant":
        p = g.choice((0, 5, 7.25, 1200))
        return p, (lambda d: p), kind, None
    if kind == "table":
        return pd.DataFrame(vals), vals.__getitem__, kind, n
    if kind == "table2":
        return pd.DataFrame({"power": vals, "other": [v + 1 for v in vals]}), vals.__getitem__, kind, n
    if kind == "json":
        return json.dumps(vals), vals.__getitem__, kind, n
    rows = [[g.randint(0, 5), v] for v in vals]
    return json.dumps(rows), vals.__getitem__, kind, n


@case("C17", 2)
def power_per_day(g):
    u = User("u", g.randint(1, 2))
    long = g.random() < 0.15
    n = g.choice((367, 400)) if long else g.choice((1, 2, 3, 10))
    decl = {}
    for j in range(g.randint(1, 3)):
        p, f, kind, ln = power_form(g, n=(n + g.choice((0, 1, 30))) if long or g.random() < 0.4 else 366)
        a = quiet(u.add_appliance, number=1, power=p, num_windows=1, func_time=5, name=f"x{j}", window_1=[0, 60])
        decl[id(a)] = (a, f, kind)
    parallel = g.random() < 0.3 and not long
    uc = quiet(UseCase, users=[u], parallel_processing=parallel)
    uc.date_start = "2020-01-01"
    quiet(uc.initialize, num_days=n)
    info = dict(kinds=[k for _, _, k in decl.values()], days=n, parallel=parallel)
    for a, f, kind in decl.values():
        for d in range(n):
            require(float(a.power[d]) == float(f(d)), f"power of day {d} is {a.power[d]} instead of {f(d)} ({kind})", **info)
    orig = Appliance.generate_load_profile
    sig = inspect.signature(orig)
    if "power" not in sig.parameters or "prof_i" not in sig.parameters:
        raise Skip()
    for i, (a, _, _) in enumerate(decl.values()):
        a._oracle_idx = i

    def stub(app, *a, **k):
        b = sig.bind(app, *a, **k)
        b.apply_defaults()
        app.daily_use = np.zeros(1440)
        app.daily_use[app._oracle_idx] = float(b.arguments["power"])

    FakePool.g = g
    with patched(Appliance, "generate_load_profile", stub), patched(multiprocessing, "Pool", FakePool):
        r = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    for a, f, kind in decl.values():
        for d in range(n):
            require(close(r[d][a._oracle_idx], float(f(d)) * u.num_users, 1e-9), f"day {d} was simulated with power {r[d][a._oracle_idx] / u.num_users} instead of {f(d)} ({kind})", **info)


@case("C17")
def flat_power(g):
    """the declared power of the day reaches the profile itself"""
    u = User("u", 1)
    p, f, kind, _ = power_form(g)
    a = quiet(u.add_appliance, number=1, power=p, num_windows=1, func_time=30, name="x", flat="yes", window_1=[100, 200])
    n = g.randint(1, 6)
    uc = quiet(UseCase, users=[u], date_start="2020-03-01", date_end=f"2020-03-{n:02d}")
    r = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    for d in range(n):
        require(r[d][150] == float(f(d)), f"day {d} demands {r[d][150]} instead of {f(d)} ({kind})", day=d, days=n)


@case("C17", 2)
def short_series(g):
    n = g.randint(1, 12)
    ln = g.choice((n, n - 1, n + 1, 1, 366))
    if ln < 1:
        raise Skip()
    vals = [float(i % 7) for i in range(ln)]
    p = g.choice((pd.DataFrame(vals), json.dumps(vals)))
    u = User("u", 1)
    base = quiet(u.add_appliance, number=1, power=5, num_windows=1, func_time=0, name="base", window_1=[0, 60])
    when = g.choice(("before", "after", "later user", "dates", "forced"))
    start = datetime.date(2021, 4, 1)
    end = start + datetime.timedelta(days=n - 1)
    add = lambda usr: quiet(usr.add_appliance, number=1, power=p, num_windows=1, func_time=0, name="series", window_1=[0, 60])
    info = dict(days=n, values=ln, when=when)
    try:
        if when == "before":
            add(u)
            uc = quiet(UseCase, users=[u])
            quiet(uc.initialize, num_days=n)
        elif when == "after":
            uc = quiet(UseCase, users=[u])
            add(u)
            quiet(uc.initialize, num_days=n)
        elif when == "later user":
            uc = quiet(UseCase, users=[u])
            v = User("v", 1)
            add(v)
            uc.add_user(v)
            quiet(uc.initialize, num_days=n)
        elif when == "dates":
            add(u)
            uc = quiet(UseCase, users=[u], date_start=start.isoformat(), date_end=end.isoformat())
        else:
            uc = quiet(UseCase, users=[u])
            quiet(uc.initialize, num_days=1)
            add(u)
            quiet(uc.initialize, num_days=n, force=True)
    except ValueError:
        require(ln < n, "refused although the power series is long enough", **info)
        return
    require(ln >= n, f"a use case of {n} days accepted a power series of {ln} values", **info)
    s = [a for usr in uc.users for a in usr.App_list if a.name == "series"][0]
    require([float(x) for x in s.power[:n]] == vals[:n], "the power series changed", **info)


@case("C17")
def unsupported_power(g):
    u = User("u", 1)
    p = g.choice(([1, 2, 3], None, (1, 2), {"a": 1}, np.ones(366), pd.Series([1.0] * 366), 3 + 2j))
    try:
        quiet(u.add_appliance, number=1, power=p, num_windows=1, func_time=0, name="x", window_1=[0, 60])
    except ValueError:
        return
    except TypeError:
        raise
    # arrays and series of 366 values may become supported; the others cannot supply a power per day
    if isinstance(p, (np.ndarray, pd.Series)):
        raise Skip()
    require(False, f"a power of type {type(p).__name__} was accepted")


# ------------------------------------------------------------------------------------------------ C20
@case("C20", 2)
def adding_appliances(g):
    u, other = User("u", 1), User("o", 1)
    expect = []
    pool = []
    for step in range(g.randint(2, 7)):
        k = g.random()
        if u.App_list and g.random() < 0.2:
            # a listed appliance that is given another name, or none
            g.choice(u.App_list).name = g.choice(("", "", "same", f"appliance_{len(u.App_list) + 1}"))
        before = list(u.App_list)
        if k < 0.45 or not pool:
            nm = g.choice(("", "", f"n{step}", "same"))
            p = gen_params(g)
            if nm:
                p["name"] = nm
            try:
                a = quiet(u.add_appliance, **p)
            except InvalidWindow:
                require(len(u.App_list) == len(before), "a refused appliance is listed")
                continue
            if any(x is a for x in u.App_list):
                require(len(u.App_list) == len(before) + 1 and u.App_list[-1] is a, "the new appliance is not last, or listed more than once")
                require(a.name == (nm or f"appliance_{len(u.App_list)}"), f"the appliance is named {a.name!r}")
            else:
                require(any(fields_equal(a, x) for x in before), "an appliance that equals no listed one is not listed", params=show(p))
                require(len(u.App_list) == len(before), "skipped appliance changed the list")
            pool.append((a, p))
        elif k < 0.7:
            # the same declaration once more
            listed = [x for x in pool if any(x[0] is y for y in u.App_list)]
            if not listed:
                continue
            a0, p = g.choice(listed)
            p = dict(p, name=a0.name)
            a = quiet(u.add_appliance, **p)
            require(len(u.App_list) == len(before) and all(x is y for x, y in zip(u.App_list, before)),
                    "an appliance equal to a listed one was added", params=show(p))
        elif k < 0.9:
            # instances
            n = g.randint(1, 3)
            xs = []
            for i in range(n):
                if g.random() < 0.4 and u.App_list:
                    xs.append(g.choice(u.App_list))
                else:
                    try:
                        b = quiet(other.add_appliance, **dict(gen_params(g), **({"name": f"i{step}{i}"} if g.random() < 0.5 else {})))
                    except InvalidWindow:
                        continue
                    xs.append(b)
            if not xs:
                continue
            lst = list(before)
            for x in xs:
                if not any(x is y or fields_equal(x, y) for y in lst):
                    lst.append(x)
            quiet(u.add_appliance, *xs)
            require(len(u.App_list) == len(lst) and all(a is b for a, b in zip(u.App_list, lst)), "adding instances did not append the new ones in order")
        else:
            bad = g.choice((3, "x", None, [1], object(), User("z", 1)))
            try:
                quiet(u._add_appliance_instance, [bad])
            except TypeError:
                pass
            else:
                require(False, f"{type(bad).__name__} was accepted as an appliance")
            if u.App_list:
                try:
                    quiet(u.add_appliance, u.App_list[0], bad)
                except TypeError:
                    pass
                else:
                    require(False, f"{type(bad).__name__} was accepted as an appliance")
            require(all(a is b for a, b in zip(u.App_list, before)) and len(before) == len(u.App_list), "a refused object changed the list")
        require(len({id(x) for x in u.App_list}) == len(u.App_list), "an appliance is listed twice")
    require(all(isinstance(x, Appliance) for x in u.App_list), "something else than appliances is listed")


def fields_equal(a, b):
    return all(same(getattr(a, k), getattr(b, k)) for k in DECLARED)


@case("C20", 2)
def equality(g):
    p = gen_params(g, name="x", fixed_cycle=g.choice((0, 1, 2, 3)))
    series = g.random() < 0.4
    ln = g.choice((366, 400))
    vals = [float((i * 7) % 11) for i in range(ln)]
    if series:
        p["power"] = pd.DataFrame(vals)
    try:
        a = quiet(User("u", 1).add_appliance, **p)
        b = quiet(User("v", 2).add_appliance, **p)
    except InvalidWindow:
        raise Skip()
    require(bool(a == b) and bool(b == a), "two appliances with the same declarations are not equal", params=show({k: v for k, v in p.items() if k != "power"}))
    k = g.choice(DECLARED)
    old = getattr(b, k)
    if k == "power":
        new = g.choice((np.array(vals[:-1]), np.array(vals + [1.0]), np.asarray(old) + 1, np.append(np.asarray(old)[:-1], [-1.0])))
    elif isinstance(old, (list, tuple, np.ndarray)):
        o = [int(x) for x in old]
        new = g.choice(([o[0], o[1] + 1], [o[0] + 1, o[1]], np.array([o[0] + 1, o[1] + 1])))
    elif isinstance(old, str):
        new = old + "z"
    else:
        new = old + g.choice((1, -1, 0.125))
    setattr(b, k, new)
    require(not bool(a == b) and not bool(b == a), f"two appliances that differ in {k} ({str(old)[:40]} and {str(new)[:40]}) are equal")


@case("C20")
def adding_users(g):
    uc = quiet(UseCase, name="c")
    expect = []
    for step in range(g.randint(1, 5)):
        k = g.random()
        if k < 0.4:
            u = User(g.choice(("a", "b")), 1)
            uc.add_user(u)
            expect.append(u)
        elif k < 0.75:
            us = [User("a", i + 1) for i in range(g.randint(0, 3))]
            uc.add_user(us)
            expect += us
        else:
            bad = g.choice((3, "x", None, object(), {"u": 1}))
            try:
                uc.add_user(bad)
            except InvalidType:
                pass
            else:
                require(False, f"{type(bad).__name__} was accepted as a user")
        require(len(uc.users) == len(expect) and all(x is y for x, y in zip(uc.users, expect)), "users are not listed in the order they were added")
        require(all(x.usecase is uc for x in expect), "a user is not linked to its use case")
    uc2 = quiet(UseCase, users=list(expect))
    require(len(uc2.users) == len(expect) and all(x is y for x, y in zip(uc2.users, expect)), "users given at creation are not listed in order")
    require(all(x.usecase is uc2 for x in expect), "a user given at creation is not linked to the use case")
    n = 0
    for u in expect:
        for j in range(g.randint(0, 2)):
            quiet(u.add_appliance, number=1, power=1, num_windows=1, func_time=0, name=f"x{j}", window_1=[0, 60])
    uc2.collect_appliances_from_users()
    want = [a for u in expect for a in u.App_list]
    require(len(uc2.appliances) == len(want) and all(x is y for x, y in zip(uc2.appliances, want)), "the appliances collected are not those of the users in order")


# ------------------------------------------------------------------------------------------------ C21
@case("C21")
def reproducible(g):
    seed = g.choice((0, 0, 1, 42, g.randint(0, 10**9)))
    dates = g.random() < 0.5
    params = []
    for i in range(g.randint(1, 2)):
        apps = [gen_params(g, name=f"a{i}{j}", func_time=g.choice((30, 60)), func_cycle=g.choice((1, 5, 10)), occasional_use=g.choice((1, 0.5))) for j in range(g.randint(1, 2))]
        params.append((g.randint(1, 2), g.choice((0, 3)), apps))

    def build(s):
        REAL["seed"](REAL["random"]())
        REAL["random"]()
        np.random.seed(int(REAL["random"]() * 10**6))
        users = []
        for i, (n, pref, apps) in enumerate(params):
            u = User(f"u{i}", n, pref)
            for a in apps:
                quiet(u.add_appliance, **a)
            users.append(u)
        k = dict(date_start="2021-05-01", date_end="2021-05-02") if dates else {}
        uc = quiet(UseCase, users=users, random_seed=s, **k)
        if not dates:
            quiet(uc.initialize, num_days=2)
        pk = [int(x) for x in uc.peak_time_range]
        return pk, np.array(quiet(uc.generate_daily_load_profiles))

    try:
        p1, r1 = build(seed)
        p2, r2 = build(seed)
    except InvalidWindow:
        raise Skip()
    except (ValueError,) + TOO_DEEP:
        raise Skip()
    info = dict(seed=seed, dates=dates)
    require(p1 == p2, f"seed {seed}: peak time ranges {p1[0]}..{p1[-1]} and {p2[0]}..{p2[-1]} differ", **info)
    require(bool((r1 == r2).all()), f"seed {seed}: the profiles of two equal models differ", **info)


@case("C21")
def seed_is_used(g):
    """the generator is seeded with the number given, and different numbers give different results"""

    def build(s, outside=False):
        REAL["seed"](REAL["random"]())
        u = User("u", 2, 3)
        quiet(u.add_appliance, number=3, power=10, num_windows=1, func_time=100, func_cycle=5, name="x", window_1=[0, 1440], random_var_w=0.3, thermal_p_var=0.3)
        if outside:
            REAL["seed"](s)
        uc = quiet(UseCase, users=[u], **({} if outside else {"random_seed": s}), date_start="2021-05-01", date_end="2021-05-01")
        return [int(x) for x in uc.peak_time_range], np.array(quiet(uc.generate_daily_load_profiles))

    s = g.choice((0, 1, g.randint(2, 10**6)))
    p1, r1 = build(s)
    p2, r2 = build(s, True)
    require(p1 == p2 and bool((r1 == r2).all()), f"creating a use case with seed {s} does not seed the random generator with {s}")
    p3, r3 = build(s + 1 + g.randint(0, 5))
    require(not bool((r1 == r3).all()), "different seeds give identical profiles")


@case("C21")
def no_other_source(g):
    """all variation comes from the random generator: with every draw fixed the results repeat"""
    uc, users, start, n = gen_usecase(g, nusers=g.randint(1, 2), napps=2)
    s = g.random()
    out = []
    for k in range(2):
        np.random.seed(int(REAL["random"]() * 10**6))
        REAL["seed"](REAL["random"]())
        SRC.start(s, 0)
        try:
            try:
                quiet(uc.initialize, force=True)
                out.append(([int(x) for x in uc.peak_time_range], np.array(quiet(uc.generate_daily_load_profiles))))
            except (ValueError,) + TOO_DEEP:
                raise Skip()
        finally:
            SRC.stop()
    require(out[0][0] == out[1][0] and bool((out[0][1] == out[1][1]).all()), "with the same random draws a repeated simulation gives other results")
