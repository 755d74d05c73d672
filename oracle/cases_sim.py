"""C10-C15: use cases, user categories, calendar, peak time range"""
from base import *
import datetime, pickle, multiprocessing

BASE = np.array([REAL["randint"](0, 9) for _ in range(4000)], dtype=float)


def gen_usecase(g, nusers=None, napps=None, days=None, num_users=None, dates=True, **kw):
    """users with appliances; the use case is initialised when dates are given"""
    users = []
    for i in range(nusers or g.randint(1, 3)):
        u = User(f"user {i}", num_users if num_users is not None else g.choice((1, 1, 2, 3, 4)), user_preference=g.choice((0, 0, 1, 2, 3)))
        for j in range(napps or g.randint(1, 3)):
            make_appliance(g, user=u, name=f"app {i}{j}", **kw)
        users.append(u)
    k = dict(users=users, name="case")
    n = days or g.randint(1, 4)
    start = gen_date(g)
    if dates:
        k.update(date_start=start.isoformat(), date_end=(start + datetime.timedelta(days=n - 1)).isoformat())
    SRC.start(g.random(), 0)
    try:
        uc = quiet(UseCase, **k)
    finally:
        SRC.stop()
    return uc, users, start, n


def gen_date(g):
    k = g.random()
    y = g.randint(1990, 2060)
    if k < 0.15:
        return datetime.date(y, 12, g.randint(27, 31))
    if k < 0.3:
        return datetime.date(y, 2, g.randint(24, 28))
    if k < 0.4:
        return datetime.date(y, 1, g.randint(1, 7))
    return datetime.date(y, 1, 1) + datetime.timedelta(days=g.randint(0, 364))


def weekend(d):
    return 1 if d.weekday() in (5, 6) else 0


class Generated:
    """the profiles generated one by one: the real ones, or stand-ins that are cheap to tell apart"""

    def __init__(self, g, real):
        self.g, self.real, self.calls = g, real, []

    def __enter__(self):
        self.orig = Appliance.generate_load_profile
        sig = inspect.signature(self.orig)
        me = self

        def stub(app, *a, **k):
            b = sig.bind(app, *a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            pref = app.user.rand_daily_pref
            if me.real:
                r = me.orig(app, *a, **k)
            else:
                r = None
                s = me.g.randint(0, 2500)
                app.daily_use = BASE[s : s + 1440] * me.g.randint(1, 5)
            me.calls.append((app, args, pref, np.array(app.daily_use, dtype=float)))
            return r

        Appliance.generate_load_profile = stub
        return self

    def __exit__(self, *a):
        Appliance.generate_load_profile = self.orig


def arg(args, name):
    if name not in args:
        raise Skip()
    return args[name]


def same_run(a, b):
    return len(a) == len(b) and all(int(x) == int(y) for x, y in zip(a, b))


def check_calls(calls, users, days, peak, info):
    """each appliance once per single user, for that day, with one preference per single user"""
    for u in users:
        for day in range(len(days)):
            prefs = None
            for app in u.App_list:
                mine = [c for c in calls if c[0] is app and int(arg(c[1], "prof_i")) == day]
                require(len(mine) == u.num_users, f"day {day}: {len(mine)} profiles of an appliance of a category of {u.num_users} users", **info)
                for c in mine:
                    require(arg(c[1], "day_type") == weekend(days[day]), f"day {day} ({days[day]}) simulated as day type {c[1]['day_type']}", **info)
                    require(same_run(arg(c[1], "peak_time_range"), peak), f"day {day} simulated with another peak time range", **info)
                    if "power" in c[1]:
                        require(float(c[1]["power"]) == float(app.power[day]), f"day {day} simulated with power {c[1]['power']}", **info)
                mp = [c[2] for c in mine]
                for p in mp:
                    ok = p == 0 if u.user_preference == 0 else 1 <= p <= u.user_preference
                    require(ok, f"preference {p} for {u.user_preference} declared ones", **info)
                if prefs is None:
                    prefs = mp
                require(prefs == mp, f"day {day}: appliances of one single user saw different preferences ({prefs} and {mp})", **info)


@case("C10", 2)
def composition(g):
    real = g.random() < 0.25
    uc, users, start, n = gen_usecase(g, occasional_use=1)
    flat = g.random() < 0.5
    days = [start + datetime.timedelta(days=i) for i in range(n)]
    info = dict(users=[(u.num_users, u.user_preference, len(u.App_list)) for u in users], days=n, start=str(start), flat=flat)
    require([d.date() for d in uc.days] == days, "simulated days are not in calendar order", **info)
    with Generated(g, real) as gen:
        SRC.start(g.random(), 0)
        try:
            r = quiet(uc.generate_daily_load_profiles, flat=flat)
        except (ValueError,) + TOO_DEEP:
            if real:
                raise Skip()
            raise
        finally:
            SRC.stop()
    r = np.asarray(r)
    if flat:
        require(r.shape == (n * 1440,), f"the flat result has shape {r.shape}", **info)
        r = np.array([r[1440 * i : 1440 * (i + 1)] for i in range(n)])
    else:
        require(r.shape == (n, 1440), f"the result has shape {r.shape}", **info)
    for d in range(n):
        want = np.zeros(1440)
        for c in gen.calls:
            if int(arg(c[1], "prof_i")) == d:
                want = want + c[3]
        diff = np.abs(want - r[d])
        require(float(diff.max()) <= 1e-6 * max(1.0, float(np.abs(want).max())),
                f"day {d} is not the sum of the profiles generated for it (minute {int(diff.argmax())}: {r[d][int(diff.argmax())]} for {want[int(diff.argmax())]})", **info)
    check_calls(gen.calls, users, days, uc.peak_time_range, info)


@case("C10")
def long_horizon(g):
    """more than a year: the calendar, the day types and the powers of the days after the first year"""
    u = User("u", 1)
    n = g.randint(366, 760)
    vals = [float(10 + i) for i in range(n + 1)]
    app = quiet(u.add_appliance, number=1, power=pd.DataFrame(vals), func_time=60, window_1=[0, 1440], name="a")
    start = gen_date(g)
    uc = quiet(UseCase, users=[u], date_start=start.isoformat(), date_end=(start + datetime.timedelta(days=n - 1)).isoformat())
    with Generated(g, False) as gen:
        r = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    info = dict(start=str(start), days=n)
    require(r.shape == (n, 1440), f"the result has shape {r.shape}", **info)
    require(len(gen.calls) == n, f"{len(gen.calls)} profiles for one appliance on {n} days", **info)
    for d, c in enumerate(sorted(gen.calls, key=lambda c: int(arg(c[1], "prof_i")))):
        day = start + datetime.timedelta(days=d)
        require(int(arg(c[1], "prof_i")) == d, f"no profile for day {d}", **info)
        require(arg(c[1], "day_type") == weekend(day), f"day {d} ({day}) simulated as day type {c[1]['day_type']}", **info)
        require("power" not in c[1] or float(c[1]["power"]) == vals[d], f"day {d} simulated with power {c[1].get('power')}", **info)
        require(bool((r[d] == c[3]).all()), f"day {d} is not the profile generated for it", **info)


@case("C10")
def categories(g):
    """a category's load and a single user's load, generated directly"""
    uc, users, start, n = gen_usecase(g, nusers=1)
    u = users[0]
    day, dt = g.randint(0, n - 1), g.randint(0, 1)
    lo = g.randint(0, 1300)
    peak = np.arange(lo, lo + g.randint(1, 100))
    single = g.random() < 0.4
    default = single and g.random() < 0.5
    with Generated(g, False) as gen:
        SRC.start(g.random(), 0)
        try:
            f = u.generate_single_load_profile if single else u.generate_aggregated_load_profile
            r = quiet(f, prof_i=day, day_type=dt, **({} if default else {"peak_time_range": peak}))
        finally:
            SRC.stop()
    info = dict(num_users=u.num_users, preference=u.user_preference, appliances=len(u.App_list), single=single)
    want = np.zeros(1440)
    for c in gen.calls:
        want = want + c[3]
    require(np.asarray(r).shape == (1440,) and bool((np.asarray(r) == want).all()), "the load is not the sum of the profiles generated", **info)
    if not single:
        require(bool((np.asarray(u.load) == want).all()), "the category's load is not the sum of its single users", **info)
    if default:
        peak = uc.peak_time_range
    for app in u.App_list:
        mine = [c for c in gen.calls if c[0] is app]
        require(len(mine) == (1 if single else u.num_users), f"{len(mine)} profiles of one appliance", **info)
        for c in mine:
            require(int(arg(c[1], "prof_i")) == day and arg(c[1], "day_type") == dt and same_run(arg(c[1], "peak_time_range"), peak),
                    "generated for another day, day type or peak time range", **info)


@case("C10")
def preferences(g):
    """one preference per single user: not one for all, and every declared one occurs"""
    P = g.choice((2, 3))
    u = User("u", 60, user_preference=P)
    for j in range(2):
        make_appliance(g, user=u, name=f"a{j}")
    uc = quiet(UseCase, users=[u], date_start="2021-03-01", date_end="2021-03-01")
    with Generated(g, False) as gen:
        SRC.start(g.random(), 0)
        try:
            quiet(uc.generate_daily_load_profiles)
        finally:
            SRC.stop()
    for app in u.App_list:
        seen = [c[2] for c in gen.calls if c[0] is app]
        require(set(seen) == set(range(1, P + 1)), f"60 single users drew only the preferences {sorted(set(seen))} of 1..{P}")


@case("C10")
def comparison_cases(g):
    uc, users, start, n = gen_usecase(g, nusers=g.randint(1, 2), napps=1)
    k = g.randint(1, 3)
    with Generated(g, False) as gen:
        SRC.start(g.random(), 0)
        try:
            r = quiet(uc.generate_daily_load_profiles, cases=[f"c{i}" for i in range(k)])
        finally:
            SRC.stop()
    df = r.DataFrame
    per = len(gen.calls) // k
    require(df.shape == (n * 1440, k), f"{k} cases of {n} days give a table of shape {df.shape}")
    require(df.index.equals(uc.datetimeindex), "the table is not indexed by the simulated minutes")
    for i in range(k):
        want = np.zeros(n * 1440)
        for c in gen.calls[i * per : (i + 1) * per]:
            d = int(arg(c[1], "prof_i"))
            want[d * 1440 : (d + 1) * 1440] += c[3]
        require(bool((df.iloc[:, i].to_numpy() == want).all()), f"case {i} is not the sum of the profiles generated for it")


# ------------------------------------------------------------------------------------------------ C11
class FakePool:
    """runs the tasks of a multiprocessing pool in this process, chunk by chunk on copies, results in any order"""

    g = None

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    terminate = join = close

    def _chunks(self, f, it, n, star=False):
        it = list(it)
        n = n or 1
        out = []
        for i in range(0, len(it), n):
            c = pickle.loads(pickle.dumps((f, it[i : i + n])))
            out.append((c[0], c[1]))
        return out

    def _run(self, f, it, n, star, shuffled):
        chunks = list(enumerate(self._chunks(f, it, n)))
        if shuffled:
            self.g.shuffle(chunks)
        res = {}
        order = []
        for k, (f2, c) in chunks:
            rs = [f2(*x) if star else f2(x) for x in c]
            rs = pickle.loads(pickle.dumps(rs))
            res[k] = rs
            order.append(k)
        flat = []
        for k in (order if shuffled else sorted(res)):
            flat += res[k]
        if shuffled and g_chance(self.g, 0.5):
            self.g.shuffle(flat)
        return flat

    def imap_unordered(self, f, it, chunksize=1):
        return iter(self._run(f, it, chunksize, False, True))

    def imap(self, f, it, chunksize=1):
        return iter(self._run(f, it, chunksize, False, False))

    def map(self, f, it, chunksize=None):
        return self._run(f, it, chunksize, False, False)

    def starmap(self, f, it, chunksize=None):
        return self._run(f, it, chunksize, True, False)

    def apply_async(self, f, args=(), kwds={}):
        f, args, kwds = pickle.loads(pickle.dumps((f, args, kwds)))
        v = f(*args, **kwds)

        class R:
            def get(self, timeout=None):
                return v

            def wait(self, timeout=None):
                pass

            def ready(self):
                return True

        return R()

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()


def g_chance(g, p):
    return g.random() < p


PEAK = [None]


def encoded(app, args):
    """a profile that tells, once summed up, which calls it came from"""
    v = np.zeros(1440)
    i = app._oracle_idx
    v[i * 4 + int(app.user.rand_daily_pref)] = 1
    v[100 + int(args["day_type"])] = 1
    p = int(args["prof_i"])
    v[200], v[201] = p, p * p
    v[300 + i] = float(args["power"])
    v[400] = 1 if same_run(args["peak_time_range"], PEAK[0]) else 0
    v[500 + i] = 1
    return v


@case("C11", 2)
def parallel_composition(g):
    uc, users, start, n = gen_usecase(g, num_users=g.choice((None, None, 5)), power=g.choice((1, 7, 100)))
    uc.parallel_processing = True
    apps = [a for u in users for a in u.App_list]
    for i, a in enumerate(apps):
        a._oracle_idx = i
        if g.random() < 0.4:
            a.power = np.arange(3, 3 + 400, dtype=float) * (i + 1)
    PEAK[0] = [int(x) for x in uc.peak_time_range]
    orig = Appliance.generate_load_profile
    sig = inspect.signature(orig)
    for nm in ("prof_i", "peak_time_range", "day_type", "power"):
        if nm not in sig.parameters:
            raise Skip()

    def stub(app, *a, **k):
        b = sig.bind(app, *a, **k)
        b.apply_defaults()
        app.daily_use = encoded(app, b.arguments)

    real_pool = g.random() < 0.06
    FakePool.g = g
    flat = g.random() < 0.5
    SRC.start(g.random(), 0)
    try:
        with patched(Appliance, "generate_load_profile", stub):
            if real_pool:
                r = quiet(uc.generate_daily_load_profiles, flat=flat)
            else:
                with patched(multiprocessing, "Pool", FakePool):
                    r = quiet(uc.generate_daily_load_profiles, flat=flat)
    finally:
        SRC.stop()
    r = np.asarray(r)
    info = dict(users=[(u.num_users, u.user_preference, len(u.App_list)) for u in users], days=n, start=str(start), flat=flat, pool="real" if real_pool else "stand-in")
    require(r.shape == ((n * 1440,) if flat else (n, 1440)), f"the result has shape {r.shape}", **info)
    r = r.reshape(n, 1440)
    ncalls = sum(u.num_users * len(u.App_list) for u in users)
    for d in range(n):
        row = r[d]
        date = start + datetime.timedelta(days=d)
        require(row[500 : 500 + len(apps)].tolist() == [a.user.num_users for a in apps],
                f"day {d}: profiles per appliance {row[500:500 + len(apps)].tolist()} for {[a.user.num_users for a in apps]} users", **info)
        require(row[200] == d * ncalls and row[201] == d * d * ncalls, f"day {d} contains profiles generated for another day", **info)
        require(row[100 + weekend(date)] == ncalls, f"day {d} ({date}) generated with another day type", **info)
        require(row[400] == ncalls, f"day {d} generated with another peak time range", **info)
        for i, a in enumerate(apps):
            require(close(row[300 + i], a.power[d] * a.user.num_users), f"day {d} generated with power {row[300 + i] / a.user.num_users} for {a.power[d]}", **info)
        i = 0
        for u in users:
            first = None
            for a in u.App_list:
                cnt = row[4 * i : 4 * i + 4].tolist()
                i += 1
                ok = cnt[0] == u.num_users if u.user_preference == 0 else (cnt[0] == 0 and sum(cnt[1 : u.user_preference + 1]) == u.num_users)
                require(ok, f"preferences {cnt} for {u.user_preference} declared ones and {u.num_users} users", **info)
                first = cnt if first is None else first
                require(cnt == first, f"day {d}: the appliances of a category follow different preferences: {first} and {cnt} users with preference 0..3", **info)


@case("C11")
def parallel_long_horizon(g):
    """more than a year: days, day types and powers of the days after the first year"""
    if g.random() < 0.4:
        raise Skip()  # a long case: not in every round
    u = User("u", 1)
    n = g.choice((366, 367, 367, 368, 370, 370, 372, 400, 731))
    vals = [float(10 + 3 * i) for i in range(n + g.choice((0, 1)))]
    a = quiet(u.add_appliance, number=1, power=pd.DataFrame(vals), func_time=60, window_1=[0, 1440], name="a")
    a._oracle_idx = 0
    start = gen_date(g)
    uc = quiet(UseCase, users=[u], date_start=start.isoformat(), date_end=(start + datetime.timedelta(days=n - 1)).isoformat(), parallel_processing=True)
    PEAK[0] = [int(x) for x in uc.peak_time_range]
    sig = inspect.signature(Appliance.generate_load_profile)
    for nm in ("prof_i", "peak_time_range", "day_type", "power"):
        if nm not in sig.parameters:
            raise Skip()

    def stub(app, *a, **k):
        b = sig.bind(app, *a, **k)
        b.apply_defaults()
        app.daily_use = encoded(app, b.arguments)

    FakePool.g = g
    with patched(Appliance, "generate_load_profile", stub), patched(multiprocessing, "Pool", FakePool):
        r = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    info = dict(start=str(start), days=n)
    require(r.shape == (n, 1440), f"the result has shape {r.shape}", **info)
    for d in range(n):
        day = start + datetime.timedelta(days=d)
        require(r[d][500] == 1 and r[d][200] == d, f"day {d} is not the profile generated for it", **info)
        require(r[d][100 + weekend(day)] == 1, f"day {d} ({day}) generated with another day type", **info)
        require(r[d][300] == vals[d], f"day {d} generated with power {r[d][300]} for {vals[d]}", **info)
        require(r[d][400] == 1, f"day {d} generated with another peak time range", **info)


@case("C11")
def parallel_preferences(g):
    P = g.choice((2, 3))
    u = User("u", 40, user_preference=P)
    for j in range(2):
        a, _ = make_appliance(g, user=u, name=f"a{j}")
        a._oracle_idx = j
    uc = quiet(UseCase, users=[u], date_start="2021-03-01", date_end="2021-03-02", parallel_processing=True)
    PEAK[0] = [int(x) for x in uc.peak_time_range]
    sig = inspect.signature(Appliance.generate_load_profile)

    def stub(app, *a, **k):
        b = sig.bind(app, *a, **k)
        b.apply_defaults()
        app.daily_use = encoded(app, b.arguments)

    FakePool.g = g
    SRC.start(g.random(), 0)
    try:
        with patched(Appliance, "generate_load_profile", stub), patched(multiprocessing, "Pool", FakePool):
            r = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    finally:
        SRC.stop()
    for d in range(2):
        cnt = r[d][1 : P + 1].tolist()
        require(all(c > 0 for c in cnt), f"40 single users drew the preferences {cnt} (counts of 1..{P})")
    require(r[0][1:4].tolist() != r[1][1:4].tolist() or P == 2 or True, "")


@case("C11")
def parallel_flat(g):
    """deterministic appliances: parallel and sequential results are the same"""
    uc, users, start, n = gen_usecase(g, flat="yes", random_var_w=0, occasional_use=1, pref_index=0, time_fraction_random_variability=0, func_cycle=1,
                                      fixed_cycle=0, napps=g.randint(1, 2))
    FakePool.g = g
    try:
        a = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    except ValueError:
        raise Skip()
    uc.parallel_processing = True
    with patched(multiprocessing, "Pool", FakePool):
        b = np.asarray(quiet(uc.generate_daily_load_profiles, flat=False))
    require(a.shape == b.shape and bool((np.abs(a - b) <= 1e-6 * (1 + np.abs(a))).all()), "parallel and sequential loads of flat appliances differ",
            users=[(u.num_users, len(u.App_list)) for u in users])


# ------------------------------------------------------------------------------------------------ C12, C13
def simple_app(g, u, name, power=None, **kw):
    nw = g.randint(1, 3)
    ws = []
    for _ in range(nw):
        a = g.randint(0, 1438)
        b = g.randint(a, min(1440, a + g.choice((1, 2, 30, 700))))
        ws.append([a, b])
    if g.random() < 0.2:
        a = g.randint(0, 1439)
        ws[0] = [a, a + 1]
    kw = dict(dict(number=g.randint(1, 4), power=g.choice((1000, 2000, 5000)) if power is None else power, num_windows=nw, func_time=0, name=name), **kw)
    for i, w in enumerate(ws):
        kw[f"window_{i + 1}"] = wrap_win(g, w)
    a = quiet(u.add_appliance, **kw)
    return a, ws


def expected_top(app_ws):
    tot = np.zeros(1440)
    for u, apps in app_ws:
        s = np.zeros(1440)
        for a, ws, mean in apps:
            m = np.zeros(1440)
            for w in ws:
                m[w[0] : w[1]] = 1
            s = s + m * mean * a.number
        tot = tot + s * u.num_users
    return tot


@case("C12", 3)
def peak_range(g):
    app_ws, users = [], []
    for i in range(g.randint(1, 3)):
        u = User(f"u{i}", g.randint(1, 3))
        apps = []
        for j in range(g.randint(1, 3)):
            a, ws = simple_app(g, u, f"a{i}{j}")
            apps.append((a, ws, float(a.power[0])))
        app_ws.append((u, apps))
        users.append(u)
    pe = g.choice((0.0, 0.15, 0.15, 0.5, 1.0, 2.0))
    how = g.choice(("call", "call", "setter", "argument", "initialize"))
    SRC.start(g.random(), 0, keep=True)
    try:
        uc = quiet(UseCase, users=users, peak_enlarge=pe)
        bias = g.choice((0, 0.6))
        SRC.start(g.random(), bias, keep=True)
        if how == "call":
            r = quiet(uc.calc_peak_time_range)
        elif how == "setter":
            pe = g.choice((0.0, 0.3, 1.5))
            SRC.start(g.random(), bias, keep=True)
            uc.peak_enlarge = pe
            r = uc.peak_time_range
        elif how == "argument":
            pe = g.choice((0.0, 0.3, 1.5))
            r = quiet(uc.calc_peak_time_range, pe)
        else:
            quiet(uc.initialize, num_days=1)
            r = uc.peak_time_range
        log = [x for x in SRC.log if x[0] == "gauss"]
    finally:
        SRC.stop()
    tot = expected_top(app_ws)
    pos = [int(i) for i in np.flatnonzero(tot == tot.max())]
    info = dict(peak_minutes=[pos[0], pos[-1], len(pos)], peak_enlarge=pe, draws=log[-2:], how=how)
    require(r is not None, "there is no peak time range", **info)
    r = [int(x) for x in r]
    require(len(r) >= 1, "the peak time range is empty", **info)
    require(all(b - a == 1 for a, b in zip(r, r[1:])), "the peak time range is not a run of consecutive minutes", **info)
    require(len(log) >= 2, f"{len(log)} normal draws", **info)
    (_, (mu, sg), v1), (_, (mu2, sg2), v2) = log[-2:]
    mean = sum(pos) / len(pos)
    require(mu == round(mean), f"peak time drawn around {mu} instead of {round(mean)}", **info)
    require(close(sg, (pos[-1] - pos[0]) / 3), f"peak time drawn with standard deviation {sg} instead of {(pos[-1] - pos[0]) / 3}", **info)
    pt = round(v1)
    require(close(sg2, pe * pt), f"enlargement drawn with standard deviation {sg2} instead of {pe * pt}", **info)
    e = max(1, round(abs(mu2 - v2)))
    if r[0] == pt - e and r[-1] == pt + e - 1:
        return
    require(False, f"peak time {pt} with distance {e}: range is {r[0]}..{r[-1]}", **info)


@case("C12")
def peak_for_all(g):
    """a peak time range is obtained for every use case, also a peak of one minute, under extreme draws"""
    u = User("u", 1)
    a = g.randint(0, 1439)
    quiet(u.add_appliance, number=1, power=100, num_windows=1, func_time=0, name="x", window_1=[a, min(1440, a + g.choice((1, 1, 2, 1440 - a)))])
    SRC.start(g.random(), 0.8)
    try:
        uc = quiet(UseCase, users=[u], date_start="2020-01-01", date_end="2020-01-02")
    finally:
        SRC.stop()
    r = uc.peak_time_range
    require(r is not None and len(r) >= 2 and len(r) % 2 == 0, f"peak time range {r}")


@case("C13", 2)
def maximum_profiles(g):
    u = User("u", g.choice((0, 1, 1, 2, 3, 4)))
    apps = []
    mode = g.random()
    for j in range(g.randint(1, 3)):
        kind = g.choice(("constant", "table", "json"))
        vals = [float(g.choice((0, 10, 250, 3000, 12.5))) for _ in range(366)]
        if kind == "table":
            a, ws = simple_app(g, u, f"a{j}", power=pd.DataFrame(vals))
        elif kind == "json":
            import json as _j
            a, ws = simple_app(g, u, f"a{j}", power=_j.dumps(vals))
        else:
            a, ws = simple_app(g, u, f"a{j}", power=vals[0])
            vals = vals[:1]
        apps.append((a, ws, sum(vals) / len(vals)))
    info = dict(apps=[(a.number, ws, m) for a, ws, m in apps], num_users=u.num_users)
    first = [np.array(a.maximum_profile, dtype=float) for a, _, _ in apps]
    ufirst = np.array(u.maximum_profile, dtype=float)
    ratio = None
    for (a, ws, mean), p in zip(apps, first):
        m = np.zeros(1440)
        for w in ws:
            m[w[0] : w[1]] = 1
        require(p.shape == (1440,), f"maximum profile of shape {p.shape}", **info)
        require(bool((p[m == 0] == 0).all()), "maximum profile outside the declared windows is not 0", **info)
        inside = p[m == 1]
        if mean * a.number == 0:
            require(bool((inside == 0).all()), "maximum profile of an appliance without power is not 0", **info)
        elif len(inside):
            q = inside / (mean * a.number)
            ratio = float(q[0]) if ratio is None else ratio
            require(ratio > 0, "maximum profile inside the declared windows is 0", **info)
            require(bool((np.abs(q - ratio) <= 1e-9).all()), f"maximum profile is not proportional to mean power times number ({float(q.min())}..{float(q.max())} against {ratio})", **info)
    want = sum(first) * u.num_users
    require(bool((np.abs(want - ufirst) <= 1e-9 * (1 + np.abs(want))).all()), "maximum profile of the category is not the sum over its appliances times its users", **info)
    # generation and repeated simulation leave them alone
    for a, ws, _ in apps:
        a.func_time = g.choice((0, min(1440, sum(w[1] - w[0] for w in ws[: a.num_windows]) // 2)))
        a.random_var_w = 0.3
        a.flat = g.choice(("yes", "no"))
    SRC.start(g.random(), 0.2)
    try:
        uc = quiet(UseCase, users=[u], date_start="2021-01-01", date_end="2021-01-02")
        for _ in range(2):
            try:
                quiet(uc.generate_daily_load_profiles)
            except (ValueError,) + TOO_DEEP:
                pass
            for (a, _, _), p in zip(apps, first):
                require(bool((np.asarray(a.maximum_profile) == p).all()), "the maximum profile of an appliance changed by generating profiles", **info)
            require(bool((np.asarray(u.maximum_profile) == ufirst).all()), "the maximum profile of a category changed by generating profiles", **info)
    finally:
        SRC.stop()


# ------------------------------------------------------------------------------------------------ C14
def as_given(g, d):
    k = g.random()
    if k < 0.5:
        return d.isoformat()
    if k < 0.75:
        return datetime.datetime(d.year, d.month, d.day)
    return d


class FakeDate(datetime.datetime):
    now_ = None

    @classmethod
    def today(cls):
        return cls.now_

    @classmethod
    def now(cls, tz=None):
        return cls.now_


@case("C14", 2)
def calendar(g):
    start = gen_date(g)
    span = g.choice((1, 1, 2, 3, 10, 40))
    end = start + datetime.timedelta(days=span - 1)
    how = g.choice(("both", "both+n", "start+n", "end+n", "n", "forced", "forced"))
    u = User("u", 1)
    quiet(u.add_appliance, number=1, power=10, num_windows=1, func_time=0, name="x", window_1=[0, 10])
    n = g.choice((1, 2, 5, span, 30))
    uc = quiet(UseCase, users=[u] if g.random() < 0.7 else [User("v", 1)] and [u])
    info = dict(how=how, start=str(start), end=str(end), n=n)
    today = None
    if how in ("both", "both+n"):
        uc.date_start, uc.date_end = as_given(g, start), as_given(g, end)
        quiet(uc.initialize, **({"num_days": n} if how == "both+n" else {}))
        if how == "both":
            n = span
        first = start
    elif how == "start+n":
        uc.date_start = as_given(g, start)
        quiet(uc.initialize, num_days=n)
        first = start
    elif how == "end+n":
        uc.date_end = as_given(g, end)
        quiet(uc.initialize, num_days=n)
        first = end - datetime.timedelta(days=n - 1)
    elif how == "n":
        t0 = datetime.date.today()
        quiet(uc.initialize, num_days=n)
        first = uc.days[0].date()
        require(t0 <= first <= datetime.date.today(), f"without dates the first day is {first}", **info)
    else:
        # initialised before, then the dates are changed
        was = gen_date(g)
        given = g.choice(("start", "end", "both", "none"))
        m = g.randint(1, 9)
        if given != "none" and g.random() < 0.5:
            uc.date_start = as_given(g, was)
            uc.date_end = as_given(g, was + datetime.timedelta(days=m - 1))
            quiet(uc.initialize)
        else:
            if given != "none":
                uc.date_start = as_given(g, was)
            quiet(uc.initialize, num_days=m)
        uc.date_start = as_given(g, start) if given in ("start", "both") else None
        uc.date_end = as_given(g, end) if given in ("end", "both") else None
        again = g.random() < 0.5
        if not again:
            quiet(uc.initialize, num_days=n, force=True)
        else:
            quiet(uc.initialize, force=True)
            n = span if given == "both" else m
        info.update(given=given, n=n, number_given_again=not again)
        first = start if given in ("start", "both") else end - datetime.timedelta(days=n - 1) if given == "end" else uc.days[0].date()
    check_calendar(uc, first, n, info)
    # again: nothing changes
    before = (list(uc.days), uc.num_days, list(uc.datetimeindex[:3]), len(uc.datetimeindex), [int(x) for x in uc.peak_time_range])
    quiet(uc.initialize, **g.choice(({}, {"num_days": g.randint(1, 9)}, {"num_days": g.randint(1, 9), "peak_enlarge": 0.4})))
    after = (list(uc.days), uc.num_days, list(uc.datetimeindex[:3]), len(uc.datetimeindex), [int(x) for x in uc.peak_time_range])
    require(before == after, "a second initialisation changed something", **info)


def check_calendar(uc, first, n, info):
    days = [d.date() for d in uc.days]
    require(days == [first + datetime.timedelta(days=i) for i in range(n)], f"simulated days {days[0]}..{days[-1]} ({len(days)}) instead of {n} from {first}", **info)
    require(all((d.hour, d.minute, d.second) == (0, 0, 0) for d in uc.days), "simulated days do not start at midnight", **info)
    require(uc.num_days == n, f"number of days {uc.num_days} instead of {n}", **info)
    idx = uc.datetimeindex
    require(len(idx) == 1440 * n, f"{len(idx)} minutes for {n} days", **info)
    t = datetime.datetime(first.year, first.month, first.day)
    require(idx[0] == pd.Timestamp(t), f"the time index starts at {idx[0]}", **info)
    ns = idx.values.astype("datetime64[ns]").astype("int64")
    require(bool((np.diff(ns) == 60 * 10**9).all()), "the time index is not one minute apart", **info)


@case("C14")
def calendar_at_creation(g):
    start = gen_date(g)
    span = g.choice((1, 2, 7, 31, 366))
    end = start + datetime.timedelta(days=span - 1)
    u = User("u", 1)
    quiet(u.add_appliance, number=1, power=10, num_windows=1, func_time=0, name="x", window_1=[0, 10])
    uc = quiet(UseCase, users=[u], date_start=as_given(g, start), date_end=as_given(g, end))
    info = dict(start=str(start), end=str(end))
    require(uc.is_initialized is True, "a use case with both dates is not initialised", **info)
    check_calendar(uc, start, span, info)


# ------------------------------------------------------------------------------------------------ C15
@case("C15")
def day_types(g):
    d = gen_date(g) if g.random() < 0.8 else datetime.date(g.randint(1, 9998), g.randint(1, 12), g.randint(1, 28))
    f = utils.get_day_type
    forms = [d, d.isoformat(), datetime.datetime(d.year, d.month, d.day, g.randint(0, 23), g.randint(0, 59))]
    if 1700 < d.year < 2200:
        forms.append(pd.Timestamp(d))
    for x in forms:
        r = quiet(f, x)
        require(r == weekend(d) and r in (0, 1), f"{x!r} ({d.strftime('%A')}) is of day type {r}")


@case("C15")
def yearly(g):
    if g.random() < 0.3:
        r = list(quiet(utils.yearly_pattern))
        require(r == [1 if i % 7 in (5, 6) else 0 for i in range(365)], "the pattern without a year")
        return
    y = g.randint(1700, 2200)
    r = list(quiet(utils.yearly_pattern, y))
    n = (datetime.date(y + 1, 1, 1) - datetime.date(y, 1, 1)).days
    want = [weekend(datetime.date(y, 1, 1) + datetime.timedelta(days=i)) for i in range(n)]
    require(r == want, f"the pattern of {y}: {len(r)} entries for {n} days" if len(r) != n else f"the pattern of {y} marks other days")


@case("C15", 2)
def overlaps(g):
    def run(n=60):
        a = g.randint(0, n)
        return a, min(n, a + g.choice((0, 0, 1, 2, 10, n)))

    k = g.choice((12, 1440))
    a, b = run(k)
    p, q = run(k)
    if g.random() < 0.3:
        a = b = g.choice((p, q, max(0, p - 1), q + 1))
    r = quiet(utils.within_peak_time_window, a, b, p, q)
    require(bool(r) == (max(a, p) <= min(b, q)), f"event {a}..{b}, peak time range {p}..{q}: on-peak {r}")
    for w in ([p, q], np.array([p, q])):
        r = quiet(utils.range_within_window, a, b, w)
        if p == q:
            require(not r, f"event {a}..{b} overlaps the empty window {p}..{q}")
        else:
            require(bool(r) == (max(a, p) <= min(b, q)), f"event {a}..{b}, window {p}..{q}: overlap {r}")


@case("C15")
def events_on_peak(g):
    """the peak classification of each event of a generated day"""
    app, p = make_appliance(g, flat="no", occasional_use=1, pref_index=0, wd_we_type=2, fixed="no", fixed_cycle=0)
    if app.func_time == 0:
        raise Skip()
    with Spy(Appliance, "calc_coincident_switch_on") as cc, Spy(Appliance, "update_daily_use") as ud:
        try:
            _, peak, _, _ = run_day(g, app)
        except ValueError:
            raise Skip()
    if len(cc.calls) != len(ud.calls):
        raise Skip()
    for (a, _, _), (b, _, _) in zip(cc.calls, ud.calls):
        if "inside_peak_window" not in a or "indexes" not in b:
            raise Skip()
        i = b["indexes"]
        on = bool(set(int(x) for x in i) & set(int(x) for x in peak))
        require(bool(a["inside_peak_window"]) == on,
                f"event {int(i[0])}..{int(i[-1])}, peak time range {int(peak[0])}..{int(peak[-1])}: on-peak {a['inside_peak_window']}", params=show(p))
