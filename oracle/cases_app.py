"""C01-C09: the stochastic process of one appliance"""
from base import *


def simulated(spies):
    return bool(spies["calc_rand_window"].calls)


class Day:
    """one generated day together with what its steps returned"""

    names = ("calc_rand_window", "rand_total_time_of_use", "rand_switch_on_window", "update_daily_use",
             "calc_coincident_switch_on", "assign_random_cycles")

    def __init__(self, g, app, **kw):
        def before_update(a):
            s = a.get("self")
            return (
                s.daily_use.copy(),
                [(x.start, x.stop) for x in (s.free_spots or [])],
                s.current_duty_cycle_id,
            ) if s is not None else None

        self.spies = {
            n: Spy(Appliance, n, before_update if n in ("update_daily_use", "rand_switch_on_window") else None) for n in self.names
        }
        self.error = None
        with contextlib.ExitStack() as st:
            for s in self.spies.values():
                st.enter_context(s)
            try:
                self.args = run_day(g, app, **kw)
            except ValueError as e:
                self.error = e
        self.app = app
        self.use = np.asarray(app.daily_use, dtype=float)
        # the windows of the day, by index, when the code still draws them one by one
        self.wins = None
        cs = self.spies["calc_rand_window"].calls
        if len(cs) == 3:
            self.wins = [[int(r[0]), int(r[1])] for _, r, _ in cs]
        ts = self.spies["rand_total_time_of_use"].calls
        self.time = ts[-1][1] if ts else None

    def events(self):
        out = []
        for a, _, pre in self.spies["update_daily_use"].calls:
            if "indexes" not in a:
                return None
            out.append((np.asarray(a["indexes"]), a.get("coincidence"), pre))
        return out


def day_or_skip(g, app, **kw):
    d = Day(g, app, **kw)
    if d.error is not None:
        raise Skip()
    return d


@case("C01")
def envelope(g):
    app, p = make_appliance(g, power=g.choice((0, 1, 10, 7.5, 500)))
    if g.random() < 0.3:
        series = [float(g.choice((0, 5, 17, 250))) for _ in range(366)]
        app.power = np.array(series)
    app.user.rand_daily_pref = g.randint(0, 3)
    d = day_or_skip(g, app)
    prof_i, peak, day_type, P = d.args
    use = d.use
    require(use.shape == (1440,), f"profile has shape {use.shape}", params=show(p))
    require(bool(np.isfinite(use).all()), "profile has values that are not finite", params=show(p))
    require(bool((use >= 0).all()), "profile has negative values", params=show(p))
    n, v, fc = app.number, app.thermal_p_var, app.fixed_cycle
    powers = [P] if (fc == 0 or app.flat == "yes") else [
        q for i in range(1, fc + 1) for q in (getattr(app, f"p_{i}1"), getattr(app, f"p_{i}2"))]
    for x in set(use.tolist()):
        if x == 0 or abs(x - 0.001) < 1e-12:
            continue
        require(any(unit_multiple(x, q, v, n) for q in powers),
                f"value {x} is not k*P*(1+-v) for P in {powers}, v={v}, k in 1..{n}", params=show(p), day=d.args[0])


@case("C02", 3)
def time_of_use(g):
    app, p = make_appliance(g)
    W = [gen_window(g) for _ in range(3)]
    if g.random() < 0.6:
        W[1] = W[2] = [0, 0]
    if not hasattr(app, "rand_total_time_of_use"):
        raise Skip()
    total = sum(b - a for a, b in W)
    if g.random() < 0.3:
        app.func_time = g.choice((0, 1, 7, 1440, max(0, min(1440, int(0.99 * total)))))
    if g.random() < 0.2:
        app.func_cycle = max(1, g.choice((int(0.99 * total), int(0.99 * total) + 1, total)))
    SRC.start(g.random(), g.choice((0, 0.5, 0.9)))
    err = None
    try:
        t = quiet(app.rand_total_time_of_use, *W)
    except ValueError as e:
        err = e
    finally:
        SRC.stop()
    cyc, ft, r, avail = app.func_cycle, app.func_time, app.time_fraction_random_variability, 0.99 * total
    info = dict(func_cycle=cyc, func_time=ft, variability=r, windows=W)
    if err is not None:
        require(cyc > avail - EPS, f"refused although {cyc} minutes fit into {avail}", **info)
        return
    require(cyc <= avail + EPS, f"accepted although {cyc} minutes do not fit into {avail}", **info)
    require(cyc <= t <= avail + EPS, f"time of use {t} outside {cyc}..{avail}", **info)
    require(t + 1 + EPS >= ft * (1 - r) or t + 1 > avail - EPS, f"time of use {t} below (1-r)*{ft}", **info)
    require(t <= ft * (1 + r) + 1 + EPS or t == cyc, f"time of use {t} above (1+r)*{ft}", **info)


@case("C02")
def budget(g):
    app, p = make_appliance(g, flat="no", occasional_use=1, pref_index=0, wd_we_type=2)
    if app.func_time == 0:
        raise Skip()
    before = app.func_cycle
    d = Day(g, app)
    if d.error is not None or d.time is None or d.wins is None:
        raise Skip()
    demand = sum(1 for m in range(1440) if d.use[m] != 0 and abs(d.use[m] - 0.001) > 1e-12)
    require(demand <= d.time, f"{demand} minutes of demand exceed the time of use {d.time}", params=show(p))
    ev = d.events()
    if ev is None or not ev:
        if ev == [] and d.time > 0 and any(b - a >= before for a, b in d.wins) and d.spies["update_daily_use"].present:
            require(False, "no event although a window can hold one", params=show(p), windows=d.wins)
        return
    placed = sum(len(i) for i, _, _ in ev)
    require(placed <= d.time, f"{placed} minutes placed exceed the time of use {d.time}", params=show(p))
    if placed < d.time:
        free = [(s.start, s.stop) for s in app.free_spots]
        require(all(b - a < app.func_cycle for a, b in free),
                f"stopped after {placed} of {d.time} minutes although {free} can hold {app.func_cycle}", params=show(p))


@case("C03")
def windows_moved(g):
    app, p = make_appliance(g)
    i = g.randint(1, 3)
    if not hasattr(app, "calc_rand_window"):
        raise Skip()
    SRC.start(g.random(), g.choice((0, 0.5, 0.9)))
    try:
        w = quiet(app.calc_rand_window, window_idx=i)
    finally:
        SRC.stop()
    check_window(app, i, w, p)


def check_window(app, i, w, p):
    d = [int(x) for x in getattr(app, f"window_{i}")]
    rv = int(app.random_var_w * (d[1] - d[0]))
    a, b = w
    info = dict(params=show(p), window=i, result=[int(a), int(b)])
    require(0 <= a <= b <= 1440, f"window {i} of the day is {[a, b]}", **info)
    require(max(0, d[0] - rv) <= a <= d[0] + rv, f"start {a} outside {d[0]}+-{rv}", **info)
    require(d[1] - rv <= b <= min(1440, d[1] + rv), f"end {b} outside {d[1]}+-{rv}", **info)


@case("C03")
def only_in_windows(g):
    app, p = make_appliance(g)
    app.user.rand_daily_pref = app.pref_index
    d = day_or_skip(g, app)
    if d.wins is None:
        # windows as wide as their variability allows
        lim = []
        for i in (1, 2, 3):
            a, b = (int(x) for x in getattr(app, f"window_{i}"))
            rv = int(app.random_var_w * (b - a))
            if b > a:
                lim.append((a - rv, b + rv))
        for m in range(1440):
            require(d.use[m] == 0 or in_win(m, lim), f"demand at minute {m} outside the windows", params=show(p))
        return
    for i, w in enumerate(d.wins):
        check_window(app, i + 1, w, p)
    for m in range(1440):
        if in_win(m, d.wins):
            if d.use[m] == 0:
                P = d.args[3]
                zero = P == 0 or app.thermal_p_var >= 1 or app.fixed_cycle > 0
                require(zero, f"no standby marker nor demand at minute {m}", params=show(p), windows=d.wins)
        else:
            require(d.use[m] == 0, f"value {d.use[m]} at minute {m} outside the windows of the day {d.wins}", params=show(p))


def gen_spots(g):
    out, m = [], g.choice((0, 0, g.randint(0, 600)))
    for _ in range(g.randint(1, 5)):
        n = g.choice((1, 2, 3, g.randint(1, 60), g.randint(1, 300)))
        if m + n > 1440:
            break
        out.append([m, m + n])
        m += n + g.choice((0, 0, 1, g.randint(0, 200)))
    g.shuffle(out)
    return out or [[0, 1440]]


@case("C04", 2)
def place_in_free_time(g):
    app, p = make_appliance(g, occasional_use=1)
    spots = gen_spots(g)
    if not (hasattr(app, "rand_switch_on_window") and hasattr(app, "update_available_time_for_switch_on_events")):
        raise Skip()
    app.free_spots = [slice(a, b, None) for a, b in spots]
    app.func_cycle = g.choice((1, 2, 3, 10, g.randint(1, 60)))
    rand_time = app.func_cycle + g.choice((0, 1, 5, 100, 1000))
    SRC.start(g.random(), g.choice((0, 0.5, 0.9)))
    try:
        quiet(app.assign_random_cycles)
        for _ in range(8):
            spots = [(s.start, s.stop) for s in app.free_spots]
            info = dict(free=spots, func_cycle=app.func_cycle, rand_time=rand_time, params=show(p))
            free = set(m for a, b in spots for m in range(a, b))
            idx = quiet(app.rand_switch_on_window, rand_time=rand_time)
            if idx is None:
                require(all(b - a < app.func_cycle for a, b in spots), "no event found although one fits", **info)
                break
            idx = [int(x) for x in idx]
            require(any(b - a >= app.func_cycle for a, b in spots), "event found although none fits", **info)
            require(len(idx) >= 1 and idx == list(range(idx[0], idx[0] + len(idx))), f"event {idx[:5]} is not a run of minutes", **info)
            require(any(a <= idx[0] and idx[-1] < b for a, b in spots), f"event {idx[0]}..{idx[-1]} not inside one free stretch", **info)
            require(len(idx) <= rand_time, "event longer than the time of use", **info)
            once = app.fixed_cycle > 0 and app.continuous_duty_cycle == 0
            cyc = len(getattr(app, f"random_cycle{app.current_duty_cycle_id}")) if once else 0
            require(len(idx) >= app.func_cycle or (once and len(idx) == cyc), f"event of {len(idx)} minutes too short", **info)
            if g.random() < 0.3 and len(idx) > 1:
                idx = idx[: g.randint(1, len(idx))]  # cut at the time of use
            quiet(app.update_available_time_for_switch_on_events, np.array(idx))
            now = [(s.start, s.stop) for s in app.free_spots]
            after = set(m for a, b in now for m in range(a, b))
            require(after == free - set(idx),
                    f"free time after placing {idx[0]}..{idx[-1]} is {now}", **info)
    except TOO_DEEP:
        raise Skip()
    finally:
        SRC.stop()


@case("C04")
def no_double_booking(g):
    app, p = make_appliance(g, flat="no", occasional_use=1, pref_index=0, wd_we_type=2, random_var_w=g.choice((0, 0, 0.1)))
    d = day_or_skip(g, app)
    ev = d.events()
    if ev is None or d.wins is None:
        raise Skip()
    ws = [w for w in d.wins if w[0] < w[1]]
    if any(a[0] < b[1] and b[0] < a[1] for i, a in enumerate(ws) for b in ws[:i]):
        raise Skip()
    seen = set()
    for idx, _, pre in ev:
        mins = [int(x) for x in idx]
        require(mins == list(range(mins[0], mins[0] + len(mins))), "event is not a run of minutes", params=show(p))
        require(any(a <= mins[0] and mins[-1] < b for a, b in ws), f"event {mins[0]}..{mins[-1]} not inside one window {ws}", params=show(p))
        require(not seen & set(mins), f"minutes {sorted(seen & set(mins))[:3]} booked twice", params=show(p), windows=ws)
        seen |= set(mins)


@case("C05")
def coincidence(g):
    n = g.choice((1, 2, 3, 4, 5, 7, 10, 25, 100))
    fixed = g.choice(("yes", "no", "no", "no"))
    app, p = make_appliance(g, number=n, fixed=fixed)
    peak = g.random() < 0.5
    if not hasattr(app, "calc_coincident_switch_on"):
        raise Skip()
    SRC.start(g.random(), g.choice((0, 0.3, 0.9)), keep=True)
    try:
        k = quiet(app.calc_coincident_switch_on, inside_peak_window=peak)
    finally:
        SRC.stop()
    log = list(SRC.log)
    check_coincidence(app, n, fixed, peak, k, log)


def check_coincidence(app, n, fixed, peak, k, log):
    info = dict(number=n, fixed=fixed, peak=peak, draws=log, result=repr(k))
    require(float(k) == int(k) and 1 <= k <= n, f"{k} units of {n}", **info)
    if fixed == "yes":
        require(k == n, f"fixed appliance switches {k} of {n} units", **info)
    elif peak:
        gs = [x for x in log if x[0] == "gauss"]
        require(len(gs) == 1, f"on-peak sample: {log}", **info)
        (mu, sigma), v = gs[0][1], gs[0][2]
        require(close(mu, 0.5 * n) and close(sigma, 0.25 * n), f"normal({mu}, {sigma})", **info)
        require(k == min(n, max(1, math.ceil(v))), f"{k} units for sample {v}", **info)
    else:
        us = [x for x in log if x[0] == "uniform"]
        require(len(us) == 1, f"off-peak sample: {log}", **info)
        (a, b), v = us[0][1], us[0][2]
        if (a, b) == (0, 1):
            return
        require(close(a, 0) and close(b, (n - 0.5) / n), f"uniform({a}, {b})", **info)
        if abs(v * n - round(v * n)) > 1e-9 or v == 0:
            require(k == math.floor(v * n) + 1, f"{k} units for sample {v}", **info)


@case("C05")
def coincidence_in_day(g):
    """the peak decision of every event of a day"""
    app, p = make_appliance(g, number=g.choice((3, 5, 10)), fixed="no", flat="no", occasional_use=1, pref_index=0, wd_we_type=2)
    d = day_or_skip(g, app)
    ev, cs = d.events(), d.spies["calc_coincident_switch_on"].calls
    if ev is None or not d.spies["calc_coincident_switch_on"].present or len(cs) != len(ev):
        raise Skip()
    peak = d.args[1]
    for (idx, k, _), (a, r, _) in zip(ev, cs):
        if "inside_peak_window" not in a:
            raise Skip()
        on = not (idx[-1] < peak[0] or idx[0] > peak[-1])
        require(bool(a["inside_peak_window"]) == on,
                f"event {idx[0]}..{idx[-1]}, peak {peak[0]}..{peak[-1]}: treated as {'on' if a['inside_peak_window'] else 'off'}-peak", params=show(p))
        require(k == r, "event uses another number of units than drawn", params=show(p))


def stretches(arr, n1s, n2s, q1, q2):
    arr = [float(x) for x in arr]
    for n1 in n1s:
        for n2 in n2s:
            if len(arr) == n1 + n2 and all(close(x, q1) for x in arr[:n1]) and all(close(x, q2) for x in arr[n1:]):
                return True
    return False


def part_range(t, r):
    lo, hi = int(t * (1 - r) - 1e-9), int(t * (1 + r) + 1e-9)
    return range(lo, hi + 1)


@case("C06")
def duty_cycle_shape(g):
    var = g.choice((0, 0.1, 0.3, 0.5, 1))
    t1, t2 = g.choice((0, 1, 5, 30, 100)), g.choice((0, 1, 7, 20, 100))
    p1, p2 = g.choice((0, 10, 200.5)), g.choice((3, 50, 0))
    if not (hasattr(utils, "duty_cycle") and hasattr(utils, "random_choice")):
        raise Skip()
    SRC.start(g.random(), g.choice((0, 0.5, 0.9)))
    try:
        a = quiet(utils.duty_cycle, var, t1=t1, p1=p1, t2=t2, p2=p2)
        b = quiet(utils.random_choice, var, t1=t1, p1=p1, t2=t2, p2=p2)
    finally:
        SRC.stop()
    R1, R2 = part_range(t1, var), part_range(t2, var)
    info = dict(var=var, t1=t1, t2=t2, p1=p1, p2=p2)
    require(stretches(a, R1, R2, p1, p2), f"duty cycle {np.asarray(a).tolist()[:60]}", **info)
    require(stretches(b, R1, R2, p1, p2) or stretches(b, R2, R1, p2, p1), f"cycle of random choice {np.asarray(b).tolist()[:60]}", **info)


@case("C06")
def cycles_of_the_day(g):
    fc = g.randint(1, 3)
    app, p = make_appliance(g, fixed_cycle=fc)
    if not hasattr(app, "assign_random_cycles"):
        raise Skip()
    SRC.start(g.random(), g.choice((0, 0.5, 0.9)))
    try:
        quiet(app.assign_random_cycles)
    finally:
        SRC.stop()
    v = app.thermal_p_var
    for i in (1, 2, 3):
        arr = np.asarray(getattr(app, f"random_cycle{i}"), dtype=float)
        if i > fc:
            require(np.array_equal(arr, app.random_cycle1), f"cycle {i} does not repeat the first", params=show(p))
            continue
        P1, P2, t1, t2, r = (getattr(app, f"{k}") for k in (f"p_{i}1", f"p_{i}2", f"t_{i}1", f"t_{i}2", f"r_c{i}"))
        ok = False
        for (A, TA, B, TB) in ((P1, t1, P2, t2),) + (((P2, t2, P1, t1),) if fc >= 3 else ()):
            for cut in range(len(arr) + 1):
                x, y = arr[:cut], arr[cut:]
                if cut in part_range(TA, r) and len(y) in part_range(TB, r) and (not len(x) or np.ptp(x) == 0) and (not len(y) or np.ptp(y) == 0):
                    if (not len(x) or A * (1 - v) - EPS <= x[0] <= A * (1 + v) + EPS) and (not len(y) or B * (1 - v) - EPS <= y[0] <= B * (1 + v) + EPS):
                        ok = True
        require(ok, f"cycle {i}: {arr.tolist()[:80]}", params=show(p))


def cycle_hits(app, lo, hi, i):
    for k in (1, 2):
        w = getattr(app, f"cw{i}{k}")
        if w[0] < w[1] and not (hi < w[0] or lo > w[1]):
            return True
    return False


@case("C07")
def playback(g):
    fc = g.randint(1, 3)
    app, p = make_appliance(g, fixed_cycle=fc, flat="no", occasional_use=1, pref_index=0, wd_we_type=2)
    d = day_or_skip(g, app)
    sw, ev = d.spies["rand_switch_on_window"], d.events()
    if ev is None or not d.spies["update_daily_use"].present:
        raise Skip()
    prev = None
    for n, (idx, k, pre) in enumerate(ev):
        use0, free, ident = pre
        use1 = ev[n + 1][2][0] if n + 1 < len(ev) else d.use
        lo, hi = int(idx[0]), int(idx[-1])
        info = dict(params=show(p), event=[lo, hi], units=int(k))
        # the event as drawn may have been longer than what is placed, so the windows it overlaps are judged on it
        cands = [i for i in (1, 2, 3) if cycle_hits(app, lo, 1440, i)]
        require(ident in cands, f"plays cycle {ident} although it overlaps no window of it", **info)
        first = [i for i in (1, 2, 3) if cycle_hits(app, lo, hi, i)]
        if first:
            require(ident <= first[0], f"plays cycle {ident} instead of {first[0]}", **info)
        cyc = np.asarray(getattr(app, f"random_cycle{ident}"), dtype=float) * k
        want = use0.copy()
        for j, m in enumerate(range(lo, hi + 1)):
            want[m] = cyc[j % len(cyc)]
        bad = np.flatnonzero(np.abs(want - use1) > EPS * np.maximum(1, np.abs(want)))
        require(len(bad) == 0, f"minute {bad[:3].tolist()} holds {use1[bad[:3]].tolist()} instead of {want[bad[:3]].tolist()}", **info)
        if app.continuous_duty_cycle == 0:
            require(len(idx) <= len(cyc), "event longer than its duty cycle in once mode", **info)


@case("C07")
def choice_of_cycle(g):
    fc = g.randint(1, 3)
    app, p = make_appliance(g, fixed_cycle=fc)
    for i in (1, 2, 3):
        for k in (1, 2):
            setattr(app, f"cw{i}{k}", np.array(g.choice(([0, 0], [0, 0], gen_window(g), gen_window(g)))))
    if not hasattr(app, "rand_switch_on_window"):
        raise Skip()
    a = g.randint(0, 1430)
    app.free_spots = [slice(a, min(1440, a + g.randint(1, 300)), None)]
    app.func_cycle = 1
    SRC.start(g.random(), g.choice((0, 0.5)))
    try:
        quiet(app.assign_random_cycles)
        idx = quiet(app.rand_switch_on_window, rand_time=g.choice((1, 3, 50, 400)))
    except TOO_DEEP:
        raise Skip()
    finally:
        SRC.stop()
    if idx is None:
        raise Skip()
    lo, hi = int(idx[0]), int(idx[-1])
    ident = app.current_duty_cycle_id
    cws = {f"cw{i}{k}": [int(x) for x in getattr(app, f"cw{i}{k}")] for i in (1, 2, 3) for k in (1, 2)}
    info = dict(windows=cws, event=[lo, hi], cycle=int(ident))
    once = app.continuous_duty_cycle == 0
    n = len(getattr(app, f"random_cycle{ident}")) if ident in (1, 2, 3) else 0
    cut = once and len(idx) == n
    hits = [i for i in (1, 2, 3) if cycle_hits(app, lo, hi, i)]
    if cut:
        # the event was longer before it was limited to its cycle
        longer = [i for i in (1, 2, 3) if cycle_hits(app, lo, int(app.free_spots[0].stop) - 1, i)]
        require(ident in longer, f"event overlaps no window of cycle {ident}", **info)
        if hits:
            require(ident <= hits[0], f"plays cycle {ident} instead of {hits[0]}", **info)
    else:
        require(hits and ident == hits[0], f"event plays cycle {ident}, overlaps {hits}", **info)
        if once:
            require(len(idx) <= n, "event longer than its cycle in once mode", **info)


@case("C08")
def gating(g):
    app, p = make_appliance(g, power=100, thermal_p_var=0, fixed_cycle=0, random_var_w=0)
    pref = app.user.rand_daily_pref = g.randint(0, 3)
    day_type = g.randint(0, 1)
    d = Day(g, app, day_type=day_type, keep=True)
    if d.error is not None:
        # refused while drawing the time of use: the appliance was not skipped
        skipped = False
    else:
        skipped = not d.use.any()
    draws = [x for x in SRC.log if x[0] == "uniform" and x[1] == (0, 1)]
    forced = ((app.pref_index != 0 and pref != app.pref_index) or app.wd_we_type not in (day_type, 2) or app.func_time == 0)
    info = dict(params=show(p), preference=pref, day_type=day_type, draws=SRC.log[:2])
    if forced:
        require(d.error is None and skipped, "appliance runs although it must not", **info)
        return
    require(len(draws) >= 1, "no occasional-use draw", **info)
    first = draws[0][2]
    if first > app.occasional_use:
        require(skipped, f"appliance runs although the draw {first} exceeds its frequency", **info)
    elif d.error is None and sum(b - a for a, b in (d.wins or [[0, 1]])) > 0:
        require(not skipped, f"appliance skipped although nothing forbids it (draw {first})", **info)


@case("C09")
def flat(g):
    app, p = make_appliance(g, flat="yes", power=g.choice((0, 1, 33.3, 400)))
    if g.random() < 0.5:
        app.power = np.array([float(g.choice((0, 5, 17, 250))) for _ in range(366)])
    app.user.rand_daily_pref = app.pref_index
    d = day_or_skip(g, app)
    if not simulated(d.spies):
        if d.use.any() is np.False_ or not d.use.any():
            raise Skip()
    want = app.number * d.args[3]
    vals = set(d.use.tolist())
    require(all(x == 0 or close(x, want, 1e-9) for x in vals), f"flat profile with values {sorted(vals)[:5]}, expected {want}", params=show(p))
    if d.wins is not None:
        for m in range(1440):
            x = d.use[m]
            require(close(x, want, 1e-9) if in_win(m, d.wins) else x == 0,
                    f"minute {m} holds {x}, windows {d.wins}, number*power {want}", params=show(p))
