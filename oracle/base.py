"""Runs the real code of /repo on generated inputs under a scripted random source and checks the properties.

Executed by the interpreter of the repository (PyPy).  A case is determined by (property, seed, index): the replay of
a violation regenerates exactly that case.
"""
import os, sys, random as _r, warnings, io, contextlib, math, functools, inspect

REPO = os.environ.get("RAMP_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")


class Violation(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.info = info


class Skip(Exception):
    """the generated case is outside the domain of the property"""


REAL = {k: getattr(_r, k) for k in ("uniform", "randint", "gauss", "random", "seed", "normalvariate", "choice", "randrange")}


class Source:
    """the random source of the code under test: real, or biased towards the extremes of each draw"""

    def __init__(self):
        self.rng = _r.Random(0)
        self.bias = 0.0
        self.log = []
        self.on = False
        self.keep = False

    def start(self, seed, bias, keep=False):
        self.rng.seed(seed)
        self.bias, self.log, self.on, self.keep = bias, [], True, keep

    def stop(self):
        self.on = False

    def rec(self, kind, args, v):
        if self.keep:
            self.log.append((kind, args, v))
        return v

    def uniform(self, a, b):
        if not self.on:
            return REAL["uniform"](a, b)
        r = self.rng.random()
        if self.rng.random() < self.bias:
            c = self.rng.random()
            r = 0.0 if c < 0.35 else (1.0 if c < 0.7 else (0.5 if c < 0.8 else self.rng.choice((1e-9, 1 - 1e-9))))
            v = a if r == 0.0 else (b if r == 1.0 else a + (b - a) * r)
        else:
            v = a + (b - a) * r
        return self.rec("uniform", (a, b), v)

    def random(self):
        if not self.on:
            return REAL["random"]()
        r = self.rng.random()
        if self.rng.random() < self.bias:
            r = self.rng.choice((0.0, 1 - 1e-12, 0.5))
        return self.rec("uniform", (0, 1), r)

    def randint(self, a, b):
        if not self.on:
            return REAL["randint"](a, b)
        if b < a:
            raise ValueError("empty range for randrange()")
        a_, b_ = int(a), int(b)
        v = self.rng.randint(a_, b_)
        if self.rng.random() < self.bias:
            v = self.rng.choice((a_, b_))
        return self.rec("randint", (a_, b_), v)

    def randrange(self, *a):
        if not self.on:
            return REAL["randrange"](*a)
        return self.rec("randrange", a, self.rng.randrange(*a))

    def choice(self, xs):
        if not self.on:
            return REAL["choice"](xs)
        return self.rec("choice", (), xs[self.randint(0, len(xs) - 1)])

    def gauss(self, mu=0.0, sigma=1.0):
        if not self.on:
            return REAL["gauss"](mu, sigma)
        v = self.rng.gauss(mu, sigma)
        if self.rng.random() < self.bias:
            v = self.rng.choice((mu, mu - 5 * sigma, mu + 5 * sigma, mu + 0.5, math.floor(mu), math.ceil(mu) + 1e-6, -3.5, 0.0))
        return self.rec("gauss", (mu, sigma), v)

    def seed(self, *a, **k):
        if not self.on:
            return REAL["seed"](*a, **k)
        self.rec("seed", a, None)
        if self.seeding:
            return REAL["seed"](*a, **k)

    seeding = False


SRC = Source()
for _k in ("uniform", "randint", "gauss", "random", "choice", "randrange", "seed"):
    setattr(_r, _k, getattr(SRC, _k))
_r.normalvariate = SRC.gauss

with contextlib.redirect_stdout(io.StringIO()):
    import numpy as np
    import pandas as pd
    import ramp
    from ramp.core import core, utils
    from ramp.core.core import UseCase, User, Appliance

np.seterr(all="ignore")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


class Spy:
    """records the calls of a method of the real class: [(bound arguments, result)]"""

    def __init__(self, cls, name, before=None):
        self.calls, self.cls, self.name, self.before = [], cls, name, before
        self.present = hasattr(cls, name)

    def __enter__(self):
        if not self.present:
            return self
        f = self.f = getattr(self.cls, self.name)
        sig = inspect.signature(f)
        spy = self

        @functools.wraps(f)
        def w(*a, **k):
            try:
                b = sig.bind(*a, **k)
                b.apply_defaults()
                args = dict(b.arguments)
            except TypeError:
                args = {}
            pre = spy.before(args) if spy.before else None
            r = f(*a, **k)
            spy.calls.append((args, r, pre))
            return r

        setattr(self.cls, self.name, w)
        return self

    def __exit__(self, *a):
        if self.present:
            setattr(self.cls, self.name, self.f)


# ------------------------------------------------------------------------------------------------ generators
def gen_window(g, lo=0, hi=1440):
    k = g.random()
    if k < 0.1:
        return [lo, hi]
    a = g.randint(lo, hi)
    b = g.randint(lo, hi)
    if k < 0.2:
        b = min(hi, a + g.randint(1, 5))
    if k < 0.25:
        a, b = lo, g.randint(lo + 1, max(lo + 1, min(hi, lo + 30)))
    if k > 0.9:
        a, b = max(lo, hi - g.randint(1, 60)), hi
    return [min(a, b), max(a, b)]


def wrap_win(g, w):
    return np.array(w) if g.random() < 0.4 else list(w)


def gen_params(g, **force):
    """keyword arguments of add_appliance inside the documented domain"""
    nw = g.randint(1, 3)
    if g.random() < 0.5:
        cuts = sorted(g.randint(0, 1440) for _ in range(2 * nw))
        ws = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(nw)]
    else:
        ws = [gen_window(g) for _ in range(nw)]
    if sum(b - a for a, b in ws) == 0:
        ws[0] = [0, 1440]
    total = sum(b - a for a, b in ws)
    p = dict(
        number=g.choice((1, 1, 2, 3, 5)),
        power=g.choice((0, 1, 10, 100, 7.5, 1234.5)),
        num_windows=nw,
        func_time=g.choice((0, 1, 5, 30, 60, total, total // 2, g.randint(0, total))),
        time_fraction_random_variability=g.choice((0, 0, 0.1, 0.2, 0.5, 1)),
        func_cycle=g.choice((1, 1, 2, 5, 10, 30, g.randint(1, 60))),
        fixed=g.choice(("yes", "no", "no")),
        fixed_cycle=g.choice((0, 0, 0, 1, 2, 3)),
        continuous_duty_cycle=g.choice((0, 1)),
        occasional_use=g.choice((1, 1, 1, 0.5, 0.3, 0)),
        flat=g.choice(("no", "no", "no", "yes")),
        thermal_p_var=g.choice((0, 0, 0.1, 0.2, 0.5, 1)),
        pref_index=g.choice((0, 0, 0, 1, 2, 3)),
        wd_we_type=g.choice((2, 2, 2, 0, 1)),
        random_var_w=g.choice((0, 0, 0.1, 0.35, 0.5, 1)),
    )
    p["func_time"] = min(p["func_time"], total, 1440)
    p.update(force)
    for i, w in enumerate(ws):
        p[f"window_{i + 1}"] = wrap_win(g, w)
    fc = p["fixed_cycle"]
    if fc:
        for i in range(1, fc + 1):
            p[f"p_{i}1"] = g.choice((0, 50, 200, 12.5))
            p[f"t_{i}1"] = g.randint(4, 40)
            p[f"p_{i}2"] = g.choice((0, 5, 20, 300))
            p[f"t_{i}2"] = g.randint(4, 40)
            p[f"r_c{i}"] = g.choice((0, 0, 0.1, 0.3, 0.7))
        if g.random() < 0.6:
            p["cw11"] = wrap_win(g, [0, 1440])
        else:
            cut = sorted(g.randint(1, 1439) for _ in range(2))
            parts = [[0, cut[0]], [cut[0], cut[1]], [cut[1], 1440]]
            if fc >= 3:
                p["cw11"], p["cw21"], p["cw31"] = (wrap_win(g, x) for x in parts)
            elif fc == 2:
                p["cw11"], p["cw21"] = wrap_win(g, parts[0]), wrap_win(g, [cut[0], 1440])
                if g.random() < 0.5:
                    p["cw22"] = wrap_win(g, gen_window(g))
            else:
                p["cw11"], p["cw12"] = wrap_win(g, [0, cut[0]]), wrap_win(g, [cut[0], 1440])
    return p


def make_appliance(g, user=None, **force):
    p = gen_params(g, **force)
    if user is None:
        user = User("u", 1, user_preference=g.choice((0, 3)))
    try:
        app = quiet(user.add_appliance, **p)
    except Exception as e:
        if type(e).__name__ == "InvalidWindow":
            raise Skip()
        raise
    return app, p


def run_day(g, app, prof_i=None, bias=None, day_type=None, peak=None, keep=False):
    """one generated day; returns the arguments used"""
    prof_i = g.randint(0, 20) if prof_i is None else prof_i
    day_type = g.randint(0, 1) if day_type is None else day_type
    if peak is None:
        lo = g.randint(0, 1400)
        peak = np.arange(lo, lo + g.choice((1, 2, 10, 120, 400)))
    power = app.power[prof_i]
    SRC.start(g.random(), g.choice((0, 0.3, 0.8)) if bias is None else bias, keep)
    try:
        quiet(app.generate_load_profile, prof_i, peak, day_type, power=power)
    except TOO_DEEP:
        raise Skip()
    finally:
        SRC.stop()
    return prof_i, peak, day_type, float(power)


# an event that overlaps no cycle window is drawn again, without end when there is none that does
TOO_DEEP = (RecursionError, SystemError)
EPS = 1e-6


def close(a, b, tol=EPS):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def unit_multiple(x, P, v, n):
    """is x = k*P*(1 +- v) for a whole k in 1..n"""
    for k in range(1, n + 1):
        lo, hi = k * P * (1 - v), k * P * (1 + v)
        if lo - EPS * max(1, abs(lo)) <= x <= hi + EPS * max(1, abs(hi)):
            return True
    return False


def show(p):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in p.items()}


def in_win(m, ws):
    return any(a <= m < b for a, b in ws)


CASES = {}


def case(prop, weight=1):
    def deco(f):
        CASES.setdefault(prop, []).append((f, weight))
        return f

    return deco


def require(ok, msg, **info):
    if not ok:
        raise Violation(msg, **info)
