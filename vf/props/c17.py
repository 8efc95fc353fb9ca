"""C17 A model run stops, saves and timestamps exactly as requested"""
import datetime
import math
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C17")

@st.composite
def cases(draw, datetimes=False):
    s = draw(G.states(3, 9, None, max_atoms=3))
    # All times in units of dt/8, so that floating point arithmetic is exact
    exact = draw(st.integers(0, 4)) > 0
    return {"s": s, "cfl": draw(G.logu(0.01, 0.2)), "exact": exact, "type": draw(st.sampled_from(["float", "float", "int", "mixed"])),
            "t0": draw(G.weighted((2, st.just(0)), (2, st.integers(-100, 100)), (2, st.integers(-10**6, 10**6)))),
            "shift": draw(st.sampled_from([8, -8, 3, 1000, -4444, 10**6])),
            "len": draw(G.weighted((1, st.integers(-20, 0)), (2, st.integers(0, 12).map(lambda k: 8 * k)), (3, st.integers(1, 100)))),
            "save": draw(G.weighted((1, st.just(None)), (1, st.just(0)), (2, st.integers(1, 12).map(lambda k: 4 * k)), (3, st.integers(1, 60)), (1, st.integers(60, 400)))),
            "rhs": draw(st.sampled_from(["none", "relax", "none"])), "diff": draw(st.booleans()), "kw": draw(st.booleans())}


class Counter(bt.rhs.RHS):
    """Ends runs that do not stop"""
    def __init__(self, limit, term=None):
        self.limit, self.term = limit, term
        self.calls = 0
    def __call__(self, state):
        self.calls += 1
        if self.calls > self.limit:
            raise Violation(f"run does not stop, at t = {state.time} after {self.limit} evaluations of the tendency")
        return np.zeros(state.grid.shape) if self.term is None else self.term(state)


class Setup:
    def __init__(self, c):
        s = c["s"]
        g = self.g = s["g"]
        r = B.rad(g)
        self.grid = B.make_grid(g)
        self.f = f = B.flow_of(s)
        dt = c["cfl"] * r / (g["n"] * (f.scale_u + (abs(B.om(g)) + 1e-9) * r))
        self.exact = True
        if c["type"] == "int" and dt >= 8:
            dt = int(2**math.floor(math.log2(dt)))
            self.unit = dt // 8
        elif c["exact"]:
            dt = 2.**math.floor(math.log2(dt))
            self.unit = dt / 8
            if c["type"] == "mixed" and dt >= 1:
                dt = int(dt)
        else:
            dt = float("%.5g" % dt)
            self.exact = False
            self.unit = dt / 8 * 1.0003
        self.dt = dt
        self.nmax = max(0, math.ceil(c["len"] / 8)) + 2
        term = None
        if c["rhs"] == "relax":
            term = bt.rhs.LinearRelaxation(0.05 / dt, 0.5 * f.pv)
        self.counter = Counter(10 * self.nmax + 10, term)
        self.model = bt.BarotropicModel(rhs=self.counter, diffusion_coeff=0.01 * r**4 / dt / g["n"]**4 if c["diff"] else 0.)
        self.scale = 2 * f.scale_pv
        self.tol = 1e-5 * self.scale

    def state(self, t0):
        return bt.State(self.grid, t0, pv=self.f.pv)

    def run(self, func, *args, **kw):
        self.counter.calls = 0
        out = func(*args, **kw)
        require(isinstance(out, tuple) and len(out) == 2, "run does not return a 2-tuple")
        return out


def expected(x, state, tend, save):
    """Steps of the run by hand: (filtered) states until the end and the ones to be saved; None if the schedule depends on rounding"""
    x.counter.calls = 0
    states = [state]
    old, now = state, x.model.euler(state, x.dt)
    eps = 1e-6 * (x.dt if not isinstance(x.dt, datetime.timedelta) else x.dt.total_seconds())
    ambiguous = False
    def seconds(d):
        return d.total_seconds() if isinstance(d, datetime.timedelta) else d
    while states[-1].time < tend:
        old, now = x.model.leapfrog(old, now)
        states.append(old)
        if 0 < abs(seconds(old.time - tend)) < eps:
            ambiguous = True
    saved = [states[0]]
    if save:
        t = [seconds(s.time - state.time) for s in states]
        # First state at or after each multiple of the interval since the start
        idx = set()
        k = 1
        while k * save <= t[-1] + eps:
            i = next((i for i in range(1, len(t)) if t[i] >= k * save), None)
            if any(0 < abs(t_ - k * save) < eps for t_ in t):
                ambiguous = True
            if i is not None:
                idx.add(i)
            k += 1
        saved += [states[i] for i in sorted(idx)]
    return (states, saved, ambiguous)

def equal(x, got, want, what, shift=None):
    require(isinstance(got, bt.State), f"{what}: not a State")
    close(got.pv_spectral, want.pv_spectral, x.tol, f"pv_spectral ({what})", kind="c")
    if shift is None:
        if isinstance(want.time, datetime.datetime):
            require(got.time == want.time, f"{what}: time {got.time} instead of {want.time}")
        else:
            close(got.time, want.time, 1e-9 * (abs(want.time) + x.dt), f"time ({what})")

def compare(x, out, states, saved, what, shift=None):
    last, lst = out
    equal(x, last, states[-1], f"final state, {what}", shift)
    require(isinstance(lst, bt.StateList), f"{what}: saved states are no StateList")
    require(len(lst) == len(saved), lambda: f"{what}: saved {[s.time for s in lst]} instead of {[s.time for s in saved]}")
    for a, b in zip(lst, saved):
        equal(x, a, b, f"saved state, {what}", shift)

@SUITE.test(cases(), 800, 16000)
def schedules(c):
    """Runs from any start time with any combination of step size, end time (exact multiples, in between, in the past) and saving interval
    (0, fractions and multiples of the step, longer than the run), all in eighths of the step so that comparisons are exact (else
    roundings decide and the case is trivial); against steps taken by hand and the stated schedule. Shifted start, repetition, state
    and list shortcuts. Non-trivial with at least two steps."""
    x = Setup(c)
    u = x.unit
    t0, tend = c["t0"] * u, (c["t0"] + c["len"]) * u
    if not x.exact and abs(c["t0"]) > 10**4:
        t0, tend = 0., c["len"] * u
    save = None if c["save"] is None else c["save"] * u
    state = x.state(t0)
    states, saved, ambiguous = expected(x, state, tend, save)
    if ambiguous:
        return trivial()
    trivial(len(states) < 3)
    label("save " + ("default" if save is None else "off" if not save else "every step or more" if save <= x.dt else "some"), type(x.dt).__name__,
          "past" if c["len"] <= 0 else "multiple" if c["len"] % 8 == 0 else "between", "exact" if x.exact else "inexact")
    # Times by exact arithmetic
    if x.exact:
        k = max(0, -(-c["len"] // 8))
        require(len(states) == k + 1 and states[-1].time == t0 + k * x.dt, lambda: f"time {states[-1].time} after {len(states) - 1} steps of {x.dt} from {t0}")
    kw = {} if save is None else {"save_every": save}
    before = np.array(state.pv_spectral)
    compare(x, x.run(x.model.run, state, x.dt, tend, **kw), states, saved, "run")
    if c["kw"]:
        compare(x, x.run(x.model.run, state_init=state, dt=x.dt, tend=tend, **kw), states, saved, "run with keywords")
    else:
        args = () if save is None else (save,)
        compare(x, x.run(x.model.run, state, x.dt, tend, *args), states, saved, "second run")
    compare(x, x.run(state.run, x.model, x.dt, tend, **kw), states, saved, "State.run")
    close(state.pv_spectral, before, 0., "initial state after run", kind="c")
    require(state.time == t0, "time of initial state after run")
    # Other start time
    d = c["shift"] * u
    if x.exact and (t0 + d) - d == t0:
        other = x.state(t0 + d)
        out = x.run(x.model.run, other, x.dt, tend + d, **kw)
        compare(x, out, states, saved, "shifted run", shift=d)
        require([s.time - d for s in out[1]] == [s.time for s in saved] and out[0].time - d == states[-1].time, "times of the shifted run")
    # List of two states
    second = bt.State(x.grid, t0, pv=0.7 * x.f.vo + x.f.f)
    other, osaved, _ = expected(x, second, tend, save)
    last, lists = x.run(bt.StateList([state, second]).run, x.model, x.dt, tend, **kw)
    require(isinstance(last, bt.StateList) and len(last) == 2 and len(lists) == 2, "result of StateList.run")
    compare(x, (last[0], lists[0]), states, saved, "StateList.run")
    compare(x, (last[1], lists[1]), other, osaved, "StateList.run")

@SUITE.test(st.fixed_dictionaries({"s": G.states(3, 8, rad=st.sampled_from([G.EARTH_R, 1e7]), max_atoms=3), "start": st.integers(-10**9, 10**9), "cfl": G.logu(0.01, 0.2),
        "ms": st.integers(0, 999), "len": G.weighted((1, st.integers(-20, 0)), (2, st.integers(0, 10).map(lambda k: 8 * k)), (3, st.integers(1, 80))),
        "save0": st.booleans(), "zones": st.one_of(st.none(), st.none(), st.tuples(st.integers(-12, 12), st.integers(-12, 12)).map(list))}), 250)
def datetimes(c):
    """Datetimes (partly with time zones) and timedeltas give the fields of the run in seconds; times are exact."""
    c = dict(c, exact=True, type="float", rhs="none", diff=True)
    x = Setup(c)
    # Whole milliseconds, divisible by 8
    sec = max(0.008, round(x.dt * 125) / 125.)
    if sec > 1e7:
        sec = 1e7
    step = datetime.timedelta(milliseconds=round(sec * 1000))
    unit = step / 8
    t0 = B.BASE_TIME + datetime.timedelta(seconds=c["start"], milliseconds=c["ms"])
    tend = t0 + c["len"] * unit
    if c["zones"] is not None:
        # Same times, but shown in different time zones
        label("time zones")
        a, b = [datetime.timezone(datetime.timedelta(hours=h)) for h in c["zones"]]
        t0, tend = [t.replace(tzinfo=datetime.timezone.utc).astimezone(z) for t, z in ((t0, a), (tend, b))]
    k = max(0, -(-c["len"] // 8))
    trivial(k < 2)
    # In seconds
    x.dt = step.total_seconds()
    num = x.state(0.)
    states, saved, ambiguous = expected(x, num, k * x.dt - (0.5 * x.dt if k else 1.), None)
    require(len(states) == k + 1, "number of steps in seconds")
    kw = {"save_every": 0} if c["save0"] else {}
    state = x.state(t0)
    for what, out in (("datetimes", x.run(x.model.run, state, step, tend, **kw)), ("datetimes, State.run", x.run(state.run, x.model, step, tend, **kw))):
        compare(x, out, states, saved, what, shift=0)
        require(out[0].time == t0 + k * step, lambda: f"{what}: time {out[0].time} instead of {t0 + k * step}")
        require(out[1][0].time == t0, f"{what}: time of the saved initial state")
    last, lists = x.run(bt.StateList([state]).run, x.model, step, tend, **kw)
    require(last[0].time == t0 + k * step, "time after StateList.run")

SECONDS = {"MIN": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800}

@SUITE.test(st.fixed_dictionaries({"n": st.integers(2, 5), "t0": st.integers(-1000, 1000), "dt": st.tuples(st.sampled_from(sorted(SECONDS)), st.integers(1, 10)).map(list),
        "tend": st.tuples(st.integers(0, 3), st.integers(0, 30)).map(list), "save": st.tuples(st.integers(0, 3), st.integers(0, 12)).map(list)}), 150)
def units(c):
    """Start, step, end and saving interval of runs from rest as multiples of the time constants of the package, against the schedule in seconds."""
    grid = bt.Grid(180. / c["n"])
    (a, i), (b, j), (d, k) = c["dt"], c["tend"], c["save"]
    dt = i * SECONDS[a]
    # Not more than 40 steps
    fit = [u for u in SECONDS if SECONDS[u] <= 40 * dt]
    b, d = fit[-1 - b % len(fit)], fit[-1 - d % len(fit)]
    j = min(j, 40 * dt // SECONDS[b])
    t0 = c["t0"]
    model = bt.BarotropicModel(diffusion_coeff=0.)
    state = bt.State(grid, t0 * bt.DAY, pv=grid.fcor2)
    last, saved = model.run(state, i * getattr(bt, a), t0 * bt.DAY + j * getattr(bt, b), save_every=k * getattr(bt, d))
    length, save = j * SECONDS[b], k * SECONDS[d]
    steps = -(-length // dt)
    trivial(steps < 2)
    close(last.time, t0 * 86400 + steps * dt, 0., "final time")
    times = [t0 * 86400 + (1 + i) * dt for i in range(steps) if save and ((i + 1) * dt) // save > (i * dt) // save]
    require([s.time for s in saved] == [t0 * 86400, *times], lambda: f"saved {[s.time for s in saved]} instead of {[t0 * 86400, *times]}")

@SUITE.test(st.fixed_dictionaries({"s": G.states(3, 6, None, max_atoms=2), "n2": st.integers(3, 6), "runs": st.lists(st.fixed_dictionaries({
        "t0": st.sampled_from([0, 0, 8, 4, -16, 24, 40, 800, 3]), "len": G.weighted((1, st.integers(-10, 0)), (4, st.integers(8, 60))),
        "save": st.sampled_from([0, 8, 12, 16, 20, 24, 40, 1, 400]), "dt": st.sampled_from([1, 1, 1, 0.5, 2]), "other": st.booleans(), "via": st.booleans(),
        "from": st.sampled_from(["same", "last", "same", "saved"])}), min_size=2, max_size=4)}), 200)
def sequence(c):
    """Several runs with one model, from the same state or continued from the result of the previous one, with different start times,
    steps, saving intervals and grids: each like that of a new model."""
    x = Setup({**c, "cfl": 0.05, "type": "float", "exact": True, "rhs": "none", "diff": True, "len": 200})
    r = B.rad(c["s"]["g"])
    kw = {"diffusion_coeff": x.model.diffusion_coeff}
    model = bt.BarotropicModel(**kw)
    g2 = {**c["s"]["g"], "n": c["n2"], "nt": None}
    grid = B.make_grid(g2)
    last, saved = None, []
    done = 0
    for i, run in enumerate(c["runs"]):
        u = x.unit * run["dt"]
        dt = 8 * u
        if run["from"] == "same" or last is None:
            if run["other"]:
                state = bt.State(grid, run["t0"] * x.unit, pv=B.Flow(g2, [], 0.3 * abs(x.f.scale_u)).pv)
            else:
                state = x.state(run["t0"] * x.unit)
        else:
            state = last if run["from"] == "last" else saved[-1]
        start = state.time
        tend, save = start + run["len"] * u, run["save"] * u
        ref = Setup.__new__(Setup)
        ref.__dict__.update(x.__dict__, dt=dt, model=bt.BarotropicModel(**kw))
        ref.counter = Counter(1000)
        states, want, ambiguous = expected(ref, state, tend, save)
        if ambiguous:
            break
        done += len(states) > 2
        out = state.run(model, dt, tend, save_every=save) if run["via"] else model.run(state, dt, tend, save)
        compare(ref, out, states, want, f"run {i + 1} with one model")
        last, saved = out
    trivial(done < 2)

@SUITE.test(st.fixed_dictionaries({"s": G.states(3, 5, None, max_atoms=4), "steps": st.integers(40, 300), "save": st.sampled_from([0, 8, 400, 100, 60]), "t0": st.integers(-1000, 1000),
        "cfl": G.logu(0.1, 0.4), "rhs": st.sampled_from(["none", "relax"])}), 60, 1200)
def long(c):
    """Runs of up to 300 steps, like steps taken by hand."""
    x = Setup({**c, "type": "float", "exact": True, "diff": True, "len": 8 * c["steps"]})
    state = x.state(c["t0"] * x.unit)
    tend, save = state.time + c["steps"] * x.dt, c["save"] * x.unit
    # Room for roundings in single precision
    x.tol = 1.5 * x.tol
    states, saved, ambiguous = expected(x, state, tend, save)
    require(len(states) == c["steps"] + 1, "number of steps by hand")
    compare(x, x.run(x.model.run, state, x.dt, tend, save), states, saved, "long run")
