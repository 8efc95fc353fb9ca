"""C20 Forcing terms combine by pointwise algebra"""
import copy
import datetime as dt
import functools
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C20")

# Leaves: kind and parameters
fields_ = G.any_fields(max_size=2)
rhs_leaves = st.one_of(
    st.fixed_dictionaries({"k": st.just("relax"), "rate": G.weighted((2, G.logu(1e-7, 1e-3)), (1, st.sampled_from([0, 1, -1e-5, 2]))), "f": fields_, "dtype": G.dtypes,
        "shape": st.sampled_from(["full", "full", "profile", "number"])}),
    st.fixed_dictionaries({"k": st.just("switch"), "tend": G.weighted((2, st.integers(0, 5)), (2, st.tuples(st.integers(0, 5), st.sampled_from([-1e-3, 1e-3, 300.])).map(list)))}),
    st.fixed_dictionaries({"k": st.just("mountain"), "lat": G.uni(-80., 80.), "wind": st.sampled_from(["act", "zon", "sbr"])}),
    st.fixed_dictionaries({"k": st.just("custom"), "what": st.sampled_from(["pv", "u", "v", "vorticity", "one", "lat"])}))
plain_leaves = st.fixed_dictionaries({"k": st.just("plain"), "what": st.sampled_from(["pv", "u", "streamfunction", "const", "time", "int"]), "a": G.sym(3.),
    "as": st.sampled_from(["lambda", "partial", "object", "bound"])})

def trees(depth, leaves=1):
    """Trees whose value is a forcing term"""
    leaf = rhs_leaves
    if depth == 0:
        return leaf
    sub = trees(depth - 1)
    op = st.sampled_from(["+", "*", "+=", "*="])
    node = st.tuples(op, sub, sub).map(list)
    left = st.tuples(op, sub, plain_leaves).map(list)
    right = st.tuples(st.sampled_from(["+", "*"]), plain_leaves, sub).map(list)
    return G.weighted((leaves, leaf), (3, node), (2, left), (2, right))

class Attr(bt.rhs.RHS):
    def __init__(self, what):
        self.what = what
    def __call__(self, state):
        return value_of(self.what, state)

class Obj:
    def __init__(self, f):
        self.f = f
    def __call__(self, state):
        return self.f(state)
    def method(self, state):
        return self.f(state)

def value_of(what, state, a=1.):
    if what == "one":
        return 1
    if what == "int":
        return int(round(a))
    if what == "const":
        return a
    if what == "lat":
        return state.grid.lat[:,None] * 1e-6
    if what == "time":
        return a * _seconds(state.time) * 1e-5
    if what == "streamfunction": # stay in the range of single precision
        a = a * 1e-10
    return a * getattr(state, what)

def _seconds(t):
    return t if not isinstance(t, dt.datetime) else (t - B.BASE_TIME).total_seconds()

def switch_time(times, spec):
    """Time given relative to the clock of the states"""
    if isinstance(spec, list):
        t = times[spec[0] % len(times)]
        return t + (dt.timedelta(seconds=spec[1]) if isinstance(t, dt.datetime) else spec[1])
    return times[spec % len(times)]

def build(tree, n, times, made):
    """(term, function state -> (value, magnitude))"""
    if isinstance(tree, list):
        op, a, b = tree
        x, fx = build(a, n, times, made)
        y, fy = build(b, n, times, made)
        if op == "+":
            term = x + y
        elif op == "*":
            term = x * y
        else:
            # Does not alter the original
            term = x
            if op == "+=":
                term += y
            else:
                term *= y
        if op[0] == "+":
            f = lambda s: tuple(p + q for p, q in zip(fx(s), fy(s)))
        else:
            f = lambda s: tuple(p * q for p, q in zip(fx(s), fy(s)))
        made.append((x, fx))
        made.append((term, f))
        return term, f
    k = tree["k"]
    if k == "relax":
        ref = B.field(n, tree["f"]) * 1e-4
        if tree["shape"] == "profile":
            ref = ref[:,:1]
        ref = ref.astype(tree["dtype"])
        if tree["shape"] == "number":
            ref = float(ref[0,0])
        rate = tree["rate"]
        def f(s):
            pv = np.array(s.pv, dtype=float)
            return rate * (np.array(ref, dtype=float) - pv), abs(rate) * (np.abs(ref) + np.abs(pv))
        term = bt.rhs.LinearRelaxation(rate, ref)
    elif k == "switch":
        tend = switch_time(times, tree["tend"])
        def f(s):
            v = 0. if s.time > tend else 1.
            return v, v
        term = bt.rhs.TimedOffSwitch(tend)
    elif k == "mountain":
        kw = dict(center=(30., tree["lat"]), wind=(tree["wind"], 1.))
        def f(s):
            v = np.array(bt.rhs.GaussianMountain(**kw)(s), dtype=float)
            return v, np.abs(v)
        term = bt.rhs.GaussianMountain(**kw)
    elif k == "custom":
        def f(s):
            v = np.array(value_of(tree["what"], s), dtype=float)
            return v, np.abs(v)
        term = Attr(tree["what"])
    else:
        fun = lambda s: value_of(tree["what"], s, tree["a"])
        def f(s):
            v = np.array(fun(s), dtype=float)
            return v, np.abs(v)
        term = {"lambda": fun, "partial": functools.partial(lambda x, s: fun(s), None), "object": Obj(fun), "bound": Obj(fun).method}[tree["as"]]
        return term, f
    made.append((term, f))
    return term, f

def count(tree):
    return 1 + count(tree[1]) + count(tree[2]) if isinstance(tree, list) else 0

def kinds(tree):
    return kinds(tree[1]) | kinds(tree[2]) | {tree[0]} if isinstance(tree, list) else {tree["k"]}

@st.composite
def algebra_cases(draw):
    g = draw(G.grids(2, 12))
    nt = G.res_of(g)
    flows = draw(st.lists(G.flows(nt, 2), min_size=1, max_size=3))
    clock = draw(st.sampled_from(["f", "i", "dt"]))
    times = draw(st.lists(st.integers(-20, 20).map(lambda i: i * 300), min_size=1, max_size=5))
    return {"g": g, "flows": flows, "times": times, "clock": clock, "tree": draw(trees(3, 0)), "order": draw(st.permutations(range(4)))}

def clock_times(c):
    return [B.BASE_TIME + dt.timedelta(seconds=t) if c["clock"] == "dt" else float(t) if c["clock"] == "f" else t for t in c["times"]]

def same(term, f, state, what):
    want, mag = f(state)
    want, mag = np.broadcast_arrays(want, mag)
    close(term(state), want, 3e-6 * np.maximum(mag, np.max(mag) * 1e-6) + 1e-28, what)

@SUITE.test(algebra_cases(), 900, 20000, fine=(12, FINE))
def algebra(c):
    """Expression trees (up to 7 operations) of forcing terms and plain callables on either side, evaluated for several states and times;
    all subterms still mean the same afterwards. """
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    times = clock_times(c)
    states = []
    for i, t in enumerate(times):
        f = c["flows"][i % len(c["flows"])]
        states.append(bt.State(grid, t, pv=B.Flow(c["g"], f["vo"], f["U"]).pv))
    made = []
    term, f = build(c["tree"], n, times, made)
    require(isinstance(term, bt.rhs.RHS), "combination is not a forcing term")
    label(f"{count(c['tree'])} operations", *kinds(c["tree"]))
    guard = Guard(*[s.pv for s in states], *[s.u for s in states])
    for s in states:
        same(term, f, s, "value")
    for t, h in made:
        same(t, h, states[-1], "subterm")
    guard.check("forcing")
    # Term of terms, in both orders
    same(term + term, lambda s: tuple(2 * x for x in f(s)), states[0], "sum with itself")
    same(term * term, lambda s: tuple(x * x for x in f(s)), states[0], "product with itself")

@st.composite
def chain_cases(draw):
    c = draw(algebra_cases())
    parts = draw(st.lists(trees(0), min_size=10, max_size=50))
    tree = parts[0]
    right = draw(st.booleans())
    for i, t in enumerate(parts[1:]):
        # Products of few factors
        op = "+" if i % 7 else draw(st.sampled_from(["+", "*", "+="]))
        tree = [op, t, tree] if right else [op, tree, t]
    c["tree"] = tree
    return c

@SUITE.test(chain_cases(), 30)
def chains(c):
    """As algebra, with chains of 10 to 50 terms nested to either side."""
    algebra(c)

@st.composite
def laws_cases(draw):
    return {"s": draw(G.states(2, 10, time=False)), "t": draw(st.lists(trees(1), min_size=3, max_size=3))}

@SUITE.test(laws_cases(), 300)
def laws(c):
    """Commutativity, associativity and distributivity up to rounding."""
    state = B.make_state(c["s"])
    n = c["s"]["g"]["n"]
    (x, fx), (y, fy), (z, fz) = [build(t, n, [state.time], []) for t in c["t"]]
    a, b, d = [np.asarray(h(state)[1]) for h in (fx, fy, fz)]
    def eq(p, q, mag, what):
        p, q, mag = np.broadcast_arrays(np.asarray(p(state)), np.asarray(q(state)), mag)
        close(p, q, 3e-6 * np.maximum(mag, np.max(mag) * 1e-6) + 1e-28, what)
    eq(x + y, y + x, a + b, "x + y")
    eq(x * y, y * x, a * b, "x * y")
    eq((x + y) + z, x + (y + z), a + b + d, "x + y + z")
    eq((x * y) * z, x * (y * z), a * b * d, "x * y * z")
    eq(x * (y + z), x * y + x * z, a * (b + d), "x * (y + z)")

@SUITE.test(st.fixed_dictionaries({"clock": st.sampled_from(["f", "i", "mix", "dt", "dt64", "zone"]), "tend": st.integers(-10**7, 10**7),
        "d": st.lists(st.integers(-3, 3), min_size=1, max_size=8), "scale": st.sampled_from([1, 1e-3, 60, 86400, 1e-4, 1e-6])}), 400)
def switch(c):
    """Switch for numeric and datetime clocks at, around and away from the switch-off time, in any order of evaluation."""
    def clock(x):
        if c["clock"] == "i":
            return int(round(x))
        if c["clock"] in ("f", "mix"):
            return float(x)
        t = B.BASE_TIME + dt.timedelta(seconds=x)
        return t.replace(tzinfo=dt.timezone.utc) if c["clock"] == "zone" else t if c["clock"] == "dt" else np.datetime64(t)
    tend = c["tend"]
    off = clock(tend) if c["clock"] != "mix" else int(tend)
    if c["clock"] == "zone":
        # The same time in another time zone
        off = off.astimezone(dt.timezone(dt.timedelta(hours=len(c["d"]) - 3, minutes=30)))
    term = bt.rhs.TimedOffSwitch(off)
    grid = bt.Grid(45.)
    label(c["clock"])
    trivial(0 not in c["d"] and len({x > 0 for x in c["d"]}) < 2)
    for d in c["d"]:
        t = clock(tend + d * c["scale"])
        got = term(bt.State(grid, t, pv=grid.fcor2))
        want = 0 if t > clock(tend) else 1
        close(float(got), float(want), 0., "switch")

@st.composite
def run_cases(draw):
    clock = draw(st.sampled_from(["f", "i", "dt"]))
    s = draw(G.states(4, 12, time=False, planet=False, low=4))
    s["U"] = min(s["U"], 30.)
    return {"s": s, "clock": clock, "dt": draw(st.sampled_from([60, 300, 600, 900.5, 0.1] if clock != "i" else [60, 300])), "t0": draw(st.sampled_from([0, 3600, -7200, 10**6])),
        "off": draw(G.weighted((3, st.integers(-1, 8)), (2, st.integers(-10, 80).map(lambda i: i / 10.)))), "steps": draw(st.integers(1, 8)),
        "force": draw(st.sampled_from(["mountain", "relax", "plain", "sum"])), "side": draw(st.booleans())}

@SUITE.test(run_cases(), 200, 4000, fine=(8, FINE))
def switched_run(c):
    """Runs with a switched forcing against steps of a forced and an unforced model, chosen by the clock; numeric and datetime.
    Non-trivial if both regimes occur."""
    g = c["s"]["g"]
    grid = B.make_grid(g)
    n = g["n"]
    f = B.flow_of(c["s"])
    t0 = float(c["t0"]) if c["clock"] == "f" else c["t0"]
    dt_ = c["dt"]
    off = c["off"] * c["dt"]
    if c["clock"] == "i":
        off = int(off)
    tend = t0 + (c["steps"] - 0.5) * c["dt"]
    if c["clock"] == "dt":
        t0 = B.BASE_TIME + dt.timedelta(seconds=c["t0"])
        dt_ = dt.timedelta(seconds=c["dt"])
        off, tend = t0 + dt.timedelta(seconds=off), t0 + dt.timedelta(seconds=(c["steps"] - 0.5) * c["dt"])
    else:
        off = t0 + off
    state = bt.State(grid, t0, pv=f.pv)
    mountain = bt.rhs.GaussianMountain(height=3000.)
    relax = bt.rhs.LinearRelaxation(1e-5, grid.fcor2)
    plain = lambda s: 1e-9 * np.sin(2 * grid.lam2) * np.cos(grid.phi2)
    force = {"mountain": mountain, "relax": relax, "plain": plain, "sum": mountain + relax}[c["force"]]
    switch = bt.rhs.TimedOffSwitch(off)
    forced, free = bt.BarotropicModel(rhs=force), bt.BarotropicModel()
    model = bt.BarotropicModel(rhs=switch * force if c["side"] else force * switch)
    numeric = c["clock"] != "dt"
    last, saved = model.run(state, dt_, tend, save_every=c["dt"] if numeric else 0)
    pick = lambda s: free if s.time > off else forced
    used = [pick(state)]
    old, now = state, pick(state).euler(state, dt_)
    want = [state]
    while old.time < tend:
        used.append(pick(now))
        old, now = pick(now).leapfrog(old, now)
        want.append(old)
    trivial(len({id(m) for m in used}) < 2)
    label(c["clock"], c["force"], "both" if len({id(m) for m in used}) == 2 else "one")
    scale = 2e-6 * max(f.scale_pv, 1e-4)
    require(last.time == want[-1].time, "time of final state")
    close(last.pv, want[-1].pv, scale, "final state")
    if numeric:
        by_time = {w.time: w for w in want}
        for s in saved:
            require(s.time in by_time, lambda: f"saved time {s.time}")
            close(s.pv, by_time[s.time].pv, scale, "saved state")
