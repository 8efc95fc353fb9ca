"""C28 A state list behaves as an immutable sequence that maps over its states"""
import copy
import datetime as dt
import pickle
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C28")

@st.composite
def pools(draw):
    g = draw(G.grids(4, 8))
    return {"g": g, "flows": draw(st.lists(G.flows(G.res_of(g), 2), min_size=1, max_size=3)), "clock": draw(st.sampled_from(["f", "i", "dt"])),
            "times": draw(st.lists(st.integers(-10**5, 10**6), min_size=6, max_size=6)), "grids": draw(st.sampled_from(["same", "equal"]))}

def pool(c):
    """Six different states on the same grid (or equal grids)"""
    grid = B.make_grid(c["g"])
    out = []
    for i in range(6):
        f = c["flows"][i % len(c["flows"])]
        t = c["times"][i]
        t = B.BASE_TIME + dt.timedelta(seconds=t) if c["clock"] == "dt" else float(t) if c["clock"] == "f" else t
        out.append(bt.State(grid if c["grids"] == "same" else B.make_grid(c["g"]), t, pv=B.Flow(c["g"], f["vo"], f["U"] * (1. + 0.3 * i)).pv))
    return out

picks = st.lists(st.integers(0, 5), max_size=6)
containers = st.sampled_from(["list", "tuple", "generator", "statelist"])

def contain(kind, states):
    return {"list": list, "tuple": tuple, "generator": lambda x: (s for s in x), "statelist": bt.StateList}[kind](states)

def same_items(got, want, what):
    got = list(got)
    require(len(got) == len(want), lambda: f"{what}: {len(got)} items instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        require(a is b, lambda: f"{what}: other object at {i}")

ops = st.one_of(
    st.tuples(st.just("index"), st.integers(-8, 8)).map(list),
    st.tuples(st.just("slice"), st.one_of(st.none(), st.integers(-8, 8)), st.one_of(st.none(), st.integers(-8, 8)), st.sampled_from([None, 1, 2, -1])).map(list),
    st.tuples(st.sampled_from(["contains", "find", "count"]), st.integers(0, 5)).map(list),
    st.tuples(st.sampled_from(["iterate", "reversed", "len", "set", "delete", "append", "copy", "deepcopy", "pickle", "repr", "mutate"])).map(list),
    st.tuples(st.just("add"), picks, containers).map(list),
    st.tuples(st.just("rebuild"), containers).map(list))

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "as": containers, "ops": st.lists(ops, min_size=1, max_size=12)}), 600, 12000)
def sequence(c):
    """Histories of up to twelve operations on state lists of up to 6 states (repeated ones too) against a Python tuple. Non-trivial with at least two
    states."""
    states = pool(c["p"])
    model = [states[i] for i in c["init"]]
    source = contain(c["as"], list(model))
    sl = bt.StateList(source)
    biggest = len(model)
    for op in c["ops"]:
        kind = op[0]
        label(kind)
        if kind == "index":
            if -len(model) <= op[1] < len(model):
                require(sl[op[1]] is model[op[1]], f"index {op[1]}")
            else:
                try:
                    sl[op[1]]
                except IndexError:
                    pass
                else:
                    fail(f"index {op[1]} out of range accepted")
        elif kind == "slice":
            s = slice(*op[1:])
            same_items(sl[s], model[s], f"slice {op[1:]}")
        elif kind == "contains":
            require((states[op[1]] in sl) == any(s is states[op[1]] for s in model), "membership")
        elif kind == "find":
            if any(s is states[op[1]] for s in model):
                require(sl.index(states[op[1]]) == [s is states[op[1]] for s in model].index(True), "index()")
            else:
                refused("index() of missing state", sl.index, states[op[1]])
        elif kind == "count":
            require(sl.count(states[op[1]]) == sum(s is states[op[1]] for s in model), "count()")
        elif kind == "iterate":
            same_items(sl, model, "iteration")
            same_items((x for x in sl), model, "second iteration")
        elif kind == "reversed":
            same_items(reversed(sl), model[::-1], "reversed")
        elif kind == "len":
            require(len(sl) == len(model) and bool(sl) == bool(model), "length")
        elif kind == "set":
            def assign():
                sl[0] = states[0]
            refused("assignment", assign)
        elif kind == "delete":
            def delete():
                del sl[0]
            refused("deletion", delete)
        elif kind == "append":
            refused("append", lambda: sl.append(states[0]))
        elif kind == "mutate":
            # Altering what it was built from has no effect
            items = list(model)
            sl = bt.StateList(items)
            items.append(states[0])
            items.reverse()
        elif kind in ("copy", "deepcopy", "pickle"):
            other = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[kind](sl)
            require(isinstance(other, bt.StateList), f"{kind}: {type(other).__name__}")
            if kind == "copy":
                same_items(other, model, "copy")
                sl = other
            else:
                require(len(other) == len(model), f"{kind}: length")
                for a, b in zip(other, model):
                    require(a.time == b.time and a.grid == b.grid, f"{kind}: time or grid")
                    close(a.pv, b.pv, 0., f"{kind} of pv")
        elif kind == "add":
            before = sl
            extra = [states[i] for i in op[1]]
            sl = sl + contain(op[2], extra)
            require(isinstance(sl, bt.StateList), f"concatenation gives {type(sl).__name__}")
            same_items(before, model, "left operand of concatenation")
            model = model + extra
        elif kind == "rebuild":
            sl = bt.StateList(contain(op[1], model))
        elif kind == "repr":
            require(str(len(model)) in repr(sl), f"representation {sl!r}")
        same_items(sl, model, f"after {kind}")
        biggest = max(biggest, len(model))
    trivial(biggest < 2)

OTHERS = ["res", "r", "om", "nt", "none", "number", "array", "list", "grid", "text"]

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "at": st.integers(0, 6), "bad": st.sampled_from(OTHERS), "as": st.sampled_from(["list", "tuple", "generator"])}), 300)
def refusals(c):
    """States on grids that differ in resolution, radius, rotation rate or truncation, objects other than states; at any position, by
    construction and by concatenation. Equal grids are accepted."""
    states = pool(c["p"])
    items = [states[i] for i in c["init"]]
    g = dict(c["p"]["g"])
    kind = c["bad"]
    if kind in ("res", "r", "om", "nt"):
        if not items:
            trivial()
            return
        g.update({"res": {"n": g["n"] + 1}, "r": {"r": B.rad(g) * 1.5}, "om": {"om": B.om(g) + 1e-5}, "nt": {"nt": B.nt(g) - 1}}[kind])
        grid = B.make_grid(g)
        bad = bt.State(grid, 0., pv=grid.fcor2)
    else:
        bad = {"none": None, "number": 3., "array": states[0].pv, "list": [states[0]], "grid": states[0].grid, "text": "state"}[kind]
    label(kind)
    bt.StateList(contain(c["as"], items)) # accepted
    at = c["at"] % (len(items) + 1)
    refused(f"list with {kind}", bt.StateList, contain(c["as"], items[:at] + [bad] + items[at:]))
    refused(f"concatenation with {kind}", lambda: bt.StateList(items) + contain(c["as"], [bad]))

ATTRS = ["pv", "u", "v", "avo", "vo", "vorticity", "streamfunction", "pv_spectral", "vorticity_spectral", "enstrophy", "eddy_enstrophy", "energy", "fawa", "falwa", "falwa_filtered",
    "pv_zonalized", "v_envelope_hilbert", "stationary_wavenumber", "pv_flux_spectral", "time", "tag", "note", "neighbour"]

def check_converted(got, want, what):
    """Container chosen for the results"""
    if all(isinstance(w, np.ndarray) for w in want) and len({w.shape for w in want}) <= 1 or all(isinstance(w, (int, float, complex, np.number)) for w in want):
        require(isinstance(got, np.ndarray), f"{what}: {type(got).__name__} is not an array")
        ref = np.array(want)
        require(got.shape == ref.shape, f"{what}: shape {got.shape} instead of {ref.shape}")
        require(got.dtype == ref.dtype or not want, f"{what}: dtype {got.dtype} instead of {ref.dtype}")
        require(np.array_equal(got, ref, equal_nan=ref.dtype.kind in "fc"), f"{what}: other values or order")
    elif all(isinstance(w, bt.State) for w in want):
        require(isinstance(got, bt.StateList), f"{what}: {type(got).__name__} is not a StateList")
        require(len(got) == len(want), f"{what}: {len(got)} states")
        for a, b in zip(got, want):
            require(a.time == b.time, f"{what}: time")
            close(a.pv, b.pv, 0., f"{what}: pv")
    else:
        require(isinstance(got, list), f"{what}: {type(got).__name__} is not a list")
        require(len(got) == len(want), f"{what}: {len(got)} items")
        for a, b in zip(got, want):
            if isinstance(b, np.ndarray):
                require(isinstance(a, np.ndarray) and np.array_equal(a, b), f"{what}: array item")
            elif isinstance(b, (bt.Grid, bt.State)) or not isinstance(b, (int, float, str, tuple, list, dict, dt.datetime, type(None))):
                require(a is b or type(a) is type(b), f"{what}: item {a!r}")
            else:
                require(a == b, lambda: f"{what}: {a!r} instead of {b!r}")

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "attrs": st.lists(st.sampled_from(ATTRS), min_size=1, max_size=6)}), 350, 8000)
def attributes(c):
    """Attributes, properties and attributes set by the user, in sequence. Non-trivial with at least two states."""
    states = pool(c["p"])
    for i, s in enumerate(states):
        s.tag = 7 * i
        s.note = f"note {i}"
        s.neighbour = states[(i + 1) % 6]
    items = [states[i] for i in c["init"]]
    sl = bt.StateList(items)
    trivial(len(items) < 2)
    for a in c["attrs"]:
        label(a)
        check_converted(getattr(sl, a), [getattr(s, a) for s in items], a)
    if items:
        require(sl.grid is items[0].grid or sl.grid == items[0].grid, "grid")
        try:
            sl.no_such_attribute
        except AttributeError:
            pass
        else:
            fail("unknown attribute accepted")
    else:
        require(sl.grid is None, "grid of empty list")

FUNCS = {
    "array": lambda s, *a, **k: s.u * (1. + sum(a)), "number": lambda s, *a, **k: float(s.pv.max()) + sum(a), "npnumber": lambda s, *a, **k: s.pv.max(), "int": lambda s, *a, **k: int((s.u > 0).sum()) + sum(a),
    "state": lambda s, *a, **k: s.add_vorticity(s.vorticity), "self": lambda s, *a, **k: s, "text": lambda s, *a, **k: f"{s.time} {a} {sorted(k)}", "tuple": lambda s, *a, **k: (s.time, a, tuple(sorted(k.items()))),
    "none": lambda s, *a, **k: None, "mixed": lambda s, *a, **k: float(s.u[0,0]) if s.tag % 2 else s.u, "ragged": lambda s, *a, **k: "x" * s.tag, "complex": lambda s, *a, **k: complex(s.u[1,1], s.tag),
    "dict": lambda s, *a, **k: dict(k, tag=s.tag), "profile": lambda s, *a, **k: s.grid.mean(s.pv, axis="zonal"), "mixstate": lambda s, *a, **k: s if s.tag % 2 else 1., "time": lambda s, *a, **k: s.time,
    "scaled": lambda s, *a, fac=1., **k: (5. if fac is None else fac) * s.v, "default": lambda s, *a, fac=2, **k: str(fac),
    "dtypes": lambda s, *a, **k: np.rint(s.u).astype(int) if s.tag % 2 else s.u, "narrow": lambda s, *a, **k: s.u.astype("f4") if s.tag % 3 else s.u + 0j,
    "numbers": lambda s, *a, **k: 3 * s.tag if s.tag % 2 else 0.25 * s.tag, "flags": lambda s, *a, **k: s.u > 1. if s.tag % 2 else s.v, "letters": lambda s, *a, **k: np.array(["a" * (s.tag + 1), "b"]), "index": lambda s, *a, **k: s.tag,
}

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "f": st.sampled_from(sorted(FUNCS)), "args": st.lists(st.integers(-3, 3), max_size=3),
        "kw": st.dictionaries(st.sampled_from(["fac", "a", "b"]), st.one_of(st.integers(-3, 3), st.none(), st.booleans()), max_size=2)}), 600, 10000)
def mapped(c):
    """Mapped functions with positional and keyword arguments returning arrays, numbers, states and other objects; called once per state and
    in order."""
    states = pool(c["p"])
    for i, s in enumerate(states):
        s.tag = i
    items = [states[i] for i in c["init"]]
    sl = bt.StateList(items)
    calls = []
    f = FUNCS[c["f"]]
    def func(s, *a, **k):
        calls.append(s)
        return f(s, *a, **k)
    label(c["f"])
    trivial(len(items) < 2)
    got = sl.map(func, *c["args"], **c["kw"])
    same_items(calls, items, "calls of the function")
    check_converted(got, [f(s, *c["args"], **c["kw"]) for s in items], c["f"])

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "m": st.sampled_from(["waveguides", "waveguides kw", "add_wind", "add_wind state", "add_vorticity", "hn2016", "hn2016 kw"]), "k": st.integers(1, 6)}), 200, 4000)
def methods(c):
    """Methods of states with arguments."""
    states = pool(dict(c["p"], grids="same"))
    items = [states[i] for i in c["init"]]
    sl = bt.StateList(items)
    label(c["m"])
    trivial(len(items) < 2)
    u = states[0].u
    args, kw = {"waveguides": ((c["k"],), {}), "waveguides kw": ((), {"k": c["k"]}), "add_wind": (((u, 2 * u),), {}), "add_wind state": ((states[3],), {}),
        "add_vorticity": ((states[2].vorticity * c["k"],), {}), "hn2016": ((), {}), "hn2016 kw": ((), {"planet_radius": 6.3e6})}[c["m"]]
    name = {"waveguides": "extract_ks_waveguides", "waveguides kw": "extract_ks_waveguides", "add_wind state": "add_wind", "hn2016": "as_hn2016", "hn2016 kw": "as_hn2016"}.get(c["m"], c["m"])
    got = getattr(sl, name)(*args, **kw)
    want = [getattr(s, name)(*args, **kw) for s in items]
    if name == "as_hn2016" and items:
        require(isinstance(got, list) and len(got) == len(want), "list of fields")
        for a, b in zip(got, want):
            require(np.array_equal(a.pv_field, b.pv_field), "pv of field")
            require(a.planet_radius == b.planet_radius, "option of field")
        return
    check_converted(got, want, name)

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": picks, "dt": st.sampled_from([300, 600.]), "steps": st.integers(0, 4), "save": st.sampled_from([0, 300, 600, None]), "spread": st.sampled_from([0, 0, 900]),
        "kw": st.booleans()}), 150, 3000)
def run(c):
    """Model runs from all states against separate runs, numeric and datetime clocks."""
    p = dict(c["p"], times=[i * c["spread"] for i in range(6)])
    p["flows"] = [dict(f, U=min(f["U"], 30.)) for f in p["flows"]]
    states = pool(p)
    items = [states[i] for i in c["init"]]
    model = bt.BarotropicModel(rhs=bt.rhs.GaussianMountain())
    step, tend = c["dt"], c["steps"] * 600
    save = c["save"]
    if p["clock"] == "dt":
        step, tend, save = dt.timedelta(seconds=step), B.BASE_TIME + dt.timedelta(seconds=tend), None
    trivial(len(items) < 2)
    args = (step, tend) if not c["kw"] else ()
    kw = {"dt": step, "tend": tend} if c["kw"] else {}
    if save is not None:
        kw["save_every"] = save
    last, series = bt.StateList(items).run(model, *args, **kw)
    require(isinstance(last, bt.StateList) and len(last) == len(items), "final states")
    require(isinstance(series, list) and len(series) == len(items), "outputs")
    for i, s in enumerate(items):
        a, b = model.run(s, *args, **kw)
        require(last[i].time == a.time, "final time")
        close(last[i].pv, a.pv, 0., "final state")
        require(isinstance(series[i], bt.StateList) and len(series[i]) == len(b), "number of saved states")
        for x, y in zip(series[i], b):
            require(x.time == y.time, "saved time")
            close(x.pv, y.pv, 0., "saved state")

long_picks = st.lists(st.integers(0, 5), min_size=15, max_size=150)

@SUITE.test(st.fixed_dictionaries({"p": pools(), "init": long_picks, "as": containers, "ops": st.lists(ops, min_size=1, max_size=8), "attrs": st.lists(st.sampled_from(ATTRS), min_size=1, max_size=2),
        "f": st.sampled_from(sorted(FUNCS)), "args": st.just([]), "kw": st.just({})}), 40)
def long_lists(c):
    """As sequence, attributes and mapped, for lists of 15 to 150 states."""
    sequence(c)
    attributes(c)
    mapped(c)
