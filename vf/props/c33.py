"""C33 Results scale with the units of length and time on any planet"""
from hypothesis import strategies as st
from .. import build as B, gen as G, physics
from ..core import *

SUITE = Suite("C33")

powers = st.integers(-6, 6).map(lambda k: 2.**k)
units = st.one_of(
    st.fixed_dictionaries({"L": powers, "T": powers, "exact": st.just(True)}),
    st.fixed_dictionaries({"L": G.logu(0.02, 50.), "T": G.logu(0.02, 50.), "exact": st.just(False)}))

RADIUS = G.weighted((3, st.just(G.EARTH_R)), (1, st.just(1.)), (2, G.logu(1e5, 1e8)))

def run(func, c, eps):
    g = c["s"]["g"] if "s" in c else c["g"]
    u = c["units"]
    trivial(u["L"] == 1. and u["T"] == 1.)
    label("length" if u["L"] != 1 else "", "time" if u["T"] != 1 else "", "exact" if u["exact"] else "any")
    a = physics.Planet(g, exact=u["exact"])
    b = physics.Planet(g, u["L"], u["T"], exact=u["exact"])
    func(a, c)
    func(b, c)
    physics.compare(a, b, 1e-6 if u["exact"] else eps, "other units")
    return a, b

def operation_cases(extra, nmin=4):
    return st.fixed_dictionaries({"g": G.grids(nmin, 20, 40, rad=RADIUS), "a": G.any_fields(), "b": G.any_fields(), "mean": G.weighted((2, st.just(0.)), (1, G.sym(2.))),
        "generic": st.booleans(), "fd": st.sampled_from([2, 4]), "add": st.sampled_from([0.5, 3.7, 100., -0.7, -4.1]), "diff": G.logu(1e-3, 1e2), "order": st.integers(1, 4),
        "areas": st.lists(G.uni(0., 1.), min_size=1, max_size=6), "width": G.uni(1., 90.),
        "at": st.integers(0, 200), "above": st.sampled_from([0., 1e-5, -1e-5, 1e-9, -1e-9, 1e-3]), **extra})

@SUITE.test(operation_cases({"units": units}), 500, 12000)
def grid_operations(c):
    """All operators of a grid on the same fields and the same planet in two systems of units (powers of two, for which
    the arithmetic is exactly the same, or any). Non-trivial unless the units are the same."""
    run(physics.grid_operations, c, B.tol(c["g"]["n"]) * 0.6)

def state_cases(extra, nmin=4):
    return st.fixed_dictionaries({"s": G.states(nmin, 16, 30, time=False, rad=RADIUS), "t0": st.sampled_from([0., 1., -3.5, 1e4]), "how": st.sampled_from(["pv", "spectral", "vorticity", "wind"]),
        "a": G.any_fields(), "rough": st.sampled_from([0., 0., 0.01, 0.1]), "generic": st.booleans(), "fd": st.sampled_from([2, 4]), "range": st.sampled_from([[0, 3], [2, 4], [1, 8]]),
        "min_u": G.logu(1e-6, 1e-1), "kw": st.integers(1, 8), **extra})

@SUITE.test(state_cases({"units": units}), 300, 8000)
def states_and_diagnostics(c):
    """All fields and diagnostics of states."""
    run(physics.state_fields, c, B.tol(c["s"]["g"]["n"]) * 0.6)

terms = st.one_of(
    st.fixed_dictionaries({"k": st.just("relax"), "rate": G.logu(1e-3, 1.), "f": G.any_fields()}),
    st.fixed_dictionaries({"k": st.sampled_from(["gauss", "sine", "field"]), "h": G.logu(1e-2, 0.5), "H": G.logu(1e-4, 1e4), "wind": st.sampled_from(["act", "zon", "sbr"]),
        "fcor": st.sampled_from([0, 0, 0.5, -1.]), "lat": G.uni(-60., 60.), "i": st.integers(0, 80), "sd": st.tuples(G.uni(10., 60.), G.uni(10., 60.)).map(list), "m": st.integers(1, 6),
        "f": G.sh_fields(4), "off": st.one_of(st.none(), st.sampled_from([0.5, 1.5, 2.5]))}))

def run_cases(extra, nmin=4):
    return st.fixed_dictionaries({"s": G.states(nmin, 14, 24, time=False, rad=RADIUS), "t0": st.sampled_from([0., 1., -3., 256.]), "how": st.sampled_from(["pv", "spectral", "vorticity", "wind"]),
        "a": G.any_fields(), "rough": st.sampled_from([0., 0., 0.01]), "generic": st.booleans(), "rhs": st.lists(terms, max_size=3), "cfl": G.logu(0.01, 0.2), "steps": st.integers(1, 5),
        "save": st.sampled_from([0.01, 1.7, 2.6]), "diff": G.weighted((1, st.just(0.)), (2, G.logu(1e-3, 10.))), "order": st.integers(1, 4), "bg": st.one_of(st.none(), G.sh_fields(3)), **extra})

@SUITE.test(run_cases({"units": units}), 300, 8000)
def integrations(c):
    """Forced and diffusive model runs: same states at the same (scaled) times."""
    run(physics.integrations, c, B.tol(c["s"]["g"]["n"]))

def preset_cases(extra, nmin=4):
    return st.fixed_dictionaries({"g": G.grids(nmin, 24, 60, rad=RADIUS), "U": G.logu(0.1, 100.), "lat": G.uni(-80., 80.), "sd": G.uni(3., 40.), "B": G.sym(2.), "C": G.sym(12.),
        "a": G.sh_fields(6, mmax=0), "b": G.sh_fields(6, mmax=0), **extra})

@SUITE.test(preset_cases({"units": units}), 200, 4000)
def initial_conditions(c):
    """All presets with wind speeds in the respective units."""
    run(physics.presets, c, B.tol(c["g"]["n"]) * 0.6)
