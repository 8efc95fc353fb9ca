"""C34 All longitudes and both hemispheres are treated alike"""
from hypothesis import strategies as st
from .. import build as B, gen as G, physics
from ..core import *
from .c33 import operation_cases, state_cases, run_cases, preset_cases

SUITE = Suite("C34")

views = st.fixed_dictionaries({"k": st.one_of(st.just(0), st.integers(1, 80)), "mirror": st.booleans()})

def run(func, c, eps):
    g = c["s"]["g"] if "s" in c else c["g"]
    v = c["view"]
    k = v["k"] % (2 * g["n"])
    trivial(k == 0 and not v["mirror"])
    label("rotated" if k else "", "reflected" if v["mirror"] else "")
    a = physics.Planet(g, exact=False)
    # Choose operations for the same transformation
    b = physics.Planet(g, k=k, mirror=v["mirror"], exact=False)
    func(a, c)
    func(b, c)
    for name in set(a.out) - set(b.out) if v["mirror"] else ():
        del a.out[name]
    physics.compare(a, b, eps, "rotated" if not v["mirror"] else "reflected")

@SUITE.test(operation_cases({"view": views}), 500, 12000)
def grid_operations(c):
    """All operators of a grid on rotated and reflected fields. Non-trivial unless nothing is rotated or reflected."""
    run(physics.grid_operations, c, B.tol(c["g"]["n"]) * 0.6)

@SUITE.test(state_cases({"view": views}), 300, 8000)
def states_and_diagnostics(c):
    """All fields and diagnostics of rotated and reflected states."""
    run(physics.state_fields, c, B.tol(c["s"]["g"]["n"]) * 0.6)

@SUITE.test(run_cases({"view": views}), 300, 8000)
def integrations(c):
    """Model runs with rotated and reflected states, relaxation targets and mountains."""
    run(physics.integrations, c, B.tol(c["s"]["g"]["n"]))

@SUITE.test(preset_cases({"view": views}), 200, 4000)
def initial_conditions(c):
    """Presets with reflected profiles."""
    run(physics.presets, c, B.tol(c["g"]["n"]) * 0.6)
