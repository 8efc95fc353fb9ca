"""C14 Adding winds or vorticity to a state superposes the flows"""
import copy
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt
from .c13 import construct, HOW

SUITE = Suite("C14")

@st.composite
def cases(draw):
    s = draw(G.states(2, 18, 40))
    nt = G.res_of(s["g"])
    return {"s": s, "o": draw(G.flows(nt)), "otime": draw(G.times()), "how": draw(st.sampled_from(HOW)), "ohow": draw(st.sampled_from(HOW)),
            "ratio": draw(G.weighted((3, st.just(1.)), (1, G.logu(0.01, 100.)))), "touch": draw(st.lists(st.sampled_from(["pv", "u", "v", "streamfunction", "vorticity"]), max_size=3)),
            "dtype": draw(G.dtypes), "layout": draw(G.layouts), "zero": draw(st.sampled_from(["no", "no", "no", "s", "o"]))}

def setup(c):
    s = c["s"]
    g = s["g"]
    grid = B.make_grid(g)
    f = B.Flow(g, [] if c["zero"] == "s" else s["vo"], s["U"])
    o = B.Flow(g, [] if c["zero"] == "o" else c["o"]["vo"], s["U"] * c["ratio"])
    prep = lambda a: B.shape_array(a, c["dtype"], c["layout"])
    a = construct(c["how"], grid, B.make_time(s["time"]), f.pv, f.vo, f.u, f.v, prep)
    b = construct(c["ohow"], grid, B.make_time(c["otime"]), o.pv, o.vo, o.u, o.v, prep)
    for name in c["touch"]:
        getattr(a, name)
    return g, grid, f, o, a, b, prep

def check_sum(x, a, g, vo, u, v, tvo, tu, what):
    require(isinstance(x, bt.State) and x is not a, f"{what}: not a new State")
    require(x.time == a.time and type(x.time) is type(a.time), f"{what}: valid time")
    require(x.grid == a.grid, f"{what}: grid")
    close(x.vorticity, vo, tvo, f"vorticity ({what})")
    close(x.pv, vo + B.fcor2(g), tvo, f"pv ({what})")
    close(x.u, u, tu, f"u ({what})")
    close(x.v, v, tu, f"v ({what})")

@SUITE.test(cases(), 700, 15000, fine=(16, FINE))
def superposition(c):
    """Sum of two resolved flows by state, wind components and vorticity field; each operand stays as it was. Non-trivial unless
    one of the flows is zero."""
    g, grid, f, o, a, b, prep = setup(c)
    n, r = g["n"], B.rad(g)
    trivial(not np.any(f.vo) or not np.any(o.vo))
    label(f"{c['how']}+{c['ohow']}")
    vo, u, v = f.vo + o.vo, f.u + o.u, f.v + o.v
    eps = B.tol(n, 3.)
    tvo = eps * (f.scale_vo + o.scale_vo + np.max(np.abs(f.f)))
    tu = eps * (f.scale_u + o.scale_u) + tvo * r
    ou, ov, ovo = prep(o.u), prep(o.v), prep(o.vo)
    # Operands keep their fields
    before = [np.array(x.pv_spectral) for x in (a, b)]
    ta, tb = a.time, b.time
    guard = Guard(ou, ov, ovo)
    calls = {
        "add_vorticity(state)": lambda: a.add_vorticity(b),
        "add_wind(state)": lambda: a.add_wind(b),
        "add_wind(u, v)": lambda: a.add_wind((ou, ov)),
        "add_vorticity(array)": lambda: a.add_vorticity(ovo),
        "add_wind([u, v])": lambda: a.add_wind([ou, ov]),
        "add_wind(own fields)": lambda: a.add_wind((b.u, b.v)),
        "add_vorticity(own fields)": lambda: a.add_vorticity(b.vorticity),
    }
    for what, call in calls.items():
        x = call()
        check_sum(x, a, g, vo, u, v, tvo, tu, what)
        guard.check(what)
    for what, x in (("reversed add_vorticity", b.add_vorticity(a)), ("reversed add_wind", b.add_wind(a))):
        check_sum(x, b, g, vo, u, v, tvo, tu, what)
    for x, s, t in zip((a, b), before, (ta, tb)):
        close(x.pv_spectral, s, 0., "operand after addition", kind="c")
        require(x.time == t, "time of operand after addition")
    close(a.u, f.u, tu, "u of operand")
    close(b.vorticity, o.vo, tvo, "vorticity of operand")
    # Twice the flow
    check_sum(a.add_wind(a), a, g, 2 * f.vo, 2 * f.u, 2 * f.v, tvo, tu, "add_wind(self)")
    check_sum(a.add_vorticity(a), a, g, 2 * f.vo, 2 * f.u, 2 * f.v, tvo, tu, "add_vorticity(self)")

@SUITE.test(cases(), 250)
def neutral_elements(c):
    """Motionless state and zero fields; adding the opposite flow gives no flow; chains of additions."""
    g, grid, f, o, a, b, prep = setup(c)
    n, r = g["n"], B.rad(g)
    trivial(not np.any(f.vo))
    eps = B.tol(n, 4.)
    tvo = eps * (2 * f.scale_vo + 2 * o.scale_vo + np.max(np.abs(f.f)))
    tu = eps * (2 * f.scale_u + 2 * o.scale_u) + tvo * r
    rest = bt.init.motionless(grid)
    zero = prep(np.zeros(grid.shape))
    for what, x in (("a.add_wind(rest)", a.add_wind(rest)), ("a.add_vorticity(rest)", a.add_vorticity(rest)),
            ("a.add_wind(0)", a.add_wind((zero, zero))), ("a.add_vorticity(0)", a.add_vorticity(zero))):
        check_sum(x, a, g, f.vo, f.u, f.v, tvo, tu, what)
    for what, x in (("rest.add_wind(a)", rest.add_wind(a)), ("rest.add_vorticity(a)", rest.add_vorticity(a))):
        check_sum(x, rest, g, f.vo, f.u, f.v, tvo, tu, what)
    for what, x in (("opposite wind", a.add_wind((-f.u, -f.v))), ("opposite vorticity", a.add_vorticity(-f.vo))):
        check_sum(x, a, g, 0 * f.vo, 0 * f.u, 0 * f.v, tvo, tu, what)
    x = a.add_wind(b).add_vorticity(b).add_wind((-o.u, -o.v)).add_vorticity(-f.vo)
    check_sum(x, a, g, o.vo, o.u, o.v, 3 * tvo, 3 * tu, "chain")

@SUITE.test(st.fixed_dictionaries({"s": G.states(2, 16, 32), "f": G.any_fields(), "f2": G.any_fields(), "ratio": G.logu(0.1, 10.)}), 250, fine=(8, FINE))
def rough_fields(c):
    """Arbitrary (divergent, unresolved) fields against the definition evaluated with pyspharm."""
    s = c["s"]
    g = s["g"]
    n, r = g["n"], B.rad(g)
    ref = B.Ref(g)
    fl = B.flow_of(s)
    a = B.make_state(s)
    x, y = (B.field(n, c[k]) * fl.scale_u * c["ratio"] for k in ("f", "f2"))
    x[0] = y[0] = x[-1] = y[-1] = 0.
    trivial(not np.any(x) and not np.any(y))
    # Through the grid, which does not represent the highest degree (see C03)
    vs = ref.spec(fl.vo + ref.grid(ref.vrtdiv(x, y)[0]))
    vo, (u, v) = ref.grid(vs), ref.wind(vs)
    sw = max(fl.scale_u, np.max(np.hypot(x, y)))
    eps = B.tol(n, 4.)
    tvo = eps * (np.max(np.abs(fl.f)) + fl.scale_vo + sw * n / r)
    check_sum(a.add_wind((x, y)), a, g, vo, u, v, tvo, tvo * r, "rough wind")
    z = x / r
    vs = ref.spec(fl.vo + z)
    vo, (u, v) = ref.grid(vs), ref.wind(vs)
    tvo = eps * (np.max(np.abs(fl.f)) + fl.scale_vo + np.max(np.abs(z)))
    check_sum(a.add_vorticity(z), a, g, vo, u, v, tvo, tvo * r, "rough vorticity")

@SUITE.test(st.fixed_dictionaries({"s": G.states(3, 10), "kind": st.sampled_from(["n", "r", "om", "nt", "shape", "shape", "uv"]), "i": st.integers(0, 5)}), 200)
def refused_operands(c):
    """States on a different grid (resolution, radius, rotation, truncation) and fields of the wrong shape."""
    s = c["s"]
    g = s["g"]
    n = g["n"]
    a = B.make_state(s)
    label(c["kind"])
    if c["kind"] in ("n", "r", "om", "nt"):
        g2 = dict(g)
        if c["kind"] == "n":
            g2["n"], g2["nt"] = n + 1 + c["i"], None
        elif c["kind"] == "r":
            g2["r"] = B.rad(g) * 1.5
        elif c["kind"] == "om":
            g2["om"] = B.om(g) + 1e-5
        else:
            g2["nt"] = n - 1 if B.nt(g) == n else n
        b = bt.State(B.make_grid(g2), a.time, pv=np.ones((g2["n"] + 1, 2 * g2["n"])))
        refused(f"add_wind, other {c['kind']}", a.add_wind, b)
        refused(f"add_vorticity, other {c['kind']}", a.add_vorticity, b)
        return
    shape = [(n + 1, 1), (1, 2 * n), (2 * n, n + 1), (2 * n,), (n, 2 * n), (1, n + 1, 2 * n)][c["i"]]
    bad, good = np.ones(shape), np.ones((n + 1, 2 * n))
    refused(f"add_vorticity, shape {shape}", a.add_vorticity, bad)
    refused(f"add_wind, shape {shape}", a.add_wind, (bad, bad))
    refused(f"add_wind, shape {shape} of u", a.add_wind, (bad, good))
    refused(f"add_wind, shape {shape} of v", a.add_wind, (good, bad))
