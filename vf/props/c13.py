"""C13 All ways to build and read a state agree on one flow"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C13")

HOW = ["pv", "pv_kw", "vorticity", "wind", "spectral"]

@st.composite
def cases(draw):
    s = draw(G.states(2, 20, 48))
    return {"s": s, "how": draw(st.sampled_from(HOW)), "chain": draw(st.lists(st.sampled_from(HOW), max_size=3)),
            "order": draw(st.permutations(["pv", "wind", "psi", "spec", "vort", "energy", "flux"])),
            "dtype": draw(G.dtypes), "layout": draw(G.layouts)}

def construct(how, grid, time, pv, vo, u, v, prep):
    """One of the constructors"""
    if how == "pv":
        arrays = [prep(pv)]
        guard = Guard(*arrays)
        out = bt.State(grid, time, arrays[0])
    elif how == "pv_kw":
        arrays = [prep(pv)]
        guard = Guard(*arrays)
        out = bt.State(grid=grid, time=time, pv=arrays[0])
    elif how == "vorticity":
        arrays = [prep(vo)]
        guard = Guard(*arrays)
        out = bt.State.from_vorticity(grid, time, arrays[0])
    elif how == "wind":
        arrays = [prep(u), prep(v)]
        guard = Guard(*arrays)
        out = bt.State.from_wind(grid, time, *arrays)
    else:
        arrays = [grid.to_spectral(prep(pv))]
        guard = Guard(*arrays)
        out = bt.State(grid, time, pv_spectral=arrays[0])
    guard.check(f"constructor ({how})")
    require(isinstance(out, bt.State), "constructor did not return a State")
    require(out.time == time and type(out.time) is type(time), "time of state")
    require(out.grid is grid or out.grid == grid, "grid of state")
    return out

def check_flow(state, f, g, grid, what, factor=1., order=("pv", "wind", "psi", "spec", "vort", "energy", "flux")):
    n, r = g["n"], B.rad(g)
    eps = B.tol(n, factor)
    tpv = eps * (f.scale_pv + np.max(np.abs(f.f)))
    tu = eps * f.scale_u + tpv * r
    tpsi = eps * f.scale_psi + tpv * r**2
    for item in order:
        if item == "pv":
            close(state.pv, f.pv, tpv, f"pv ({what})")
            close(state.avo, f.pv, tpv, f"avo ({what})")
        elif item == "vort":
            close(state.vorticity, f.vo, tpv, f"vorticity ({what})")
            close(state.vo, f.vo, tpv, f"vo ({what})")
        elif item == "wind":
            close(state.u, f.u, tu, f"u ({what})")
            close(state.v, f.v, tu, f"v ({what})")
        elif item == "psi":
            psi = arr(state.streamfunction, "streamfunction", grid.shape).astype(float)
            # Defined up to a constant, without planetary contribution
            close(psi - np.mean(psi), f.psi - np.mean(f.psi), tpsi, f"streamfunction ({what})")
        elif item == "spec":
            close(grid.to_grid(state.pv_spectral), f.pv, tpv, f"pv_spectral ({what})")
            close(grid.to_grid(state.vorticity_spectral), f.vo, tpv, f"vorticity_spectral ({what})")
        elif item == "energy":
            close(state.energy, 0.5 * (f.u**2 + f.v**2), 3 * tu * (f.scale_u + tu), f"energy ({what})")
            close(state.enstrophy, 0.5 * f.pv**2, 3 * tpv * (f.scale_pv + tpv), f"enstrophy ({what})")
            e = f.pv - np.mean(f.pv, axis=1)[:, None]
            close(state.eddy_enstrophy, 0.5 * e**2, 6 * tpv * (f.scale_pv + tpv), f"eddy enstrophy ({what})")
        else:
            # Definition checked in rough_states, here only as grid field: div(q u) = u . grad(q) of the exact fields
            close(np.shape(state.pv_flux_spectral), np.shape(state.pv_spectral), 0.5, "shape of pv_flux_spectral")

@SUITE.test(cases(), 700, 15000, fine=(16, FINE))
def constructors(c):
    """Exact fields of resolved flows from every constructor, fields read in random order, then rebuilt repeatedly from its own fields.
    Non-trivial if there is some flow."""
    s = c["s"]
    g = s["g"]
    grid = B.make_grid(g)
    f = B.flow_of(s)
    time = B.make_time(s["time"])
    trivial(not np.any(f.vo))
    label(c["how"], *["then " + x for x in c["chain"]])
    prep = lambda a: B.shape_array(a, c["dtype"], c["layout"])
    state = construct(c["how"], grid, time, f.pv, f.vo, f.u, f.v, prep)
    check_flow(state, f, g, grid, c["how"], 1., c["order"])
    for k, how in enumerate(c["chain"]):
        state = construct(how, grid, time, state.pv, state.vorticity, state.u, state.v, np.array)
        check_flow(state, f, g, grid, f"rebuilt from {how}", 2. + k)

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20, 40), "f": G.any_fields(), "f2": G.any_fields(), "scale": G.weighted((2, st.just(1e-4)), (1, G.logu(1e-7, 1e-2))),
        "how": st.sampled_from(HOW), "time": G.times()}), 500, 12000, fine=(12, FINE))
def rough_states(c):
    """States from arbitrary fields or divergent wind: derived fields against their definitions evaluated with pyspharm."""
    g = c["g"]
    n, r = g["n"], B.rad(g)
    grid = B.make_grid(g)
    ref = B.Ref(g)
    fcor = B.fcor2(g)
    x, y = B.field(n, c["f"]) * c["scale"], B.field(n, c["f2"]) * c["scale"]
    trivial(not np.any(x))
    label(c["how"])
    if c["how"] == "wind":
        u, v = x * r, y * r
        # Wind of the poles is not defined by its components
        u[0] = v[0] = u[-1] = v[-1] = 0.
        pv0 = fcor + ref.grid(ref.vrtdiv(u, v)[0])
    else:
        u = v = None
        pv0 = x + (fcor if c["how"] == "vorticity" else 0.)
    time = B.make_time(c["time"])
    state = construct(c["how"], grid, time, pv0, x, u, v, np.array)
    q = ref.rt(pv0)
    s = max(np.max(np.abs(pv0)), np.max(np.abs(fcor)), 1e-200)
    eps = B.tol(n, 2.)
    pv = arr(state.pv, "pv", grid.shape).astype(float)
    close(pv, q, eps * s, "pv (rough)")
    close(state.avo, pv, 0., "avo is pv")
    close(state.vorticity, pv - fcor, 1e-6 * s, "vorticity = pv - f")
    close(state.vo, state.vorticity, 0., "vo is vorticity")
    spec = arr(state.pv_spectral, "pv_spectral", kind="c")
    close(spec, ref.spec(pv), eps * s * 3, "pv_spectral", kind="c")
    vs = ref.spec(pv) - ref.spec(fcor)
    close(state.vorticity_spectral, vs, eps * s * 4, "vorticity_spectral", kind="c")
    uu, vv = ref.wind(vs)
    tu = eps * s * r * 4
    su, sv = arr(state.u, "u", grid.shape).astype(float), arr(state.v, "v", grid.shape).astype(float)
    close(su, uu, tu, "u (rough)")
    close(sv, vv, tu, "v (rough)")
    with np.errstate(all="ignore"):
        psi = ref.grid(np.where(ref.d > 0, -vs / ref.eig, 0.))
    got = arr(state.streamfunction, "streamfunction", grid.shape).astype(float)
    close(got - np.mean(got), psi - np.mean(psi), eps * s * r**2 * 4, "streamfunction (rough)")
    gx, gy = ref.grad(got)
    close(su, -gy, 3 * tu, "u = -d(psi)/dy")
    close(sv, gx, 3 * tu, "v = d(psi)/dx")
    close(state.energy, 0.5 * (su**2 + sv**2), 1e-6 * np.max(su**2 + sv**2), "energy (rough)")
    close(state.enstrophy, 0.5 * pv**2, 1e-6 * s**2, "enstrophy (rough)")
    close(state.eddy_enstrophy, 0.5 * (pv - np.mean(pv, axis=1)[:, None])**2, 5e-6 * s**2, "eddy enstrophy (rough)")
    flux = ref.vrtdiv(pv * su, pv * sv)[1]
    sf = np.max(np.abs(pv)) * max(np.max(np.abs(su)), np.max(np.abs(sv)), tu) / r
    close(state.pv_flux_spectral, flux, eps * sf * n * 2, "pv_flux_spectral", kind="c")

@SUITE.test(cases(), 150)
def refusals(c):
    """Giving PV twice or PV of another shape."""
    s = c["s"]
    grid = B.make_grid(s["g"])
    f = B.flow_of(s)
    time = B.make_time(s["time"])
    spec = grid.to_spectral(f.pv)
    refused("pv and pv_spectral", bt.State, grid, time, pv=f.pv, pv_spectral=spec)
    refused("pv and pv_spectral", bt.State, grid, time, f.pv, spec)
    for bad in (f.pv.T, f.pv[:-1], f.pv[:, :-1], f.pv[1:-1]):
        refused(f"pv of shape {bad.shape}", lambda: bt.State(grid, time, pv=bad).pv)
        if bad.shape[1] != f.pv.shape[1] or bad.shape[0] > 1:
            refused(f"vorticity of shape {bad.shape}", lambda: bt.State.from_vorticity(grid, time, bad).pv)
        refused(f"wind of shape {bad.shape}", lambda: bt.State.from_wind(grid, time, bad, bad).pv)
