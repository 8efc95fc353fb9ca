"""C23 Stationary wavenumber follows its Mercator definition in all variants"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C23")
D = bt.diagnostics

def gradient(g, u, pv, order):
    """(cos^2 r dq/dphi, tolerance) from zonal means; pv None: derived from u"""
    n, r = g["n"], B.rad(g)
    cos = np.cos(np.deg2rad(B.lats(n)))
    ucos = np.zeros(n + 1)
    err = 0.
    if pv is None:
        rv = np.zeros(n + 1)
        rv[1:-1] = -B.deriv(n, (u * cos)[:,None], order, False)[1:-1,0] / r / cos[1:-1]
        pv = B.fcor(g) + rv
        err = 1e-15 * np.max(np.abs(u)) / r * n**2
    err = err + 1e-15 * np.max(np.abs(pv))
    out = cos**2 * r * B.deriv(n, pv[:,None], order, False)[:,0]
    tol = cos**2 * r * n * 20 * err
    return out, tol

def check_squared(ks2, g, u, pv, order, min_u, what, uerr=0., qerr=0.):
    """uerr, qerr: rounding errors of the zonal means of u and PV"""
    n, r = g["n"], B.rad(g)
    cos = np.cos(np.deg2rad(B.lats(n)))
    grad, tol = gradient(g, u, pv, order)
    tol = tol + cos**2 * r * n * 3 * qerr
    ks2 = arr(ks2, what, (n + 1,), kind="f")
    require(not np.any(np.isnan(ks2)), f"{what}: NaN")
    for j in range(n + 1):
        ok_small = abs(u[j]) <= min_u + uerr + 1e-9 * min_u
        ok_large = abs(u[j]) >= min_u - uerr - 1e-9 * min_u
        good = False
        if ok_small:
            good |= np.isinf(ks2[j]) and (ks2[j] > 0) == (grad[j] > 0) and grad[j] != 0.
            good |= (np.isinf(ks2[j]) or ks2[j] == 0.) and abs(grad[j]) <= tol[j] # sign decided by rounding
            good |= ks2[j] == 0. and grad[j] == 0.
        if ok_large and uerr > 0.5 * abs(u[j]):
            good = True # mean wind only consists of rounding errors
        elif ok_large and u[j] != 0.:
            want = grad[j] / u[j]
            lim = tol[j] / abs(u[j]) + abs(want) * (1e-9 + uerr / abs(u[j]) * 2)
            good |= bool(np.abs(ks2[j] - want) <= lim)
        require(good, lambda: f"{what}: Ks^2 = {ks2[j]} at row {j} where u = {u[j]}, gradient term {grad[j]} (tolerance {tol[j]:.3g}), threshold {min_u}")

def check_kinds(f, what):
    """The three variants belong together"""
    sq = arr(f(kind="squared"), what)
    cx = arr(f(kind="complex"), what, sq.shape, kind="c")
    re = arr(f(kind="real"), what, sq.shape)
    df = arr(f(), what, sq.shape, kind="c")
    for a in (sq, cx, re, df):
        require(not np.any(np.isnan(a)), f"{what}: NaN")
    root = np.sqrt(np.abs(sq.astype(float)))
    e = 1e-6 * np.where(np.isinf(root), 1, root) + 1e-30
    close(re, np.where(sq >= 0, root, -root), e, "real variant")
    close(cx.real, np.where(sq > 0, root, 0.), e, "real part")
    close(cx.imag, np.where(sq < 0, root, 0.), e, "imaginary part")
    require(np.array_equal(df, cx), "complex variant is not the default")
    return sq

@st.composite
def profiles(draw):
    kind = draw(st.sampled_from(["smooth", "rough", "patchy", "zero", "poly", "spread"]))
    return {"kind": kind, "seed": draw(G.seeds), "amp": draw(G.logu(1e-3, 100.)), "a": draw(st.lists(G.sym(1.), min_size=1, max_size=5)), "zeros": draw(st.integers(0, 4)),
            "int": draw(st.sampled_from([False, False, False, True]))}

def make_profile(d, n):
    r = np.random.RandomState(d["seed"])
    lat = np.deg2rad(B.lats(n))
    if d["kind"] == "zero":
        u = np.zeros(n + 1)
    elif d["kind"] == "rough":
        u = d["amp"] * r.uniform(-1, 1, size=n + 1)
    elif d["kind"] == "patchy":
        u = d["amp"] * r.choice([0., 0., 1., -1., 1e-4, -1e-3, 0.5], size=n + 1)
    elif d["kind"] == "spread":
        # Winds of very different magnitude
        u = d["amp"] * r.choice([-1., 1.], size=n + 1) * 10.**r.uniform(-12, 1, size=n + 1)
    elif d["kind"] == "poly":
        u = d["amp"] * np.polyval(d["a"], np.sin(lat))
    else:
        u = d["amp"] * sum(a * np.cos((2 * i + 1) * lat) for i, a in enumerate(d["a"]))
    for _ in range(d["zeros"]):
        u[r.randint(0, n + 1)] = 0.
    return np.round(u).astype(int) if d["int"] else u

thresholds = G.weighted((3, st.none()), (1, st.just(0.)), (3, G.logu(1e-5, 50.)), (1, G.logu(1e-12, 1e-5)))

@st.composite
def profile_cases(draw):
    order = draw(st.sampled_from([None, 4, 2]))
    return {"g": draw(G.grids(2 if order == 2 else 4, 30, 90, trunc=False, legfunc=False)), "u": draw(profiles()), "order": order, "min_u": draw(thresholds),
            "two": draw(st.booleans()), "eddy": draw(G.any_fields(max_size=2)), "layout": draw(G.layouts), "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f4", "list", "i1", "i4", "i8"]))}

def kwargs(c):
    return {k: c[k] for k in ("order", "min_u") if c[k] is not None}

@SUITE.test(profile_cases(), 900, 20000, fine=(16, FINE))
def wind_profiles(c):
    """Zonal wind profiles and fields (with arbitrary eddies) incl. zero, easterly and sign-changing wind, all thresholds, both orders. Non-trivial
    if there is wind above the threshold."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    u = make_profile(c["u"], n)
    uerr = qerr = 0.
    if c["two"]:
        e = B.field(n, c["eddy"])
        e = (e - np.mean(e, axis=1, keepdims=True)) * c["u"]["amp"]
        u2 = u[:,None] + e
        x = u2
        m = np.mean(np.asarray(u2, dtype=float), axis=1)
        uerr = 2e-16 * np.max(np.abs(u2)) * 4
    else:
        x, m = u, np.asarray(u, dtype=float)
    if c["dtype"].startswith("i"):
        # Whole numbers of m/s, zonal means are fractions
        x = np.rint(x * 40. / max(np.max(np.abs(x)), 1e-300)).astype(c["dtype"])
        m = np.mean(x.astype(float), axis=1) if c["two"] else x.astype(float)
        uerr = 2e-14
    if c["dtype"] == "f4":
        x = np.asarray(x, dtype="f4")
        m = np.mean(x.astype(float), axis=1) if c["two"] else x.astype(float)
        uerr = 1e-6 * np.max(np.abs(x))
    qerr = uerr / B.rad(g) * n * 4 * n
    x = B.shape_array(x, x.dtype, c["layout"])
    guard = Guard(x)
    if c["dtype"] == "list" and not c["two"]:
        x = [float(_) for _ in x]
    min_u = 0.001 if c["min_u"] is None else c["min_u"]
    order = c["order"] or 4
    trivial(np.all(np.abs(m) <= min_u))
    label(c["u"]["kind"], "2-D" if c["two"] else "1-D", c["dtype"], "small" if np.any(np.abs(m) <= min_u) else "", "easterly" if np.any(m < 0) else "")
    f = lambda **kw: D.stationary_wavenumber(x, grid, **kwargs(c), **kw)
    sq = check_kinds(f, "stationary wavenumber")
    guard.check("stationary_wavenumber")
    check_squared(sq, g, m, None, order, min_u, "from wind", uerr, qerr)

@st.composite
def state_cases(draw):
    s = draw(G.states(4, 20, 40))
    s["zonal"] = draw(profiles())
    return {"s": s, "order": draw(st.sampled_from([None, 4, 2])), "min_u": draw(thresholds), "mode": draw(st.sampled_from(["flow", "zonal", "motionless"]))}

@SUITE.test(state_cases(), 500, 8000, fine=(12, FINE))
def states(c):
    """States: PV gradient from the state's PV, wind from its inversion. Non-trivial if some wind exceeds the threshold."""
    s = c["s"]
    g = s["g"]
    n, r = g["n"], B.rad(g)
    grid = B.make_grid(g)
    if c["mode"] == "flow":
        state = B.make_state(s, grid)
    elif c["mode"] == "zonal":
        state = bt.init.zonally_symmetric(grid, u=make_profile(s["zonal"], n))
    else:
        state = bt.init.motionless(grid)
    u, q = np.array(state.u, dtype=float), np.array(state.pv, dtype=float)
    m, qm = np.mean(u, axis=1), np.mean(q, axis=1)
    min_u = 0.001 if c["min_u"] is None else c["min_u"]
    label(c["mode"])
    trivial(np.all(np.abs(m) <= min_u))
    f = lambda **kw: D.stationary_wavenumber(state, **kwargs(c), **kw)
    sq = check_kinds(f, "stationary wavenumber")
    uerr, qerr = 1e-6 * np.max(np.abs(u)), 1e-6 * np.max(np.abs(q))
    check_squared(sq, g, m, qm, c["order"] or 4, min_u, "from state", uerr, qerr)
    guard = Guard(state.pv, state.u)
    ks = arr(state.stationary_wavenumber, "State.stationary_wavenumber", (n + 1,), kind="c")
    want = D.stationary_wavenumber(state)
    require(np.array_equal(ks, want), "State.stationary_wavenumber is not the diagnostic with default options")
    guard.check("stationary_wavenumber")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(6, 36, 90, trunc=False, legfunc=False, om=G.logu(1e-6, 1e-3)), "U": G.weighted((2, G.sym(50.)), (1, st.just(0.))), "order": st.sampled_from([2, 4]),
        "how": st.sampled_from(["wind", "state"])}), 200, fine=(8, FINE))
def solid_body(c):
    """Solid-body rotation: Ks^2 = 2 (omega r / U + 1) cos^2 (up to the accuracy of the finite differences, away from the poles)."""
    g = c["g"]
    n, r = g["n"], B.rad(g)
    U = c["U"] if abs(c["U"]) > 0.5 else 0.
    grid = B.make_grid(g)
    phi = np.deg2rad(B.lats(n))
    cos = np.cos(phi)
    trivial(U == 0.)
    if c["how"] == "wind":
        got = D.stationary_wavenumber(U * cos, grid, order=c["order"], kind="squared")
    else:
        got = D.stationary_wavenumber(bt.init.solid_body_rotation(grid, amplitude=U), order=c["order"], kind="squared")
    got = arr(got, "stationary wavenumber", (n + 1,))[1:-1]
    cos = cos[1:-1]
    if U == 0.:
        if c["how"] == "wind":
            require(np.all(got == np.inf), "motionless atmosphere")
        return
    d = np.pi / n
    h = d**c["order"] * (2. if c["order"] == 2 else 4.)
    f = 2 * abs(B.om(g)) + 2 * abs(U) / r
    big = np.abs(U * cos) > 0.01
    # Derivatives of the vorticity derived from the wind are less accurate at the poles
    tol = cos * r * f / abs(U) * (h * 3 / np.maximum(cos, d)**(0 if c["how"] == "state" else 2) + (0 if c["how"] == "wind" else 1e-5 * n)) + 1e-9
    if c["how"] == "state":
        uerr = B.tol(n, r * f)
        big &= np.abs(U * cos) > 20 * uerr
        tol = tol + 3 * cos**2 * f * r / np.maximum(abs(U) * cos, 1e-9)**2 * uerr
    else:
        # The polar value of the vorticity derived from wind is a convention (zero) and enters these rows
        big[:3] = big[-3:] = False
    want = cos**2 * (2 * B.om(g) * r / U + 2)
    close(np.where(big, got, want), want, tol, f"solid body ({c['how']})")

@SUITE.test(st.fixed_dictionaries({"kind": st.sampled_from(["", "Complex", "imag", "abs", "square", None, "r", 2]), "n": st.integers(4, 9)}), 40)
def refused_kinds(c):
    """Unknown variants."""
    grid = bt.Grid(180. / c["n"])
    refused(f"kind {c['kind']}", D.stationary_wavenumber, 10. * np.cos(grid.phi), grid, kind=c["kind"])
