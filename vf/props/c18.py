"""C18 Integrations respect the invariants of the barotropic vorticity equation"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C18")


def integrate(model, state, dt, steps):
    last, states = model.run(state, dt, state.time + (steps - 0.5) * dt, save_every=1e-3 * dt)
    require(len(states) == steps + 1, f"{len(states)} states after {steps} steps")
    return states

def rot(g):
    return abs(B.om(g)) * B.rad(g)


@st.composite
def waves(draw):
    g = draw(G.grids(4, 20, 40))
    # Products with larger degrees are not resolved
    deg = draw(st.integers(1, max(1, min(G.nt_of(g), draw(st.sampled_from([(g["n"] - 1) // 2, g["n"] - 2]))))))
    atoms = draw(st.lists(G.sh_atom(deg, deg), min_size=1, max_size=3, unique_by=G.harmonic))
    return {"g": g, "atoms": atoms, "alpha": draw(G.weighted((1, st.just(0.)), (3, G.sym(0.1)))), "amp": draw(G.logu(3e-3, 0.5) if 2 * deg + 1 <= g["n"] - 1 else G.logu(1e-3, 0.02)),
            "U": draw(G.logu(1., 100.)), "s": draw(G.logu(0.01, 0.06)), "steps": draw(st.integers(10, 30)), "t0": draw(st.sampled_from([0., 3600., -1e5])),
            "decay": draw(G.weighted((2, st.just(None)), (1, G.logu(1e-3, 0.02)))), "order": draw(st.integers(1, 4))}

@SUITE.test(waves(), 700, 12000, fine=(16, FINE))
def rossby_haurwitz_waves(c):
    """Superpositions of spherical harmonics of one degree on solid-body rotation propagate at their analytic angular velocity (and decay
    at the analytic rate when only the deviation from planetary vorticity is diffused), to the accuracy of the time stepping.
    Non-trivial if the wave moves or decays by more than five times the tolerance."""
    g = c["g"]
    n, r, om = g["n"], B.rad(g), B.om(g)
    grid = B.make_grid(g)
    # Vorticity scale: planetary rotation or wind
    zs = 2 * abs(om) if om != 0. else c["U"] / r
    alpha = c["alpha"] * zs if c["decay"] is None else 0.
    atoms = [dict(a, a=a["a"] * c["amp"] * zs) for a in c["atoms"]]
    deg = atoms[0]["n"]
    amp = sum(abs(a["a"]) for a in atoms)
    phi = np.deg2rad(B.lats(n))
    base = B.fcor2(g) + np.repeat(2 * alpha * np.sin(phi)[:, None], 2 * n, axis=1)
    speed = alpha - 2. * (alpha + om) / (deg * (deg + 1.))
    freq = max(abs(a["m"] * speed) for a in atoms)
    q0 = base + B.field(n, atoms)
    # Winds of rotation and waves, for the stability of rounding errors
    rate = (abs(alpha) + amp) * max(deg, n / 4) + abs(om)
    dt = min(c["s"] / max(freq, 1e-30), 0.2 / rate if rate > 0 else 1e9, 1e9)
    dt = float("%.5g" % dt)
    kw = dict(diffusion_coeff=0.)
    lam = 0.
    if c["decay"] is not None:
        lam = c["decay"] / dt
        kw = dict(diffusion_coeff=lam * (r**2 / (deg * (deg + 1.)))**c["order"], diffusion_order=c["order"], diffusion_bg=grid.fcor2)
    model = bt.BarotropicModel(**kw)
    t0 = c["t0"] if dt > 10 else 0.
    states = integrate(model, bt.State(grid, t0, pv=q0), dt, c["steps"])
    s = freq * dt
    noise = B.tol(n, np.max(np.abs(q0)) * (1 + 0.3 * c["steps"]))
    moved, decayed = 0., 0.
    for k, state in enumerate(states):
        t = k * dt
        want = base + B.field(n, [dict(a, p=a["p"] - np.rad2deg(a["m"] * speed * t)) for a in atoms]) * np.exp(-lam * t)
        step = ((2.2 * k + 4.) if lam else (0.25 * k + 1.)) * (s + lam * dt)**2 if k else 0.
        # Products of waves that are not resolved
        if 2 * deg + 1 > n - 1:
            step += amp * n * t
        close(state.pv, want, amp * step + noise, "propagation" if lam == 0. else "propagation with decay")
        if k == len(states) - 1:
            trivial(amp * (freq * t + lam * t) < 5 * (amp * step + noise))
    label("with decay" if lam else "without decay", "rotating" if om != 0. else "not rotating")


@st.composite
def flows(draw, nmin=4, nmax=14):
    s = draw(G.states(nmin, nmax, None, time=False))
    return {"s": s, "cfl": draw(G.logu(0.003, 0.1)), "steps": draw(st.integers(2, 10)), "k": draw(st.integers(1, 40)),
            "diff": draw(G.weighted((2, st.just(0.)), (2, G.logu(1e-3, 10.)))), "order": draw(st.integers(1, 4)),
            "mean": draw(G.weighted((2, st.just(0.)), (2, G.sym(1.))))}

def setup(c):
    s = c["s"]
    g = s["g"]
    n, r = g["n"], B.rad(g)
    f = B.flow_of(s)
    grid = B.make_grid(g)
    dt = float("%.5g" % min(c["cfl"] * r / (n * (f.scale_u + 0.5 * rot(g)) + 1e-6 * r), 1e8))
    model = bt.BarotropicModel(diffusion_coeff=c["diff"] / dt * (r**2 / (n * (n + 1.)))**c["order"], diffusion_order=c["order"])
    trivial(not np.any(f.vo))
    # Mean PV is not associated with any wind
    f.mean = c["mean"] * f.scale_pv
    f.pv = f.pv + f.mean
    label("with diffusion" if c["diff"] else "without diffusion", "mean PV" if c["mean"] else "")
    return g, n, r, f, grid, dt, model

@SUITE.test(flows(), 250, 6000, fine=(12, FINE))
def symmetries(c):
    """Rotated and reflected initial states give rotated and reflected solutions."""
    g, n, r, f, grid, dt, model = setup(c)
    states = integrate(model, bt.State(grid, 0., pv=f.pv), dt, c["steps"])
    k = c["k"] % (2 * n)
    tol = B.tol(n, np.max(np.abs(f.pv)) * (1 + 0.3 * c["steps"])) * 2
    tu = tol * r + B.tol(n, f.scale_u)
    rolled = integrate(model, bt.State(grid, 0., pv=np.roll(f.pv, k, axis=1)), dt, c["steps"])
    mirror = integrate(model, bt.State(grid, 0., pv=-f.pv[::-1]), dt, c["steps"])
    for a, b, m in zip(states, rolled, mirror):
        close(b.pv, np.roll(a.pv, k, axis=1), tol, "rotation (pv)")
        close(b.v, np.roll(a.v, k, axis=1), tu, "rotation (v)")
        close(m.pv, -np.asarray(a.pv)[::-1], tol, "reflection (pv)")
        close(m.u, np.asarray(a.u)[::-1], tu, "reflection (u)")
        close(m.v, -np.asarray(a.v)[::-1], tu, "reflection (v)")

_CC = {}
def weights(n):
    """Clenshaw-Curtis weights on the latitudes (exact for polynomials in sin(lat) up to degree n)"""
    if n not in _CC:
        theta = np.pi * np.arange(n + 1) / n
        k = np.arange(n + 1)
        rhs = np.where(k % 2 == 0, 2. / (1. - k**2 + (k == 1)), 0.)
        _CC[n] = np.linalg.solve(np.cos(k[:, None] * theta[None, :]), rhs) / 2.
    return _CC[n]

def gmean(g, x):
    return float(np.sum(weights(g["n"]) * np.mean(np.asarray(x, dtype=float), axis=1)))

@st.composite
def slow_flows(draw):
    c = draw(flows(8, 20))
    g = c["s"]["g"]
    g["nt"] = None
    # Products are resolved, at least in the beginning
    c["s"]["vo"] = draw(G.flows(max(1, g["n"] // 3)))["vo"]
    c["cfl"] = draw(G.logu(0.003, 0.05))
    return c

@SUITE.test(slow_flows(), 450, 8000, fine=(12, FINE))
def conservation(c):
    """Global means of PV, angular momentum, kinetic energy and relative enstrophy of well-resolved flows from quadratures that are
    exact for them, after each step: constant to time-stepping accuracy without diffusion, enstrophy and energy not above their
    initial values with diffusion."""
    g, n, r, f, grid, dt, model = setup(c)
    if c["diff"]:
        # Only the deviation from planetary vorticity
        model = bt.BarotropicModel(diffusion_coeff=model.diffusion_coeff, diffusion_order=c["order"], diffusion_bg=grid.fcor2)
    states = integrate(model, bt.State(grid, 0., pv=f.pv), dt, c["steps"])
    sinphi = np.sin(np.deg2rad(B.lats(n)))[:, None]
    def values(u, v, pv):
        z = np.asarray(pv, dtype=float) - f.f
        u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
        return gmean(g, pv), gmean(g, z * sinphi), gmean(g, u**2 + v**2), gmean(g, z**2)
    zscale = f.scale_vo + abs(f.mean)
    m0, a0, e0, z0 = values(f.u, f.v, f.pv)
    cfl = dt * (f.scale_u * n / 2 / r + 2 * abs(B.om(g)))
    noise = B.tol(n, np.max(np.abs(f.pv)))
    if noise * r > 1e-2 * f.scale_u:
        return trivial()
    for k, s in enumerate(states):
        m, a, e, z = values(s.u, s.v, s.pv)
        acc = 0.2 * (k + 2.) * cfl**2
        close(m, m0, noise, "mean PV")
        if not c["diff"]:
            close(a, a0, acc * f.scale_vo * 0.1 + 2 * noise, "angular momentum")
            close(e, e0, (acc * f.scale_u + noise * r) * f.scale_u, "energy")
            close(z, z0, (acc * f.scale_vo + noise) * zscale, "enstrophy")
        else:
            require(e <= e0 + (acc * f.scale_u + noise * r) * f.scale_u, "energy increased")
            require(z <= z0 + (acc * f.scale_vo + noise) * zscale, "enstrophy increased")

@st.composite
def zonal(draw):
    c = draw(flows(4, 20))
    for a in c["s"]["vo"]:
        a["m"] = 0
    c["bg"] = draw(st.sampled_from(["none", "none", "f", "field"]))
    c["steps"] = draw(st.integers(2, 14))
    return c

@SUITE.test(zonal(), 300, 8000, fine=(12, FINE))
def zonal_flows(c):
    """Zonally symmetric flow stays symmetric, without meridional wind, steady without diffusion; diffusion alone never adds enstrophy
    (of the deviation from the background) and weak diffusion lets each harmonic decay at its analytic rate."""
    g, n, r, f, grid, dt, model = setup(c)
    bg = {"none": None, "f": grid.fcor2, "field": 0.5 * f.f + 0.3 * f.vo}[c["bg"]]
    if bg is not None:
        model = bt.BarotropicModel(diffusion_coeff=model.diffusion_coeff, diffusion_order=c["order"], diffusion_bg=bg)
    states = integrate(model, bt.State(grid, 0., pv=f.pv), dt, c["steps"])
    q = np.max(np.abs(f.pv)) + np.max(np.abs(f.f))
    tol = B.tol(n, q) * (1 + 0.3 * c["steps"])
    back = 0. if bg is None else np.asarray(bg, dtype=float)
    old = np.mean(0.5 * (f.pv - back)**2 * np.cos(np.deg2rad(B.lats(n)))[:, None])
    for k, s in enumerate(states):
        pv = np.asarray(s.pv, dtype=float)
        close(pv, np.repeat(np.mean(pv, axis=1)[:, None], 2 * n, axis=1), tol, "zonal symmetry")
        close(s.v, np.zeros(grid.shape), tol * r, "no meridional wind")
        if c["diff"] == 0.:
            close(pv, f.pv, tol, "steady zonal flow")
        # Mode by mode
        lam = model.diffusion_coeff / r**(2. * c["order"])
        want = (np.array(back, dtype=float) if bg is not None else np.zeros(grid.shape)) + f.mean
        err = 0.
        for a in [{"n": 1, "m": 0, "a": 2 * B.om(g), "p": 0, "f": True}] + c["s"]["vo"]:
            x = lam * (a["n"] * (a["n"] + 1.))**c["order"]
            if a.get("f"):
                field, b = f.f, {"none": 0., "f": 1., "field": 0.5}[c["bg"]]
            else:
                field = B.Flow(g, [a], c["s"]["U"]).vo
                b = {"none": 0., "f": 0., "field": 0.3}[c["bg"]]
            want = want + (1 - b) * field * np.exp(-x * k * dt)
            err += np.max(np.abs(field)) * min((k + 2.) * (x * dt)**2, 1.)
        close(pv, want, 2.5 * err + tol, "decay of harmonics")
    z = [gmean(g, (np.asarray(s.pv, dtype=float) - back)**2) for s in states]
    for a, b in zip(z[:-1], z[1:]):
        require(b <= a + 4 * tol * q, "diffusion added enstrophy")
