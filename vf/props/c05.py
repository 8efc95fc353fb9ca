"""C05 Laplacian, Poisson and diffusion solvers satisfy their equations"""
import numpy as np
import spharm
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C05")

# op_add in units of 1/r^2: none, positive, or negative between two eigenvalues
ADD = G.weighted((4, st.just(0.)), (6, G.logu(1e-3, 1e4)),
                 (4, st.builds(lambda k, x: -(k * (k + 1.) + x * 2. * (k + 1.)), st.integers(0, 24), G.uni(0.2, 0.8))))

@st.composite
def cases(draw):
    g = draw(G.grids(2, 24, 60))
    return {"g": g, "f": draw(G.sh_fields(B.res(g))), "scale": draw(G.weighted((2, st.just(1.)), (1, G.logu(1e-8, 1e8)))),
            "dtype": draw(G.dtypes), "layout": draw(G.layouts),
            # Damping numbers dt*coeff/r^(2*order)
            "add": draw(ADD),
            "mu": draw(G.weighted((1, st.just(0.)), (4, G.logu(1e-12, 1e4)))), "order": draw(st.integers(1, 6)),
            "dt": draw(st.sampled_from([1., 600., 86400., 0.1, 450])), "zero": draw(st.sampled_from(["no", "no", "no", "dt", "coeff"])),
            "spectral": draw(st.booleans()), "noise": draw(G.seeds)}

def eig(a):
    return a["n"] * (a["n"] + 1.)

def setup(c):
    g = c["g"]
    grid = B.make_grid(g)
    n, s = g["n"], c["scale"]
    f = B.shape_array(B.field(n, c["f"]) * s, c["dtype"], c["layout"])
    amp = sum(abs(a["a"]) for a in c["f"]) * s
    trivial(amp == 0.)
    return g, grid, n, s, f, amp

def apply(c, f, gridded, spectral, *args, **kw):
    """Either variant; both have to leave the input alone"""
    grid = kw.pop("grid")
    if c["spectral"]:
        x = grid.to_spectral(f)
        guard = Guard(x)
        out = spectral(x, *args, **kw)
        arr(out, "spectral result", np.shape(x), kind="c")
        guard.check("spectral solver")
        guard = Guard(out)
        res = grid.to_grid(out)
        return res
    guard = Guard(f)
    out = gridded(f, *args, **kw)
    guard.check("solver")
    return out

@SUITE.test(cases(), 700, 15000, fine=(12, FINE))
def laplace(c):
    """Laplacian of resolved fields against the eigenvalues -n(n+1)/r^2."""
    g, grid, n, s, f, amp = setup(c)
    r = B.rad(g)
    label("spectral" if c["spectral"] else "gridded")
    want = sum(-eig(a) / r**2 * B.sh(n, a) for a in c["f"]) * s
    got = apply(c, f, grid.laplace, grid.laplace_spectral, grid=grid)
    nt = B.nt(g)
    close(got, want, B.tol(n, amp) * (nt * (nt + 1.) / r**2), "laplace")

@SUITE.test(cases(), 700, 15000, fine=(12, FINE))
def poisson(c):
    """(Laplacian - op_add) f = rhs in every mode for op_add of either sign, mean of rhs ignored for op_add = 0."""
    g, grid, n, s, f, amp = setup(c)
    r = B.rad(g)
    add = c["add"] / r**2
    label("spectral" if c["spectral"] else "gridded", "poisson" if add == 0. else "op_add > 0" if add > 0. else "op_add < 0",
            "mean in rhs" if any(a["n"] == 0 and a["a"] for a in c["f"]) else "")
    want, size = np.zeros(grid.shape), 0.
    for a in c["f"]:
        if a["n"] == 0 and add == 0.:
            continue
        x = -1. / (eig(a) / r**2 + add)
        want = want + x * B.sh(n, a) * s
        size += abs(x * a["a"] * s)
    if c["add"] == 0. and c["noise"] % 2:
        got = apply(c, f, grid.solve_poisson, grid.solve_poisson_spectral, grid=grid)
    elif c["noise"] % 3 == 0:
        got = apply(c, f, grid.solve_poisson, grid.solve_poisson_spectral, grid=grid, op_add=add)
    else:
        got = apply(c, f, grid.solve_poisson, grid.solve_poisson_spectral, add, grid=grid)
    # Rounding in the lowest modes is amplified most
    d = np.arange(B.nt(g) + 1.)
    x = np.abs(d * (d + 1.) + c["add"])
    worst = r**2 / np.min(x[1:] if add == 0. else x)
    close(got, want, B.tol(n) * (size + 0.3 * amp * worst), "poisson")

@SUITE.test(cases(), 900, 20000, fine=(12, FINE))
def diffusion(c):
    """One implicit Euler step of diffusion of order 1-6 over 16 decades of strength, zero time step or coefficient."""
    g, grid, n, s, f, amp = setup(c)
    r = B.rad(g)
    dt, order = c["dt"], c["order"]
    coeff = c["mu"] / dt * float(r)**(2 * order)
    mu = c["mu"]
    if c["zero"] == "dt":
        dt, mu = 0., 0.
    elif c["zero"] == "coeff":
        coeff, mu = 0., 0.
    label(f"order {order}", "spectral" if c["spectral"] else "gridded", "no damping" if mu == 0. else "damping")
    fac = [1. / (1. + mu * eig(a)**order) for a in c["f"]]
    want = sum(x * B.sh(n, a) for x, a in zip(fac, c["f"])) * s
    if order == 1 and c["noise"] % 2:
        got = apply(c, f, grid.solve_diffusion, grid.solve_diffusion_spectral, coeff, dt, grid=grid)
    elif c["noise"] % 3 == 0:
        got = apply(c, f, grid.solve_diffusion, grid.solve_diffusion_spectral, dt=dt, coeff=coeff, order=order, grid=grid)
    else:
        got = apply(c, f, grid.solve_diffusion, grid.solve_diffusion_spectral, coeff, dt, order, grid=grid)
    close(got, want, B.tol(n, amp), "diffusion")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20, 40), "f": G.any_fields(), "mu": G.logu(1e-10, 1e6), "order": st.integers(1, 5),
        "add": ADD, "dtype": G.dtypes}), 600, fine=(12, FINE))
def arbitrary(c):
    """Rough fields: gridded and spectral variants agree and match the documented factor in every spectral mode; no mode is
    amplified by diffusion and the mean mode is kept."""
    g, n, r = c["g"], c["g"]["n"], B.rad(c["g"])
    grid = B.make_grid(g)
    f = B.shape_array(B.field(n, c["f"]), c["dtype"])
    amp = max(np.max(np.abs(f)), 1e-30)
    trivial(amp < 1e-20)
    m, d = spharm.getspecindx(B.nt(g))
    e = d * (d + 1.)
    spec = np.array(grid.to_spectral(f))
    absmax = np.max(np.abs(spec))
    x = arr(grid.laplace_spectral(spec), "laplace_spectral", spec.shape, kind="c")
    close(x * r**2, -e * spec, 1e-5 * absmax * e + 1e-30, "laplace_spectral", kind="c")
    close(grid.laplace(f), grid.to_grid(x), B.tol(n, absmax) * np.max(e) / r**2 * 5, "laplace")
    add = c["add"]
    x = arr(grid.solve_poisson_spectral(spec, add / r**2), "solve_poisson_spectral", spec.shape, kind="c")
    with np.errstate(all="ignore"):
        inv = np.where(e + add != 0., -1. / (e + add), 0.)
    close(x / r**2, spec * inv, 1e-5 * absmax * np.abs(inv) + 1e-30, "solve_poisson_spectral", kind="c")
    close(grid.solve_poisson(f, add / r**2), grid.to_grid(x), B.tol(n, absmax) * np.max(np.abs(inv)) * r**2 * 5, "solve_poisson")
    dt = 450.
    coeff = c["mu"] / dt * float(r)**(2 * c["order"])
    x = arr(grid.solve_diffusion_spectral(spec, coeff, dt, c["order"]), "solve_diffusion_spectral", spec.shape, kind="c")
    close(x, spec / (1. + c["mu"] * e**c["order"]), 2e-6 * np.abs(spec) + 1e-30 + 1e-37 / amp, "solve_diffusion_spectral", kind="c")
    require(np.all(np.abs(x) <= np.abs(spec) * (1. + 1e-6)), "diffusion amplified a mode")
    require(abs(x[0] - spec[0]) <= 1e-6 * abs(spec[0]), "diffusion changed the mean")
    close(grid.solve_diffusion(f, coeff, dt, c["order"]), grid.to_grid(x), B.tol(n, absmax) * 5, "solve_diffusion")
