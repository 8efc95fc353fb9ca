"""C07 Surface and line integrals are exact for their documented quadrature"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C07")

METHODS = st.sampled_from(["sptrapz", "boxcount", "default"])

@st.composite
def cases(draw, zreq=False):
    g = draw(G.grids(2, 24, 60, trunc=False, legfunc=False))
    c = {"g": g, "y": draw(G.any_fields()), "z": draw(G.any_fields()) if zreq or draw(st.integers(0, 3)) else None,
         "off": draw(G.weighted((3, G.sym(0.5)), (1, st.just(0.)), (1, G.sym(3.)))),
         "q": draw(st.sampled_from([0, 0, 0, 1, 2])), # rounding of z creates zeros on gridpoints
         "w": draw(G.weighted((2, st.just(0)), (2, st.integers(1, 60)))), "start": draw(st.integers(0, 100)),
         "method": draw(METHODS), "dtype": draw(st.sampled_from(["f8"] * 8 + ["f4"] * 4 + B.INTEGERS)), "zdtype": draw(st.sampled_from(["f8"] * 8 + ["f4"] * 4 + B.INTEGERS)),
         "layout": draw(G.layouts), "scale": draw(G.weighted((2, st.just(1.)), (1, G.logu(1e-8, 1e8))))}
    return c

def build(c):
    g = c["g"]
    n = g["n"]
    w = 2 * n if c["w"] == 0 else 1 + c["w"] % (2 * n)
    cols = (np.arange(w) + c["start"]) % (2 * n)
    y = B.field(n, c["y"])[:, cols] * c["scale"]
    y = (B.integers if c["dtype"] in B.INTEGERS else B.shape_array)(y, c["dtype"], c["layout"])
    z = None
    if c["z"] is not None:
        z = B.field(n, c["z"])[:, cols] + c["off"]
        if c["q"]:
            z = np.round(z * 3 * c["q"]) / (3 * c["q"])
        if c["zdtype"] in ("u1", "u2", "u4", "?", "i1", "i2"):
            z = B.integers(z, c["zdtype"], c["layout"])
        else:
            z = B.shape_array(np.round(3 * z) if c["zdtype"] in B.INTEGERS else z, c["zdtype"], c["layout"])
    return y, z

def qm(grid, y, z, method, name="quad_meridional"):
    f = getattr(grid, name)
    if method == "default":
        return f(y) if z is None else f(y, z)
    return f(y, z, method)

def tol(c, y, r):
    f4 = c["dtype"] == "f4" or (c["z"] is not None and c["zdtype"] == "f4")
    return (2e-6 if f4 else 1e-11) * max(np.max(np.abs(y.astype(float))), 1e-200) * r * 3

@SUITE.test(cases(), 1500, 40000, fine=(20, FINE))
def reference(c):
    """Arbitrary integrands and domains (or none), sectors of any width and position, dtypes, zeros of z on gridpoints,
    against Gauss-Legendre integration of the piecewise linear interpolants / sums over cells. Non-trivial if the domain
    is neither empty nor everything or z is None."""
    g, r = c["g"], B.rad(c["g"])
    grid = B.make_grid(g)
    y, z = build(c)
    method = "sptrapz" if c["method"] == "default" else c["method"]
    if z is None:
        trivial(not np.any(y))
        label(method, "no domain")
    else:
        inside = z >= 0
        trivial(not np.any(y) or inside.all() or not inside.any())
        label(method, "zeros in z" if np.any(z == 0) else "", "sector" if y.shape[1] < grid.nlon else "globe")
    guard = Guard(y) if z is None else Guard(y, z)
    want = B.line_integral(g, y, z, method)
    t = tol(c, y, r)
    close(qm(grid, y, z, c["method"]), want, t, f"line integral {method}")
    total = qm(grid, y, z, c["method"], "quad")
    close(total, np.sum(want) * r * np.pi / g["n"], t * y.shape[1] * r * np.pi / g["n"], f"surface integral {method}")
    guard.check("quad")

@SUITE.test(cases(zreq=True), 800, 20000, fine=(12, FINE))
def laws(c):
    """Linearity, additivity over complements, monotonicity, invariance to scaling of z, independence of columns."""
    g, r = c["g"], B.rad(c["g"])
    c["dtype"] = c["zdtype"] = "f8"
    c["q"] = 0
    grid = B.make_grid(g)
    y, z = build(c)
    z = np.where(z == 0, 1e-3, z)
    m = c["method"]
    t = tol(c, y, r)
    trivial(not np.any(y) or np.all(z > 0) or np.all(z < 0))
    base = arr(qm(grid, y, z, m), "line integral", (y.shape[1],))
    full = qm(grid, y, None, m)
    close(arr(qm(grid, y, -z, m)) + base, full, 4 * t, "complement")
    close(qm(grid, y, np.ones_like(y), m), full, t, "full domain")
    close(qm(grid, y, -np.ones_like(y), m), np.zeros(y.shape[1]), 0., "empty domain")
    close(qm(grid, y, 7.3 * z, m), base, t, "scaled z")
    x = B.field(g["n"], c["z"])[:, :y.shape[1]]
    sx = max(np.max(np.abs(x)), 1.)
    tx = t + tol(c, x, r)
    close(qm(grid, 2.5 * y - 3. * x, z, m), 2.5 * base - 3. * arr(qm(grid, x, z, m)), 6 * tx, "linearity")
    # Monotone: larger domain, non-negative integrand
    small = arr(qm(grid, np.abs(y), z - 0.3 * np.abs(x), m))
    large = arr(qm(grid, np.abs(y), z + 0.2, m))
    require(np.all(large - small >= -4 * t), "not monotone in the domain")
    require(np.all(small >= -4 * t), "negative integral of non-negative field")
    # Columns
    perm = np.random.RandomState(c["start"]).permutation(y.shape[1])
    close(qm(grid, y[:, perm], z[:, perm], m), base[perm], t, "permuted columns")
    k = max(1, y.shape[1] // 2)
    close(qm(grid, y[:, :k], z[:, :k], m), base[:k], t, "subset of columns")
    # Ones: areas
    ones = np.ones((g["n"] + 1, 2 * g["n"]))
    close(qm(grid, ones, None, m, "quad"), 4 * np.pi * r**2, 1e-10 * r**2, "surface of the sphere")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(3, 10, trunc=False, legfunc=False), "kind": st.sampled_from(
        ["nlat", "nlat", "1d", "3d", "method", "zshape", "transposed"]), "x": st.integers(-2, 3), "method": METHODS, "quad": st.booleans()}), 150)
def refused_input(c):
    """Wrong number of latitudes or dimensions, unknown schemes, mismatched domains."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    name = "quad" if c["quad"] else "quad_meridional"
    y, z, m = np.ones(grid.shape), None, c["method"]
    if c["kind"] == "nlat":
        y = np.ones((n + 1 + (c["x"] or 1), 2 * n))
    elif c["kind"] == "1d":
        y = np.ones(n + 1)
    elif c["kind"] == "3d":
        y = np.ones((2, n + 1, 2 * n))
    elif c["kind"] == "method":
        m = ["trapz", "simpson", "box", "", "SPTRAPZ", "boxcounting"][c["x"] + 2]
    elif c["kind"] == "zshape":
        z = np.ones((n + 1 + (c["x"] or 1), 2 * n))
    elif c["kind"] == "transposed":
        y = y.T
    refused(f"{name} with {c['kind']}", qm, grid, y, z, m, name)
