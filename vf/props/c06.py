"""C06 Meridional finite differences have their stated order everywhere"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C06")

@st.composite
def cases(draw):
    order = draw(st.sampled_from([2, 4, 4, None]))
    g = draw(G.grids(2 if order == 2 else 4, 30, 90, trunc=False, legfunc=False))
    return {"g": g, "order": order, "f": draw(G.any_fields()), "noise": draw(G.seeds),
            "width": draw(st.sampled_from(["1d", "1d", "1", "n", "lat", "2", "full", "wide"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8", "i4", "list", *B.INTEGERS])), "layout": draw(G.layouts),
            "scale": draw(G.weighted((2, st.just(1.)), (1, G.logu(1e-9, 1e9)))), "kw": draw(st.booleans())}

def columns(n, width):
    return {"1": 1, "n": n, "lat": n + 1, "2": 2, "full": 2 * n, "wide": 2 * n + 3}[width]

def call(grid, f, order, kw=False):
    if order is None:
        return grid.derivative_meridional(f)
    return grid.derivative_meridional(f, order=order) if kw else grid.derivative_meridional(f, order)

@SUITE.test(cases(), 1200, 30000, fine=(16, FINER))
def reference(c):
    """Arbitrary 1-D profiles and 2-D fields of 1 to nlon+3 columns, dtypes incl. integers and lists, against
    derivatives of Lagrange polynomials through the 3 or 5 points of the documented stencils."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    order = 4 if c["order"] is None else c["order"]
    scale = c["scale"]
    f = B.field(n, c["f"])
    one_d = c["width"] == "1d"
    if one_d:
        f = f[:, c["noise"] % (2 * n)]
    else:
        f = f[:, (np.arange(columns(n, c["width"])) + c["noise"]) % (2 * n)]
    if c["dtype"] in B.INTEGERS:
        f = B.integers(f, c["dtype"], c["layout"])
    else:
        f = B.shape_array(f * scale, c["dtype"] if c["dtype"] != "list" else "f8", c["layout"])
    trivial(not np.any(f))
    label(f"order {c['order']}", "1-D" if one_d else "2-D", c["dtype"])
    guard = Guard(f)
    got = call(grid, f.tolist() if c["dtype"] == "list" else f, c["order"], c["kw"])
    guard.check("derivative_meridional")
    f = f.astype(float)
    want = B.deriv(n, f, order, poles=not one_d)
    t = (1e-5 if c["dtype"] == "f4" else 1e-12) * max(np.max(np.abs(f)), 1e-200) * n
    close(got, want, t, f"derivative order {order}")
    if one_d:
        got = arr(got)
        require(got[0] == 0. and got[-1] == 0., "1-D derivative at the poles is not zero")

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(4, 40, 100), "order": st.sampled_from([2, 4]), "co": st.lists(G.sym(2.), min_size=5, max_size=5),
        "width": st.sampled_from(["1d", "1", "n", "lat", "full"]), "b": st.lists(G.sym(2.), min_size=5, max_size=5), "x": G.sym(3.)}), 600, fine=(16, FINER))
def polynomials(c):
    """Polynomials in latitude up to the order of the approximation (per column different): exact in all rows; identical
    columns give the 1-D result; linear."""
    n, order = c["n"], c["order"]
    grid = bt.Grid(180. / n)
    phi = np.deg2rad(B.lats(n))
    co = c["co"][:order + 1]
    trivial(not any(co[1:]))
    pol = np.polynomial.Polynomial(co)
    f, df = pol(phi), pol.deriv()(phi)
    t = 1e-11 * (1 + np.sum(np.abs(co)) * 10) * n
    got1 = arr(call(grid, f, order), "1-D", (n + 1,))
    close(got1[1:-1], df[1:-1], t, "polynomial (1-D)")
    if c["width"] == "1d":
        return
    w = columns(n, c["width"])
    got = arr(call(grid, np.repeat(f[:, None], w, axis=1), order), "2-D", (n + 1, w))
    close(got, np.repeat(df[:, None], w, axis=1), t, "polynomial (2-D)")
    close(got[1:-1], np.repeat(got1[1:-1, None], w, axis=1), t, "identical columns")
    # Columns do not mix
    amp = 1. + np.arange(w) % 7
    got = call(grid, f[:, None] * amp, order)
    close(got, df[:, None] * amp, 10 * t, "scaled columns")
    # Linear, arbitrary (not polynomial) second field
    h = np.sin(3 * phi)[:, None] * np.asarray(c["b"])[np.arange(w) % 5]
    f2 = f[:, None] * amp
    lin = arr(call(grid, c["x"] * f2 + h, order)) - (c["x"] * arr(call(grid, f2, order)) + arr(call(grid, h, order)))
    close(lin, np.zeros_like(lin), 50 * t, "linearity")

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(4, 12), "order": st.sampled_from([1, 3, 5, 6, 8, 0, -2, "four"]), "d": st.booleans()}), 80)
def refused_orders(c):
    """Orders that are not available."""
    grid = bt.Grid(180. / c["n"])
    f = grid.lat2 if c["d"] else grid.lat
    refused(f"order {c['order']}", grid.derivative_meridional, f, c["order"])
