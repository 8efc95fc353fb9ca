"""C04 Wind, vorticity, divergence and gradient are consistent vector calculus"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C04")

@st.composite
def cases(draw):
    g = draw(G.grids(2, 24, 60))
    res = max(1, B.res(g))
    return {"g": g, "vo": draw(G.sh_fields(res, 1, min_size=0, max_size=3)), "di": draw(G.sh_fields(res, 1, min_size=0, max_size=3)),
            "U": draw(st.sampled_from([1., 10., 100.])), "in": draw(st.sampled_from(["gg", "gs", "sg", "ss"])),
            "dtype": draw(G.dtypes), "layout": draw(G.layouts)}

def potential(g, atoms, U):
    """Divergence and wind of a velocity potential"""
    n, r = g["n"], B.rad(g)
    div, u, v = np.zeros((3, n + 1, 2 * n))
    for a in atoms:
        d = a["n"]
        amp = U * r / d
        div += -amp * d * (d + 1) / r**2 * B.sh(n, a)
        u += amp / r * B.sh_dlon(n, a)
        v += amp / r * B.sh_dlat(n, a)
    return div, u, v

@SUITE.test(cases(), 900, 20000, fine=(16, FINE))
def analytic(c):
    """Random resolved vorticity and divergence harmonics with their closed-form winds, gridded/spectral inputs in all
    combinations; wind both ways and all vorticity/divergence variants. Non-trivial if the wind is not zero."""
    g, n, r = c["g"], c["g"]["n"], B.rad(c["g"])
    grid = B.make_grid(g)
    flow = B.Flow(g, c["vo"], c["U"])
    div, ud, vd = potential(g, c["di"], c["U"])
    u, v, vo = flow.u + ud, flow.v + vd, flow.vo
    su = max(np.max(np.hypot(u, v)), c["U"] * 1e-3)
    trivial(not np.any(u) and not np.any(v))
    label(c["in"], "rotational" if np.any(vo) else "", "divergent" if np.any(div) else "")
    sv = max(np.max(np.abs(vo)), np.max(np.abs(div)), su / r)
    t = B.tol(n)
    sh = lambda f: B.shape_array(f, c["dtype"], c["layout"])
    a, b = sh(vo), sh(div)
    if c["in"][0] == "s":
        a = grid.to_spectral(a)
    if c["in"][1] == "s":
        b = grid.to_spectral(b)
    guard = Guard(a, b)
    uu, vv = grid.wind(a, b)
    guard.check("wind")
    close(uu, u, 2 * t * su, "u")
    close(vv, v, 2 * t * su, "v")
    u, v = sh(u), sh(v)
    guard = Guard(u, v)
    tv = 2 * t * max(sv, su * n / r)
    close(grid.vorticity(u, v), vo, tv, "vorticity")
    close(grid.divergence(u, v), div, tv, "divergence")
    z, d = grid.vorticity_divergence(u, v)
    close(z, vo, tv, "vorticity (combined)")
    close(d, div, tv, "divergence (combined)")
    zs, ds = grid.vorticity_divergence_spectral(u, v)
    close(grid.to_grid(zs), vo, tv, "vorticity (spectral combined)")
    close(grid.to_grid(ds), div, tv, "divergence (spectral combined)")
    close(grid.vorticity_spectral(u, v), arr(zs, "vorticity", kind="c"), tv, "vorticity (spectral)", kind="c")
    close(grid.divergence_spectral(u, v), arr(ds, "divergence", kind="c"), tv, "divergence (spectral)", kind="c")
    close(zs, grid.to_spectral(vo), 2 * tv, "vorticity coefficients", kind="c")
    guard.check("vorticity/divergence")
    # Wind, then back
    z, d = grid.vorticity_divergence(uu, vv)
    close(z, vo, 2 * tv, "vorticity of wind")
    close(d, div, 2 * tv, "divergence of wind")


@st.composite
def gradients(draw):
    g = draw(G.grids(2, 24, 60))
    return {"g": g, "f": draw(G.sh_fields(B.res(g))), "dtype": draw(G.dtypes), "layout": draw(G.layouts),
            "scale": draw(G.weighted((2, st.just(1.)), (1, G.logu(1e-6, 1e6))))}

@SUITE.test(gradients(), 700, 20000, fine=(12, FINE))
def gradient(c):
    """Gradient of random resolved fields (including constants) against the closed form."""
    g, n, r = c["g"], c["g"]["n"], B.rad(c["g"])
    grid = B.make_grid(g)
    f = B.field(n, c["f"]) * c["scale"]
    gx = sum(B.sh_dlon(n, a) for a in c["f"]) * c["scale"] / r
    gy = sum(B.sh_dlat(n, a) for a in c["f"]) * c["scale"] / r
    trivial(not np.any(gx) and not np.any(gy))
    label("zonal" if np.any(gx) else "not zonal", "meridional" if np.any(gy) else "not meridional")
    f = B.shape_array(f, c["dtype"], c["layout"])
    guard = Guard(f)
    res = grid.gradient(f)
    guard.check("gradient")
    require(len(res) == 2, "gradient has two components")
    t = 2 * B.tol(n) * max(np.max(np.abs(f)), 1e-30) * n / r
    close(res[0], gx, t, "zonal component")
    close(res[1], gy, t, "meridional component")


@SUITE.test(st.fixed_dictionaries({"g": G.grids(3, 20, 40), "u": G.any_fields(), "v": G.any_fields(), "roll": st.integers(-40, 40),
        "dtype": G.dtypes, "layout": G.layouts, "in": st.sampled_from(["gg", "gs", "sg", "ss"])}), 600, fine=(12, FINE))
def arbitrary(c):
    """Arbitrary vector and scalar fields: agreement of all variants with each other and with pyspharm, wind <->
    vorticity/divergence inversion, rotation in longitude and reflection at the equator."""
    g, n, r = c["g"], c["g"]["n"], B.rad(c["g"])
    grid = B.make_grid(g)
    ref = B.Ref(g)
    a, b = B.field(n, c["u"]), B.field(n, c["v"])
    sh = lambda f: B.shape_array(f, c["dtype"], c["layout"])
    s = max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-30)
    trivial(s < 1e-20)
    t = 2 * B.tol(n) * s
    # As vector
    tz = t * n / r
    guard = Guard(a, b)
    z, d = (arr(_, "vorticity_divergence", grid.shape) for _ in grid.vorticity_divergence(sh(a), sh(b)))
    rz, rd = ref.vrtdiv(a, b)
    # Rough winds have strong derivatives
    s2 = max(np.max(np.abs(z)), np.max(np.abs(d)))
    tz = max(tz, 2 * B.tol(n) * s2)
    close(z, ref.grid(rz), tz, "vorticity (pyspharm)")
    close(d, ref.grid(rd), tz, "divergence (pyspharm)")
    close(grid.vorticity(sh(a), sh(b)), z, tz, "vorticity variants")
    close(grid.divergence(sh(a), sh(b)), d, tz, "divergence variants")
    k = c["roll"]
    zr, dr = grid.vorticity_divergence(sh(np.roll(a, k, axis=1)), sh(np.roll(b, k, axis=1)))
    close(zr, np.roll(z, k, axis=1), 3 * tz, "rotation (vorticity)")
    close(dr, np.roll(d, k, axis=1), 3 * tz, "rotation (divergence)")
    zm, dm = grid.vorticity_divergence(sh(a[::-1]), sh(-b[::-1]))
    close(zm, -z[::-1], 3 * tz, "reflection (vorticity)")
    close(dm, d[::-1], 3 * tz, "reflection (divergence)")
    # As vorticity and divergence
    x = sh(a) if c["in"][0] == "g" else grid.to_spectral(sh(a))
    y = sh(b) if c["in"][1] == "g" else grid.to_spectral(sh(b))
    u, v = (arr(_, "wind", grid.shape) for _ in grid.wind(x, y))
    ru, rv = ref.wind(ref.spec(a), ref.spec(b))
    close(u, ru, t * r, "u (pyspharm)")
    close(v, rv, t * r, "v (pyspharm)")
    # Linear in both inputs
    u1, v1 = grid.wind(sh(a), np.zeros_like(a))
    u2, v2 = grid.wind(np.zeros_like(a), sh(b))
    close(u, u1 + u2, t * r, "superposition (u)")
    close(v, v1 + v2, t * r, "superposition (v)")
    if B.nt(g) < n:
        z, d = grid.vorticity_divergence(u, v)
        za, da = grid.to_spectral(a), grid.to_spectral(b)
        za, da = np.array(za), np.array(da)
        za[0] = da[0] = 0.
        close(z, grid.to_grid(za), 3 * t * n, "vorticity of wind")
        close(d, grid.to_grid(da), 3 * t * n, "divergence of wind")
    gx, gy = (arr(_, "gradient", grid.shape) for _ in grid.gradient(sh(a)))
    rx, ry = ref.grad(a)
    close(gx, rx, t * n / r + 2 * B.tol(n) * np.max(np.abs(rx)), "gradient (pyspharm)")
    close(gy, ry, t * n / r + 2 * B.tol(n) * np.max(np.abs(ry)), "gradient (pyspharm)")
    guard.check("vector calculus")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20, 40), "a": G.any_fields(), "b": G.any_fields(), "dtypes": st.lists(st.sampled_from(B.INTEGERS), min_size=2, max_size=2),
        "layout": G.layouts, "narrow": st.booleans()}), 250)
def integers(c):
    """Integer and boolean components of any width against the same values in floating point. Non-trivial if neither is
    constant."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    a, b = (B.integers(B.field(n, c[k]), d, c["layout"], c["narrow"]) for k, d in zip("ab", c["dtypes"]))
    fa, fb = a.astype(float), b.astype(float)
    trivial(np.ptp(fa) == 0 or np.ptp(fb) == 0)
    label(*c["dtypes"])
    guard = Guard(a, b)
    t = B.tol(n) * max(np.max(np.abs(fa)), np.max(np.abs(fb)))
    r = B.rad(c["g"])
    for name in ("vorticity", "divergence"):
        close(getattr(grid, name)(a, b), arr(getattr(grid, name)(fa, fb), name), t * n / r, f"{name} of integers")
    for k, (x, y) in enumerate(zip(grid.vorticity_divergence(a, b), grid.vorticity_divergence(fa, fb))):
        close(x, arr(y, "vorticity_divergence"), t * n / r, f"vorticity_divergence of integers ({k})")
    for x, y in zip(grid.gradient(a), grid.gradient(fa)):
        close(x, arr(y, "gradient"), t * n / r, "gradient of integers")
    for x, y in zip(grid.wind(a, b), grid.wind(fa, fb)):
        close(x, arr(y, "wind"), t * r, "wind of integers")
    close(grid.laplace(a), arr(grid.laplace(fa), "laplace"), t * n * n / r**2, "laplacian of integers")
    guard.check("operators")
