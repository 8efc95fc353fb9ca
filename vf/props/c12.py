"""C12 Finite-amplitude wave activity is non-negative and measures waviness"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
from . import c11
import barotropic as bt

SUITE = Suite("C12")

@st.composite
def cases(draw):
    c = draw(c11.cases())
    c["w"] = 0
    c["g"] = draw(G.grids(2, 16, 30, trunc=False, legfunc=False))
    c["dtype"] = draw(G.weighted((4, st.just("f8")), (1, st.sampled_from(["i1", "u1", "i2", "u4"]))))
    return c

def falwa(name, grid, f, lv, quad, **kw):
    if quad != "default":
        kw["quad"] = quad
    if lv is not None:
        kw["levels"] = lv
    return getattr(bt.diagnostics, name)(f, grid, **kw)

def setup(c, generic=False):
    f, lv, lo, hi = c11.build(c, generic)
    grid = B.make_grid(c["g"])
    quad = "sptrapz" if c["quad"] == "default" else c["quad"]
    return c["g"], grid, f, lv, lo, hi, quad

def column_integrals(g, f, q, y, quad):
    """(PV over the area within the contour) - (PV over the area north of y), per column"""
    lat = B.mesh(g["n"])[1]
    z = f - q
    return B.line_integral(g, z, z, quad) - B.line_integral(g, z, lat - y, quad)

@SUITE.test(cases(), 700, 15000, fine=(12, FINE[:3]))
def reference(c):
    """Uninterpolated FALWA on its equivalent latitudes against the difference of independently computed line integrals;
    non-negative; FAWA is its zonal mean. Non-trivial if the wave activity is not zero."""
    g, grid, f, lv, lo, hi, quad = setup(c)
    n, r = g["n"], B.rad(g)
    if not hi - lo > 1e-6 * max(abs(lo), abs(hi)):
        return trivial()
    label(quad, "levels " + type(lv).__name__)
    guard = Guard(f) if not isinstance(lv, np.ndarray) else Guard(f, lv)
    res = falwa("falwa", grid, f, lv, c["quad"], interpolate=False)
    guard.check("falwa")
    q, y = (np.asarray(_, dtype=float) for _ in grid.zonalize(f, levels=lv, interpolate=False, quad=quad))
    if quad == "boxcount":
        yy = 0.5 * (B.lats(n)[1:] + B.lats(n)[:-1])
        a, b = c11.profile_bounds(q, y, (hi, lo), yy)
    else:
        yy = y
        a = b = q
    got = arr(res[0], "falwa", (yy.size, 2 * n)).astype(float)
    close(res[1], yy, 1e-6, "latitudes of falwa")
    trivial(np.max(np.abs(got)) < 1e-6 * r * (hi - lo))
    cos = np.cos(np.deg2rad(yy))
    for k in range(yy.size):
        if cos[k] < 1e-6:
            continue
        t = 1e-10 * (hi - lo + abs(lo) + abs(hi)) * r / cos[k]
        h1 = column_integrals(g, f, a[k], yy[k], quad) / cos[k]
        h2 = h1 if a[k] == b[k] else column_integrals(g, f, b[k], yy[k], quad) / cos[k]
        # Either side of a jump of the profile
        slack = (b[k] - a[k]) * np.pi * r / cos[k]
        if slack < 1e-3 * (hi - lo) * r:
            close(got[k], 0.5 * (h1 + h2), t + slack, f"falwa ({quad})")
        else:
            lower, upper = np.minimum(h1, h2) - slack, np.maximum(h1, h2) + slack
            require(np.all(got[k] >= lower - t) and np.all(got[k] <= upper + t), "falwa at a jump of the profile")
        require(np.all(got[k] >= -10 * t), lambda: f"negative wave activity {np.min(got[k])} at {yy[k]} ({quad})")
    fres = falwa("fawa", grid, f, lv, c["quad"], interpolate=False)
    close(fres[1], yy, 1e-6, "latitudes of fawa")
    ok = cos > 1e-6
    close(arr(fres[0], "fawa", yy.shape)[ok], np.mean(got[ok], axis=1), 1e-10 * (hi - lo + abs(lo)) * r / np.maximum(cos[ok], 1e-6), "fawa")

@SUITE.test(cases(), 500, 12000, fine=(8, FINE[:3]))
def interpolated(c):
    """Interpolated FALWA/FAWA: zero at the poles, non-negative, linear interpolation of the uninterpolated values; scaling,
    offsets, rotation and reflection."""
    c = dict(c, amp=1.)
    g, grid, f, lv, lo, hi, quad = setup(c, generic=True)
    n, r = g["n"], B.rad(g)
    out = arr(falwa("falwa", grid, f, lv, c["quad"]), "falwa", grid.shape).astype(float)
    mean = arr(falwa("fawa", grid, f, lv, c["quad"]), "fawa", (n + 1,)).astype(float)
    raw, yy = falwa("falwa", grid, f, lv, c["quad"], interpolate=False)
    raw, yy = np.asarray(raw, dtype=float), np.asarray(yy, dtype=float)
    s = (hi - lo + abs(lo) + abs(hi)) * r
    trivial(np.max(np.abs(out)) < 1e-6 * s)
    label(quad)
    cos = max(np.min(np.cos(np.deg2rad(yy))), 1e-7)
    t = 1e-10 * s / cos
    require(np.all(out[0] == 0.) and np.all(out[-1] == 0.), "wave activity at the poles")
    require(np.all(out >= -10 * t), lambda: f"negative wave activity {np.min(out)}")
    close(mean, np.mean(out, axis=1), t + 1e-9 * s, "fawa is the zonal mean of falwa")
    order = np.argsort(yy)
    def ref(d):
        x = np.concatenate([[-90.], yy[order], [90.]])
        return np.stack([np.interp(B.lats(n) + d, x, np.concatenate([[0.], v[order], [0.]])) for v in raw.T], axis=1)
    a, b = ref(-c11.DELTA), ref(c11.DELTA)
    # Latitudes of different contours may (nearly) coincide
    gaps = np.diff(yy[order])
    if np.all(gaps > 1e-6):
        close(out, 0.5 * (a + b), 0.5 * np.abs(a - b) + t + 1e-9 * s, "interpolation of falwa")
    # Contours that share their latitude or meet a latitude of the grid are sensitive to rounding
    if not np.all(gaps > 1e-4) or np.min(np.abs(yy[:, None] - B.lats(n)[None, 1:-1])) < 1e-5:
        label("relations skipped")
        return
    f = np.asarray(f, dtype=float)
    k = c["seed"] % (2 * n)
    close(falwa("falwa", grid, np.roll(f, k, axis=1), lv, c["quad"]), np.roll(out, k, axis=1), 10 * t + 1e-7 * s, "rotation")
    sc = 2.**(c["seed"] % 9 - 2)
    lt = lambda x: sc * x if isinstance(x, np.ndarray) else x
    close(falwa("falwa", grid, sc * f, lt(lv), c["quad"]), sc * out, sc * (10 * t + 1e-7 * s), "scaling")
    lt = lambda x: x + 1.7 if isinstance(x, np.ndarray) else x
    close(falwa("falwa", grid, f + 1.7, lt(lv), c["quad"]), out, 10 * (t + 1e-10 * r / cos) + 1e-7 * (s + r), "offset")
    if quad == "sptrapz":
        lt = lambda x: -x if isinstance(x, np.ndarray) else x
        close(falwa("falwa", grid, -f[::-1], lt(lv), c["quad"]), out[::-1], 10 * t + 1e-7 * s, "reflection")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20, 36, trunc=False, legfunc=False), "inc": st.lists(G.logu(1e-2, 1.), min_size=60, max_size=60),
        "levels": c11.levels, "off": G.sym(10.), "amp": G.logu(1e-9, 10.), "fr": G.uni(0.05, 0.95), "wave": G.uni(0.05, 1.), "k": st.integers(1, 4)}), 400, fine=(6, FINE[:3]))
def symmetric_flows(c):
    """PV that decreases from north to south and depends on latitude only: no wave activity (exactly, up to rounding, with the
    trapezoidal rule for all levels and with box counting for levels between the rows); a disturbance creates some."""
    g = c["g"]
    n, r = g["n"], B.rad(g)
    grid = B.make_grid(g)
    prof = c["amp"] * (c["off"] - np.cumsum((c["inc"] * 4)[:n + 1]))
    f = np.repeat(prof[:, None], 2 * n, axis=1)
    hi, lo = prof[0], prof[-1]
    lv = c["levels"]
    if isinstance(lv, list):
        lv = lo + (hi - lo) * np.asarray(lv)
    s = (hi - lo + abs(lo) + abs(hi)) * r
    raw, yy = bt.diagnostics.falwa(f, grid, levels=lv, interpolate=False)
    cos = np.maximum(np.cos(np.deg2rad(np.asarray(yy, dtype=float))), 1e-7)
    raw = arr(raw, "falwa", (len(yy), 2 * n))
    # Error of the latitude translates into an area
    close(raw, np.zeros(raw.shape), (1e-9 * s / cos)[:, None], "falwa of symmetric flow")
    out = arr(bt.diagnostics.falwa(f, grid, levels=lv), "falwa", grid.shape)
    close(out, np.zeros(grid.shape), 1e-9 * s / np.min(cos), "interpolated falwa of symmetric flow")
    mid = prof[:-1] + c["fr"] * np.diff(prof)
    out = arr(bt.diagnostics.falwa(f, grid, levels=mid, quad="boxcount"), "falwa", grid.shape)
    close(out, np.zeros(grid.shape), 1e-9 * s / np.cos(np.deg2rad(90 - 90. / n)), "falwa of symmetric flow (boxcount)")
    # Shifting contours meridionally creates activity
    lon, lat = B.mesh(n)
    wavy = np.array([np.interp(-(la + 0.5 * c["wave"] * 180. / n * 2 * np.cos(np.deg2rad(c["k"] * lo_)) * np.cos(np.deg2rad(la))), -B.lats(n), prof)
        for lo_, la in zip(lon.ravel(), lat.ravel())]).reshape(lon.shape)
    if n >= 6 and 2 * n % c["k"] == 0 and 2 * n // c["k"] >= 4:
        act = np.asarray(bt.diagnostics.fawa(wavy, grid), dtype=float)
        require(np.max(act) > 1e-6 * (hi - lo) * r / n**2 * c["wave"]**2, "no wave activity in wavy flow")

@SUITE.test(st.fixed_dictionaries({"s": G.states(3, 14, om=st.sampled_from([G.EARTH_OM, G.EARTH_OM, 0., 1e-5, -7e-5])), "zero": st.booleans(),
        "quad": st.sampled_from(["sptrapz", "boxcount"]), "levels": G.weighted((2, st.none()), (1, st.integers(2, 20)))}), 300, fine=(8, FINE[:3]))
def states(c):
    """State shortcuts, states and array-plus-grid calls agree, in all combinations; constant PV has no activity."""
    s = c["s"]
    if c["zero"]:
        state = bt.init.motionless(B.make_grid(s["g"]), B.make_time(s["time"]))
    else:
        state = B.make_state(s)
    grid = state.grid
    pv = np.array(state.pv, dtype=float)
    t = 1e-4 * max(np.max(np.abs(pv)), 1e-30) * B.rad(s["g"])
    # Identical input, identical computation
    want = bt.diagnostics.falwa(state.pv, grid)
    a = arr(state.falwa, "State.falwa", grid.shape)
    require(np.all(np.isfinite(a)), "falwa is not finite")
    close(a, want, t, "State.falwa")
    close(bt.diagnostics.falwa(state), want, t, "falwa(state)")
    close(state.falwa, a, 0., "State.falwa again")
    close(state.fawa, np.mean(np.asarray(want, dtype=float), axis=1), t, "State.fawa")
    close(bt.diagnostics.fawa(state), np.mean(np.asarray(want, dtype=float), axis=1), t, "fawa(state)")
    kw = dict(quad=c["quad"], levels=c["levels"])
    for name in ("falwa", "fawa"):
        f = getattr(bt.diagnostics, name)
        one = arr(f(state, **kw), name)
        require(np.all(np.isfinite(one)), f"{name} is not finite")
        close(f(state.pv, grid, **kw), one, t, f"{name} of state and array")
        x, y = f(state, interpolate=False, **kw)
        x2, y2 = f(state.pv, grid, interpolate=False, **kw)
        close(y2, y, 1e-6, "latitudes of state and array")
    if c["zero"] and s["g"]["om"] >= 0:
        close(a, np.zeros(grid.shape), t, "falwa of motionless state")
