"""C11 Zonalization rearranges a field by equivalent latitude, preserving area"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C11")

levels = G.weighted((2, st.none()), (2, st.integers(1, 30)),
        (4, st.lists(G.uni(0.02, 0.98), min_size=1, max_size=12)))

@st.composite
def cases(draw):
    return {"g": draw(G.grids(2, 20, 40, trunc=False, legfunc=False)), "f": draw(G.any_fields(4)),
            "bg": draw(st.sampled_from([0., 0., 1., 3., -2.])), "amp": draw(G.weighted((2, st.just(1.)), (1, G.logu(1e-9, 1e6)))),
            "w": draw(G.weighted((3, st.just(0)), (2, st.integers(1, 60)))), "levels": draw(levels),
            "quad": draw(st.sampled_from(["sptrapz", "sptrapz", "boxcount", "default"])),
            "dtype": draw(st.one_of(G.dtypes, G.dtypes, st.sampled_from(B.INTEGERS[:-1]))), "layout": draw(G.layouts), "seed": draw(G.seeds),
            "intlevels": draw(st.booleans())}

def build(c, generic=False):
    n = c["g"]["n"]
    lon, lat = B.mesh(n)
    f = B.field(n, c["f"]) + c["bg"] * np.sin(np.deg2rad(lat))
    if generic:
        # Without plateaus and symmetries, where rounding decides about whole rows
        f = f + 0.137 * np.cos(np.deg2rad(lat) - 0.3) * np.cos(1.7 + np.deg2rad(lon) * 1.37) + 0.0713 * np.sin(5.1 * np.deg2rad(lat) + 1)
    f = f * c["amp"]
    if c["w"]:
        f = f[:, :1 + c["w"] % (2 * n)]
    whole = c["dtype"] in B.INTEGERS
    if generic and whole:
        f = B.shape_array(f, "f8", c["layout"])
    else:
        f = (B.integers if whole else B.shape_array)(f, c["dtype"], c["layout"])
    lv = c["levels"]
    lo, hi = float(np.min(f)), float(np.max(f))
    if isinstance(lv, list):
        lv = lo + (hi - lo) * np.asarray(lv)
        if c["intlevels"] and not generic:
            lv = np.rint(lv).astype(int)
        if not (np.all(lv > lo) and np.all(lv < hi)):
            lv = None
    if isinstance(lv, int) and c["intlevels"]:
        lv = np.int64(lv)
    return f, lv, lo, hi

def zonalize(grid, f, lv, quad, **kw):
    if quad != "default":
        kw["quad"] = quad
    if lv is not None:
        kw["levels"] = lv
    return grid.zonalize(f, **kw)

def reference_sine(g, f, q, quad):
    """Sine of the equivalent latitude for each level"""
    n, r = g["n"], B.rad(g)
    w = f.shape[1]
    out = []
    for x in q:
        area = np.sum(B.line_integral(g, np.ones(f.shape), f.astype(float) - x, quad)) * r * np.pi / n * (2 * n / w)
        out.append(1. - area / (2 * np.pi * r**2))
    return np.clip(out, -1., 1.)

DELTA = 1e-7

def profile_bounds(q, y, poles, at):
    """Linear interpolation of (y, q) with pole values, evaluated just south and north of the latitudes"""
    q, y = np.asarray(q, dtype=float), np.asarray(y, dtype=float)
    x = np.concatenate([[-90. - 1e-12], y, [90. + 1e-12]])
    v = np.concatenate([[poles[1]], q, [poles[0]]])
    # Levels rise from south to north
    order = np.lexsort((v, x))
    a = np.interp(np.asarray(at) - DELTA, x[order], v[order])
    b = np.interp(np.asarray(at) + DELTA, x[order], v[order])
    return np.minimum(a, b), np.maximum(a, b)

@SUITE.test(cases(), 1000, 25000, fine=(12, FINE))
def areas(c):
    """Arbitrary fields, globe and sectors, explicit/counted/default levels, both quadratures: equivalent latitude of each
    returned level against areas from the independent integral. Non-trivial if the field is not constant."""
    g = c["g"]
    n, r = g["n"], B.rad(g)
    grid = B.make_grid(g)
    f, lv, lo, hi = build(c)
    if not hi - lo > 1e-6 * max(abs(lo), abs(hi)):
        return trivial()
    quad = "sptrapz" if c["quad"] == "default" else c["quad"]
    label(quad, "sector" if f.shape[1] < 2 * n else "globe", "levels " + type(lv).__name__)
    guard = Guard(f) if not isinstance(lv, np.ndarray) else Guard(f, lv)
    res = zonalize(grid, f, lv, c["quad"], interpolate=False)
    guard.check("zonalize")
    require(len(res) == 2, "contour values and latitudes")
    if isinstance(lv, np.ndarray):
        q = lv
        close(res[0], lv, 0., "levels")
    else:
        count = lv if lv is not None else (n + 1) * (2 if quad == "boxcount" else 1)
        q = arr(res[0], "levels", (count,))
        require(np.all(q > lo - 1e-6 * (hi - lo)) and np.all(q < hi + 1e-6 * (hi - lo)), "levels outside of the range of the field")
    y = arr(res[1], "equivalent latitudes", np.shape(q)).astype(float)
    # Rounding of the difference to the level
    eps = (5e-7 if c["dtype"] == "f4" else 1e-14) * max(abs(lo), abs(hi))
    q = np.asarray(q, dtype=float)
    a, b = reference_sine(g, f, q - eps, quad), reference_sine(g, f, q + eps, quad)
    close(np.sin(np.deg2rad(y)), 0.5 * (a + b), 0.5 * (b - a) + (1e-6 if c["dtype"] == "f4" else 1e-9), f"sine of equivalent latitude ({quad})")
    order = np.argsort(np.asarray(q))
    require(np.all(np.diff(y[order]) >= -1e-5), "equivalent latitude does not rise with contour value")

@SUITE.test(cases(), 800, 20000, fine=(12, FINE))
def profile(c):
    """Interpolated profile: maximum to minimum, monotonic, equal to the linear interpolation of contour values between the
    equivalent latitudes of an independent computation (either side of a jump at coinciding latitudes)."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    c = dict(c, dtype="f8")
    f, lv, lo, hi = build(c)
    s = max(abs(lo), abs(hi), 1e-200)
    quad = "sptrapz" if c["quad"] == "default" else c["quad"]
    guard = Guard(f) if not isinstance(lv, np.ndarray) else Guard(f, lv)
    prof = arr(zonalize(grid, f, lv, c["quad"]), "profile", (n + 1,))
    guard.check("zonalize")
    require(np.all(np.isfinite(prof)), "profile is not finite")
    close(prof[0], hi, 1e-12 * s, "north pole")
    close(prof[-1], lo, 1e-12 * s, "south pole")
    if not hi - lo > 1e-6 * s:
        trivial()
        return close(prof, np.full(n + 1, 0.5 * (lo + hi)), (hi - lo) + 1e-12 * s, "constant field")
    require(np.all(prof >= lo - 1e-12 * s) and np.all(prof <= hi + 1e-12 * s), "profile leaves the range of the field")
    require(np.all(np.diff(prof) <= 1e-9 * s), "profile does not decrease from north to south")
    q = lv if isinstance(lv, np.ndarray) else np.asarray(zonalize(grid, f, lv, c["quad"], interpolate=False)[0])
    y = np.rad2deg(np.arcsin(reference_sine(g, f, q, quad)))
    a, b = profile_bounds(q, y, (hi, lo), B.lats(n)[1:-1])
    close(prof[1:-1], 0.5 * (a + b), 0.5 * (b - a) + 1e-8 * s, "interpolated profile")

@SUITE.test(cases(), 500, 12000, fine=(6, FINE[:3]))
def laws(c):
    """Order of columns, scaling, offsets, repetition of sectors."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    c = dict(c, dtype="f8", layout="c", amp=1.)
    f, lv, lo, hi = build(c, generic=True)
    rnd = np.random.RandomState(c["seed"])
    t = 1e-7 * max(abs(lo), abs(hi))
    p = arr(zonalize(grid, f, lv, c["quad"]), "profile", (n + 1,))
    def compare(got, base, tol, what, *sources):
        # Rounding decides at a jump of the profile
        ok = np.ones(n + 1, dtype=bool)
        for src, l in sources:
            y = np.asarray(zonalize(grid, src, l, c["quad"], interpolate=False)[1])
            ok &= np.min(np.abs(y[:, None] - B.lats(n)), axis=0) > 1e-5
        close(arr(got, what, (n + 1,))[ok], np.asarray(base)[ok], tol, what)
    compare(zonalize(grid, f[:, rnd.permutation(f.shape[1])], lv, c["quad"]), p, t, "permuted columns", (f, lv))
    a, b = 2.**rnd.randint(-3, 8), rnd.uniform(-5, 5)
    lt = lambda x: x if not isinstance(x, np.ndarray) else a * x
    compare(zonalize(grid, a * f, lt(lv), c["quad"]), a * p, a * t, "scaled", (f, lv))
    lt = lambda x: x if not isinstance(x, np.ndarray) else x + b
    compare(zonalize(grid, f + b, lt(lv), c["quad"]), p + b, t + 1e-7 * abs(b), "offset", (f, lv))
    # A sector repeated around the globe gives the profile of the sector
    divisors = [k for k in range(1, 2 * n) if (2 * n) % k == 0]
    w = divisors[c["seed"] % len(divisors)]
    if f.shape[1] >= w and not isinstance(lv, np.ndarray):
        sec = f[:, :w]
        compare(zonalize(grid, np.tile(sec, (1, 2 * n // w)), lv, c["quad"]), zonalize(grid, sec, lv, c["quad"]), t, "repeated sector", (sec, lv))
        label("sector")
    if f.shape[1] == 2 * n and lv is None and c["quad"] in ("default", "sptrapz"):
        s = bt.State(grid, 0., pv=f)
        z = arr(s.pv_zonalized, "pv_zonalized", (n + 1,))
        close(z, grid.zonalize(s.pv), 1e-9 * max(abs(lo), abs(hi)), "State.pv_zonalized")
        close(s.pv_zonalized, z, 0., "State.pv_zonalized again")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 24, 48, trunc=False, legfunc=False), "inc": st.lists(G.logu(1e-2, 1.), min_size=60, max_size=60),
        "w": st.integers(1, 60), "full": st.booleans(), "seed": G.seeds, "off": G.sym(10.), "fr": G.uni(0.05, 0.95)}), 400, fine=(8, FINE))
def monotonic_fields(c):
    """Fields that decrease from north to south and depend on latitude only: contours lie at their own latitude and the field is
    reproduced if the levels are its values (spherical trapezoidal rule); cap areas for box counting."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    prof = c["off"] - np.cumsum((c["inc"] * 4)[:n + 1])
    w = 2 * n if c["full"] else 1 + c["w"] % (2 * n)
    f = np.repeat(prof[:, None], w, axis=1)
    lat = B.lats(n)
    if n > 1:
        idx = np.random.RandomState(c["seed"]).permutation(np.arange(1, n))
        q, y = grid.zonalize(f, levels=prof[idx], interpolate=False)
        close(np.sin(np.deg2rad(arr(y))), np.sin(np.deg2rad(lat[idx])), 1e-9, "latitude of own contour")
        close(grid.zonalize(f, levels=prof[idx]), prof, 1e-7 * np.ptp(prof), "reproduced field")
    mid = prof[:-1] + c["fr"] * np.diff(prof)
    q, y = grid.zonalize(f, levels=mid, interpolate=False)
    close(np.sin(np.deg2rad(arr(y))), np.sin(np.deg2rad(lat[:-1] - c["fr"] * 180. / n)), 1e-9, "latitude of contours between rows")
    q, y = grid.zonalize(f, levels=mid, interpolate=False, quad="boxcount")
    close(np.sin(np.deg2rad(arr(y))), np.sin(np.deg2rad(0.5 * (lat[:-1] + lat[1:]))), 1e-9, "latitude of contours (boxcount)")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(6, 24, 48, trunc=False, legfunc=False), "tilt": G.uni(0., 180.), "lon": st.integers(0, 359), "off": G.sym(3.),
        "amp": G.logu(1e-6, 1e3), "levels": st.one_of(st.none(), st.none(), st.integers(8, 60)), "quad": st.sampled_from(["default", "sptrapz", "boxcount"])}), 250, fine=(8, FINE[:3]))
def tilted_rotation(c):
    """Sine of the latitude in a tilted coordinate system: rearranged to the sine of the latitude, with automatic contours
    over the whole range of the field, to the accuracy of the grid and of the number of contours."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    lon, lat = (np.deg2rad(_) for _ in B.mesh(n))
    t = np.deg2rad(c["tilt"])
    f = c["amp"] * (c["off"] + np.cos(t) * np.sin(lat) + np.sin(t) * np.cos(lat) * np.cos(lon - np.deg2rad(c["lon"])))
    trivial(t == 0)
    label(c["quad"], "default levels" if c["levels"] is None else "levels")
    got = arr(zonalize(grid, f, c["levels"], c["quad"]), "profile", (n + 1,))
    count = c["levels"] or n
    tol = (np.pi / count)**2 / 8 * 1.5 + ((12. if n <= 60 else 30.) / n**2 if c["quad"] != "boxcount" else 1.5 / n)
    close(got, c["amp"] * (c["off"] + np.sin(np.deg2rad(B.lats(n)))), c["amp"] * tol, "zonalized " + c["quad"])

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 8, trunc=False, legfunc=False), "lat": st.lists(G.uni(-90., 90.), min_size=1, max_size=6),
        "kind": st.sampled_from(["float", "np", "1d", "2d", "int", "0d"]), "over": st.sampled_from([0., 0., 0., -1e-9, 1e-9, -0.5, 2.])}), 500)
def equivalent_latitude(c):
    """Polar cap areas (numbers, arrays, slightly or far out of range) to latitude."""
    g, r = c["g"], B.rad(c["g"])
    grid = B.make_grid(g)
    sine = np.sin(np.deg2rad(np.asarray(c["lat"]))) - c["over"]
    area = 2 * np.pi * r**2 * (1 - sine)
    if c["kind"] in ("float", "np", "int", "0d"):
        area = area[0]
        area = {"float": float, "np": np.float64, "int": lambda x: int(x), "0d": np.asarray}[c["kind"]](area)
    elif c["kind"] == "2d":
        area = np.stack([area, area[::-1]])
    guard = Guard(np.asarray(area))
    got = arr(grid.equivalent_latitude(area), "equivalent_latitude", np.shape(area))
    guard.check("equivalent_latitude")
    label(c["kind"], "clipped" if c["over"] else "")
    want = np.clip(1. - np.asarray(area, dtype=float) / (2 * np.pi * r**2), -1., 1.)
    close(np.sin(np.deg2rad(got)), want, 1e-12, "sine of equivalent latitude")
    require(np.all(np.abs(got) <= 90.0000001), "latitude range")

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(2, 20), "lat": st.lists(st.integers(-899, 899), min_size=1, max_size=12, unique=True),
        "v": st.lists(G.sym(2.), min_size=12, max_size=12), "poles": st.tuples(G.sym(2.), G.sym(2.)).map(list), "cols": st.integers(0, 5),
        "dtype": G.weighted((2, G.dtypes), (1, st.sampled_from(B.INTEGERS))), "kind": st.sampled_from(["default", "linear", "nearest", "previous", "next"])}), 400)
def interpolation(c):
    """Meridional interpolation of 1-D profiles and 2-D fields from irregular, unordered latitudes."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    lat = np.asarray(c["lat"]) / 10.
    v = np.asarray(c["v"])[:lat.size]
    lo, hi = c["poles"][1], c["poles"][0]
    f = v if c["cols"] == 0 else v[:, None] * (1. + np.arange(c["cols"]))
    f = (B.integers if c["dtype"] in B.INTEGERS else B.shape_array)(f, c["dtype"])
    s = max(np.max(np.abs(f.astype(float))), abs(lo), abs(hi), 1.)
    guard = Guard(f, lat)
    kw = {} if c["kind"] == "default" else {"kind": c["kind"]}
    got = grid.interpolate_meridional(f, lat, pole_values=(hi, lo), **kw)
    guard.check("interpolate_meridional")
    o = np.argsort(lat)
    x, at = np.concatenate([[-90.], lat[o], [90.]]), B.lats(n)
    # Position of a row that (almost) coincides with a source or with the middle between two is left to rounding
    ok = np.ones(n + 1, dtype=bool)
    if c["kind"] in ("nearest", "previous", "next"):
        ok = np.min(np.abs(at[:, None] - np.concatenate([x[1:-1], 0.5 * (x[1:] + x[:-1])])), axis=1) > 1e-6
    def ref(v):
        v = np.concatenate([[lo], v[o], [hi]])
        j = np.clip(np.searchsorted(x, at, side="right") - 1, 0, x.size - 2)
        if c["kind"] == "previous":
            return np.where(at == 90., hi, v[j])
        if c["kind"] == "next":
            return np.where(at == -90., lo, v[j + 1])
        if c["kind"] == "nearest":
            return np.where(at - x[j] < x[j + 1] - at, v[j], v[j + 1])
        return np.interp(at, x, v)
    want = ref(f) if f.ndim == 1 else np.stack([ref(x) for x in f.T], axis=1)
    t = (1e-6 if c["dtype"] == "f4" else 1e-10) * s
    close(arr(got, "interpolation", want.shape)[ok], want[ok], t, "interpolation " + c["kind"])
    fun = grid.interp1d_meridional(f, lat, (hi, lo), **kw)
    close(arr(fun(at), "interpolation function", want.shape)[ok], want[ok], t, "interpolation function " + c["kind"])
