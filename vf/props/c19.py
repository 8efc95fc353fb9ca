"""C19 Orographic forcing is -f/H u.grad(h) for any orography, wind and grid"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C19")

winds = st.one_of(st.none(), st.tuples(st.sampled_from(["act", "zon", "sbr"]), G.weighted((1, st.just(1)), (3, G.sym(20.)))).map(list))
options = st.fixed_dictionaries({"wind": winds, "H": G.weighted((2, st.none()), (1, st.just(8500)), (2, G.logu(1e2, 1e5))),
    "fcor": G.weighted((3, st.none()), (1, st.just(1e-4)), (1, G.sym(2e-4)), (1, st.just(0.)))})

@st.composite
def axes(draw):
    """Irregular coordinates of an orography data set, degrees"""
    # Data sets may extend beyond the 0° meridian on either side
    ends = [draw(G.weighted((3, st.just(0)), (1, st.integers(-60, -1)))), draw(G.weighted((3, st.just(360)), (1, st.integers(361, 420))))]
    lon = sorted(set(draw(st.lists(st.integers(1, 359), max_size=12)) + ends))
    lat = sorted(set(draw(st.lists(st.integers(-89, 89), max_size=12)) + [-90, 90]), reverse=True)
    return {"lon": lon, "lat": lat, "dtype": draw(st.sampled_from(["f8", "f4", "i8"])), "seed": draw(G.seeds), "amp": draw(G.logu(1., 5000.)),
            "hdtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"]))}

mountains = st.fixed_dictionaries({"h": G.weighted((1, st.none()), (3, G.sym(4000.))), "lon": G.weighted((1, st.none()), (2, st.sampled_from([0, 1, 359, 360, 180, -30, 400.])), (3, G.uni(-180., 360.))),
    "lat": G.uni(-90., 90.), "sd": G.weighted((1, st.none()), (1, G.uni(3., 60.).map(lambda x: [x])), (2, st.tuples(G.uni(3., 60.), G.uni(3., 60.)).map(list)))})
sines = st.fixed_dictionaries({"h": G.weighted((1, st.none()), (3, G.sym(4000.))), "lat": G.weighted((1, st.none()), (3, G.uni(-90., 90.))),
    "sd": G.weighted((1, st.none()), (3, G.uni(3., 60.))), "k": G.weighted((1, st.none()), (4, st.integers(1, 9)))})

@st.composite
def terms(draw):
    kind = draw(st.sampled_from(["gridded", "gridded", "gauss", "gauss", "sine", "custom"]))
    out = {"kind": kind, "opt": draw(options)}
    if kind == "gridded":
        out["data"] = draw(axes())
    elif kind == "gauss":
        out["data"] = draw(mountains)
    elif kind == "sine":
        out["data"] = draw(sines)
    else:
        out["data"] = {"f": draw(G.any_fields()), "amp": draw(G.logu(1., 3000.))}
    return out

def bilinear(lon, lat, h, x, y):
    """Value at longitude x (0 to 360, covered by lon) and latitude y for increasing lon and decreasing lat"""
    i = min(max(np.searchsorted(lon, x, side="right") - 1, 0), len(lon) - 2)
    j = min(max(np.searchsorted(-lat, -y, side="right") - 1, 0), len(lat) - 2)
    a = (x - lon[i]) / (lon[i+1] - lon[i])
    b = (lat[j] - y) / (lat[j] - lat[j+1])
    return (1-b) * ((1-a) * h[j,i] + a * h[j,i+1]) + b * ((1-a) * h[j+1,i] + a * h[j+1,i+1])

def gridded_data(d):
    lon, lat = np.array(d["lon"], dtype=d["dtype"]), np.array(d["lat"], dtype=d["dtype"])
    h = np.random.RandomState(d["seed"]).uniform(-0.2, 1, size=(len(lat), len(lon))) * d["amp"]
    if d["lon"][-1] - d["lon"][0] == 360:
        h[:,-1] = h[:,0]
    h[0], h[-1] = h[0,0], h[-1,0]
    return lon, lat, (np.round(h) if d["hdtype"] == "i4" else h).astype(d["hdtype"])

def make(t, guards=None):
    """Forcing term and function (n) -> height on the grid"""
    o, d = t["opt"], t["data"]
    kw = {}
    if o["wind"] is not None:
        kw["wind"] = tuple(o["wind"])
    if o["H"] is not None:
        kw["scale_height"] = o["H"]
    if o["fcor"] is not None:
        kw["fcor_ref"] = o["fcor"]
    if t["kind"] == "gridded":
        lon, lat, h = gridded_data(d)
        if guards is not None:
            guards += [lon, lat, h]
        term = bt.rhs.Orography(lon, lat, h, **kw)
        x, y, z = lon.astype(float), lat.astype(float), h.astype(float)
        return term, lambda n: np.array([[bilinear(x, y, z, a, b) for a in B.lons(n)] for b in B.lats(n)])
    if t["kind"] == "gauss":
        c = {}
        if d["h"] is not None:
            c["height"] = d["h"]
        if d["lon"] is not None:
            c["center"] = (d["lon"], d["lat"])
        if d["sd"] is not None:
            c["stdev"] = d["sd"][0] if len(d["sd"]) == 1 else tuple(d["sd"])
        term = bt.rhs.GaussianMountain(**c, **kw)
        h = d["h"] if d["h"] is not None else 1500.
        x0, y0 = (d["lon"], d["lat"]) if d["lon"] is not None else (30., 45.)
        sx, sy = (d["sd"][0], d["sd"][-1]) if d["sd"] is not None else (7.5, 20.)
        def field(n):
            lon, lat = B.mesh(n)
            dx = np.min([np.abs(lon - x0 + 360. * k) for k in range(-3, 4)], axis=0)
            return h * np.exp(-0.5 * (dx / sx)**2) * np.exp(-0.5 * ((lat - y0) / sy)**2)
        return term, field
    if t["kind"] == "sine":
        c = {}
        for k, name in (("h", "height"), ("lat", "center_lat"), ("sd", "stdev_lat"), ("k", "wavenumber")):
            if d[k] is not None:
                c[name] = d[k]
        term = bt.rhs.ZonalSineMountains(**c, **kw)
        h, y0, sd, k = (d[a] if d[a] is not None else b for a, b in (("h", 1500.), ("lat", 45.), ("sd", 10.), ("k", 4)))
        def field(n):
            lon, lat = B.mesh(n)
            return h * 0.5 * (1 + np.cos(np.deg2rad(k * lon))) * np.exp(-0.5 * ((lat - y0) / sd)**2)
        return term, field
    class Custom(bt.rhs.Orography):
        def orography(self, grid):
            return B.field(grid.nlat - 1, d["f"]) * d["amp"]
    return Custom(None, None, None, **kw), lambda n: B.field(n, d["f"]) * d["amp"]

def wind_of(t, g, u, v):
    kind, fac = t["opt"]["wind"] if t["opt"]["wind"] is not None else ("act", 1.)
    if kind == "act":
        return fac * u, fac * v
    if kind == "zon":
        return np.repeat(fac * np.mean(u, axis=1)[:, None], u.shape[1], axis=1), 0. * v
    return np.repeat(fac * np.cos(np.deg2rad(B.lats(g["n"])))[:, None], u.shape[1], axis=1), 0. * v

def prefactor(t, g):
    f = B.fcor2(g) if t["opt"]["fcor"] is None else np.full((g["n"] + 1, 2 * g["n"]), t["opt"]["fcor"])
    return -f / (10000. if t["opt"]["H"] is None else t["opt"]["H"])

def check_term(term, height, t, g, state, u, v, what):
    """Forcing of the term against the definition evaluated with pyspharm"""
    n, r = g["n"], B.rad(g)
    h = height(n)
    close(term.orography(state.grid), h, 2e-6 * max(np.max(np.abs(h)), 1e-6), f"orography ({what})")
    hx, hy = B.Ref(g).grad(h)
    wu, wv = wind_of(t, g, u, v)
    pre = prefactor(t, g)
    want = pre * (wu * hx + wv * hy)
    sh = max(np.max(np.abs(h)), 1e-6) * n / r
    su = max(np.max(np.abs(wu)), np.max(np.abs(wv)), 1e-30)
    # Rounding errors of the inverted wind
    fac = 1. if t["opt"]["wind"] is None else abs(t["opt"]["wind"][1])
    err = B.tol(n, su) + fac * B.tol(n, np.max(np.abs(u)) + np.max(np.abs(B.fcor(g))) * r)
    tol = 0.1 * np.max(np.abs(pre)) * sh * (2 * err + 2 * B.tol(n, su))
    if tol == 0.:
        tol = 1e-300
    close(arr(term(state), what, (n + 1, 2 * n)), want, tol, f"forcing ({what})")
    return want, tol

@st.composite
def cases(draw):
    return {"s": draw(G.states(2, 16, 36)), "t": draw(terms())}

@SUITE.test(cases(), 700, 15000, fine=(16, FINE))
def definition(c):
    """Gridded orography with irregular coordinates, mountains of all positions, widths and wavenumbers, user-defined orography;
    every wind, scale height and Coriolis parameter. Non-trivial unless the forcing vanishes."""
    s, t = c["s"], c["t"]
    g = s["g"]
    f = B.flow_of(s)
    state = B.make_state(s)
    guards = []
    term, height = make(t, guards)
    guard = Guard(*guards)
    label(t["kind"], "wind " + (t["opt"]["wind"][0] if t["opt"]["wind"] else "default"), "f " + ("actual" if t["opt"]["fcor"] is None else "constant"))
    before = np.array(state.pv_spectral)
    want, tol = check_term(term, height, t, g, state, f.u, f.v, t["kind"])
    trivial(np.max(np.abs(want)) <= 2 * tol)
    close(term(state), term(state), tol, "second call")
    guard.check("Orography")
    close(state.pv_spectral, before, 0., "state after forcing", kind="c")

@st.composite
def resolved(draw):
    s = draw(G.states(3, 16, 36))
    return {"s": s, "f": draw(G.sh_fields(G.res_of(s["g"]))), "amp": draw(G.logu(1., 3000.)), "opt": draw(options), "own": draw(st.booleans())}

@SUITE.test(resolved(), 350, fine=(12, FINE))
def analytic(c):
    """Orography given on the grid itself (0 degree column repeated at 360) made of resolved harmonics: closed-form gradient."""
    s = c["s"]
    g = s["g"]
    n, r = g["n"], B.rad(g)
    fl = B.flow_of(s)
    state = B.make_state(s)
    h = B.field(n, c["f"]) * c["amp"]
    t = {"kind": "gridded", "opt": c["opt"]}
    kw = {k: v for k, v in (("scale_height", c["opt"]["H"]), ("fcor_ref", c["opt"]["fcor"])) if v is not None}
    if c["opt"]["wind"] is not None:
        kw["wind"] = tuple(c["opt"]["wind"])
    term = bt.rhs.Orography(np.append(B.lons(n), 360.), B.lats(n), np.hstack([h, h[:, :1]]), **kw)
    hx = sum(B.sh_dlon(n, a) for a in c["f"]) * c["amp"] / r
    hy = sum(B.sh_dlat(n, a) for a in c["f"]) * c["amp"] / r
    wu, wv = wind_of(t, g, fl.u, fl.v)
    pre = prefactor(t, g)
    want = pre * (wu * hx + wv * hy)
    fac = 1. if c["opt"]["wind"] is None else abs(c["opt"]["wind"][1])
    su = max(np.max(np.abs(wu)), np.max(np.abs(wv)))
    sh = sum(abs(a["a"]) for a in c["f"]) * c["amp"] * n / r
    tol = 0.2 * np.max(np.abs(pre)) * sh * (B.tol(n, su) + fac * B.tol(n, fl.scale_u + np.max(np.abs(fl.f)) * r))
    trivial(np.max(np.abs(want)) <= 2 * tol)
    close(term(state), want, max(tol, 1e-300), "forcing (analytic)")

@st.composite
def reuse_cases(draw):
    grids = draw(st.lists(G.grids(2, 9), min_size=2, max_size=4))
    # Grids that differ in one property only
    base = dict(grids[0])
    for k in draw(st.lists(st.sampled_from(["r", "om", "nt"]), max_size=3)):
        g = dict(base)
        g[k] = {"r": B.rad(base) * 2, "om": B.om(base) + 1e-5, "nt": max(1, base["n"] // 2)}[k]
        grids.append(g)
    grids += draw(st.lists(G.grids(2, 4), max_size=8))
    return {"grids": grids, "vo": draw(G.flows(1)), "terms": draw(st.lists(terms(), min_size=1, max_size=2)),
            "calls": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 14)).map(list), min_size=3, max_size=16))}

@SUITE.test(reuse_cases(), 250, fine=(8, FINE))
def reuse(c):
    """The same one or two forcings on up to 15 grids (some of which differ in radius, rotation or truncation only, more than the cache
    holds) in any order."""
    made = [make(t) for t in c["terms"]]
    trivial(len(c["calls"]) < 4)
    for i, j in c["calls"]:
        i, j = i % len(made), j % len(c["grids"])
        g = c["grids"][j]
        fl = B.Flow(g, c["vo"]["vo"], c["vo"]["U"])
        state = bt.State(B.make_grid(g), 0., pv=fl.pv)
        check_term(*made[i], c["terms"][i], g, state, fl.u, fl.v, "reused")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(4, 24, trunc=False, legfunc=False), "m": mountains, "s": sines, "k": st.integers(0, 100)}), 250, fine=(12, FINE))
def meridian(c):
    """Moving a mountain by a number of columns moves its shape, wherever the 0 degree meridian lies; sine mountains repeat."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    k = c["k"] % (2 * n)
    m = c["m"]
    x0 = 30. if m["lon"] is None else m["lon"]
    sd = (7.5, 20.) if m["sd"] is None else tuple(m["sd"]) if len(m["sd"]) == 2 else m["sd"][0]
    a = arr(bt.rhs.GaussianMountain(2000, (x0, m["lat"]), sd).orography(grid), "orography", grid.shape)
    b = arr(bt.rhs.GaussianMountain(2000, (x0 + k * 180. / n, m["lat"]), sd).orography(grid), "orography", grid.shape)
    close(b, np.roll(a, k, axis=1), 1e-6, "moved mountain")
    require(np.all(a >= 0) and np.all(a <= 2000 * (1 + 1e-12)), "height of the mountain")
    w = c["s"]["k"] or 4
    s = arr(bt.rhs.ZonalSineMountains(wavenumber=w).orography(grid), "orography", grid.shape)
    if 2 * n % w == 0:
        close(np.roll(s, 2 * n // w, axis=1), s, 1e-6, "periodic mountains")

@SUITE.test(st.fixed_dictionaries({"kind": st.sampled_from(["actual", "", "ACT", "zonal", "u", "none", "sbr "]), "which": st.integers(0, 2)}), 40)
def refused_winds(c):
    """Unknown wind specifications."""
    f = [lambda **kw: bt.rhs.GaussianMountain(**kw), lambda **kw: bt.rhs.ZonalSineMountains(**kw),
         lambda **kw: bt.rhs.Orography(np.array([0., 360.]), np.array([90., -90.]), np.zeros((2, 2)), **kw)][c["which"]]
    refused(f"wind {c['kind']}", f, wind=(c["kind"], 1.))
