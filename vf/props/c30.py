"""C30 Conversion to and from falwa barotropic fields preserves the flow"""
import warnings
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C30")

@st.composite
def states(draw):
    """Resolved flows and PV from arbitrary gridded fields"""
    s = draw(G.states(2, 24, 72))
    if draw(st.booleans()):
        s["any"] = draw(G.any_fields(3))
    return s

def make(s):
    """State, its PV and the precision of it"""
    g = s["g"]
    grid = B.make_grid(g)
    time = B.make_time(s["time"])
    if "any" in s:
        pv = B.field(g["n"], s["any"]) * 1e-4
        scale = max(np.max(np.abs(pv)), 1e-300)
        return bt.State(grid, time, pv=pv), B.Ref(g).rt(pv), B.tol(g["n"]) * scale
    f = B.flow_of(s)
    return B.make_state(s, grid), f.pv, B.tol(g["n"]) * f.scale_pv

def check_field(bf, pv, tol, n, what):
    from falwa.barotropic_field import BarotropicField
    require(type(bf) is BarotropicField, lambda: f"{what}: {type(bf).__name__}")
    require(bf.nlon == 2 * n and bf.nlat == n + 1, f"{what}: shape")
    close(bf.xlon, B.lons(n), 1e-10, f"longitudes ({what})")
    close(bf.ylat, B.lats(n)[::-1], 1e-10, f"latitudes, south to north ({what})")
    close(bf.pv_field, pv[::-1], tol, f"pv, south to north ({what})")

options = st.fixed_dictionaries({}, optional={"planet_radius": G.weighted((1, st.just(6371.2e3)), (2, G.logu(1., 1e8))), "n_partitions": st.integers(5, 60), "return_partitioned_lwa": st.booleans(),
        "area": G.uni(0.5, 2.), "dphi": st.just("np.pi/n")})

def kwargs_for(o, n):
    out = dict(o)
    if "area" in out:
        out["area"] = o["area"] * np.outer(np.cos(np.radians(B.lats(n))), np.ones(2 * n))
    if "dphi" in out:
        out["dphi"] = np.pi / n * np.ones(n + 1)
    return out

@SUITE.test(st.fixed_dictionaries({"s": states(), "o": options, "pre": st.lists(st.sampled_from(["u", "pv_zonalized", "falwa", "vorticity"]), max_size=2)}), 500, 10000, fine=(10, FINE))
def forth(c):
    """PV, coordinates and options of the converted state. Non-trivial unless the PV is symmetric about the equator."""
    s = c["s"]
    n = s["g"]["n"]
    x, pv, tol = make(s)
    trivial(np.allclose(pv, pv[::-1], atol=10 * tol))
    label("any" if "any" in s else "resolved", *c["o"])
    for name in c["pre"]:
        if name in ("u", "vorticity") or n >= 4:
            getattr(x, name)
    before = np.array(x.pv_spectral), np.array(x.pv)
    kw = kwargs_for(c["o"], n)
    bf = x.as_hn2016(**kw)
    check_field(bf, pv, tol, n, "as_hn2016")
    close(bf.pv_field, np.array(x.pv)[::-1], 0., "same numbers", kind="f")
    for name, value in kw.items():
        got = getattr(bf, name)
        if np.ndim(value):
            close(got, value, 0., f"option {name}")
        else:
            require(got == value and type(got) is type(value), lambda: f"option {name} is {got!r} instead of {value!r}")
    if "planet_radius" not in kw:
        require(bf.planet_radius == 6.378e+6, "planet radius not given")
    refused("unknown option", x.as_hn2016, no_such_option=1)
    close(x.pv_spectral, before[0], 0., "state after conversion", kind="c")
    close(x.pv, before[1], 0., "pv after conversion")

@SUITE.test(st.fixed_dictionaries({"s": states(), "o": options, "time": G.times(), "grid": st.sampled_from(["own", "equal", "inferred", "inferred", "planet"]), "planet": G.grids(2, 3), "twice": st.booleans(), "kw": st.booleans()}), 700, 14000, fine=(10, FINE))
def back(c):
    """States converted forth and back on their own grid, an equal one, one of another planet, and the inferred one. Non-trivial unless the PV is symmetric
    about the equator."""
    s = c["s"]
    g = s["g"]
    n = g["n"]
    x, pv, tol = make(s)
    trivial(np.allclose(pv, pv[::-1], atol=10 * tol))
    label(c["grid"])
    time = B.make_time(c["time"])
    bf = x.as_hn2016(**kwargs_for(c["o"], n))
    if c["grid"] == "own":
        grid = x.grid
    elif c["grid"] == "equal":
        grid = B.make_grid(g)
    elif c["grid"] == "planet":
        grid = B.make_grid({**c["planet"], "n": n, "nt": None})
    else:
        grid = None
    guard = Guard(bf.pv_field, bf.xlon, bf.ylat, bf.dphi)
    y = bt.State.from_hn2016(grid=grid, time=time, barofield=bf) if c["kw"] else bt.State.from_hn2016(grid, time, bf)
    guard.check("from_hn2016")
    check_back(y, grid, time, n, pv, tol, c["grid"])
    if c["twice"]:
        # On to the next field
        check_field(y.as_hn2016(), pv, 3. * tol, n, "again")

def check_back(y, grid, time, n, pv, tol, what):
    require(isinstance(y, bt.State), "not a State")
    require(y.time == time and type(y.time) is type(time), lambda: f"valid time {y.time!r} instead of {time!r} ({what})")
    if grid is not None:
        require(y.grid is grid, "not on the given grid")
    else:
        grid = y.grid
        require(grid.nlat == n + 1 and grid.nlon == 2 * n, lambda: f"inferred grid {grid.shape} for n = {n}")
        close(grid.lat, B.lats(n), 1e-9, "latitudes of inferred grid")
        close(grid.lon, B.lons(n), 1e-9, "longitudes of inferred grid")
        require(grid == bt.Grid(resolution=180. / n), "inferred grid is not the one of this resolution")
    close(y.pv, pv, 3. * tol, f"pv ({what})")
    close(y.vorticity, pv - (2. * grid.omega * np.sin(np.radians(B.lats(n))))[:,None], 3. * tol + B.tol(n) * (2. * abs(grid.omega) + np.max(np.abs(pv))) , f"vorticity ({what})")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 24, 72), "f": st.one_of(G.any_fields(3), st.none()), "time": G.times(), "given": st.booleans(), "dtype": G.dtypes, "layout": G.layouts,
        "atoms": G.flows(24), "coords": st.sampled_from(["exact", "exact", "f4", "int"])}), 500, 10000)
def foreign(c):
    """Fields which do not come from a state, of all dtypes and memory layouts. Non-trivial unless the PV is symmetric about the equator."""
    from falwa.barotropic_field import BarotropicField
    g = dict(c["g"])
    if not c["given"]:
        g["nt"] = None
        g.pop("lf", None)
    n = g["n"]
    if c["f"] is None:
        atoms = [a for a in c["atoms"]["vo"] if a["n"] <= G.res_of(g)]
        pv = B.field(n, atoms) * 1e-4 if atoms else np.zeros((n + 1, 2 * n))
    else:
        pv = B.field(n, c["f"]) * 1e-4
    given = B.shape_array(pv[::-1], c["dtype"], c["layout"])
    pv = np.array(given, dtype=float)[::-1]
    label("given" if c["given"] else "inferred", "resolved" if c["f"] is None else "any", c["layout"], c["dtype"])
    trivial(np.allclose(pv, pv[::-1], atol=1e-9))
    lon, lat = B.lons(n), B.lats(n)[::-1].copy()
    if c["coords"] == "f4":
        lon, lat = lon.astype("f4"), lat.astype("f4")
    elif c["coords"] == "int" and 180 % n == 0:
        lon, lat = np.rint(lon).astype(int), np.rint(lat).astype(int)
    bf = BarotropicField(lon, lat, pv_field=given, planet_radius=B.rad(g))
    guard = Guard(given, lon, lat)
    grid = B.make_grid(g) if c["given"] else None
    y = bt.State.from_hn2016(grid, B.make_time(c["time"]), bf)
    guard.check("from_hn2016")
    scale = max(np.max(np.abs(pv)), 1e-300)
    if not c["given"]:
        g = {"n": n}
    check_back(y, grid, B.make_time(c["time"]), n, B.Ref({**g, "r": 1.}).rt(pv), B.tol(n) * scale, "foreign")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20), "n": st.integers(2, 24), "how": st.sampled_from(["grid", "grid", "near", "nlon", "nlat", "double"])}), 300, 5000)
def mismatch(c):
    """Fields which do not have the shape of the given grid. Non-trivial unless they do after all."""
    from falwa.barotropic_field import BarotropicField
    grid = B.make_grid(c["g"])
    nlat, nlon = grid.shape
    label(c["how"])
    if c["how"] == "grid":
        nlat, nlon = c["n"] + 1, 2 * c["n"]
    elif c["how"] == "near":
        nlat, nlon = nlat + 1, nlon + 2
    elif c["how"] == "nlon":
        nlon = c["n"]
    elif c["how"] == "nlat":
        nlat = c["n"]
    else:
        nlat, nlon = 2 * nlat - 1, 2 * nlon
    if (nlat, nlon) == grid.shape:
        trivial()
        return
    bf = BarotropicField(np.linspace(0., 360., nlon, endpoint=False), np.linspace(-90., 90., nlat), pv_field=np.ones((nlat, nlon)))
    refused(f"field of shape {(nlat, nlon)} on grid of shape {grid.shape}", bt.State.from_hn2016, grid, 0., bf)

@SUITE.test(st.fixed_dictionaries({"s": G.states(6, 24, None, om=st.just(G.EARTH_OM), trunc=False), "wave": G.uni(0., 1.)}), 80, 1500)
def usable(c):
    """falwa computes equivalent latitudes and wave activity from the converted state: both hemispheres of the field appear in the right place (compared
    with the field built by hand). Non-trivial unless the PV is symmetric about the equator."""
    from falwa.barotropic_field import BarotropicField
    s = c["s"]
    n = s["g"]["n"]
    f = B.Flow(s["g"], s["vo"], s["U"])
    x = bt.State(B.make_grid(s["g"]), 0., pv=f.pv)
    trivial(np.allclose(f.pv, f.pv[::-1]))
    hand = BarotropicField(B.lons(n), B.lats(n)[::-1], pv_field=np.ascontiguousarray(np.array(x.pv)[::-1]), planet_radius=B.rad(s["g"]))
    bf = x.as_hn2016(planet_radius=B.rad(s["g"]))
    before = np.array(x.pv)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        close(bf.equivalent_latitudes, hand.equivalent_latitudes, 1e-9, "equivalent latitudes")
        close(bf.lwa, hand.lwa, 1e-9 * max(np.max(np.abs(hand.lwa)), 1e-300), "local wave activity")
    close(x.pv, before, 0., "pv of the state afterwards")
