"""C01 Grid coordinates and cell areas describe the whole sphere"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C01")

RES = ["exact", "exact", "np64", "f32", "rad", "diff32", "diff64", "up", "down", "int"]

@st.composite
def cases(draw, nmin, nmax, big=None):
    g = draw(G.grids(nmin, nmax, big))
    g["res"] = draw(st.sampled_from(RES))
    g["pos"] = draw(st.booleans())
    return g

def resolution(g):
    n, kind = g["n"], g["res"]
    if kind == "exact":
        return 180. / n
    if kind == "np64":
        return np.float64(180.) / n
    if kind == "f32":
        return np.float32(180. / n)
    if kind == "rad":
        return np.rad2deg(np.pi / n)
    if kind == "diff32":
        return np.diff(B.lons(n).astype(np.float32))[n // 2]
    if kind == "diff64":
        return np.diff(B.lons(n))[-1]
    if kind == "up":
        return float(np.nextafter(180. / n, 1e9))
    if kind == "down":
        return float(np.nextafter(180. / n, 0))
    return 180 // n if 180 % n == 0 else 180. / n

def check(g):
    n, r, om = g["n"], B.rad(g), B.om(g)
    res = resolution(g)
    if g["pos"]:
        grid = bt.Grid(res, r, om, g["nt"], g["lf"])
    else:
        grid = bt.Grid(resolution=res, rsphere=r, omega=om, ntrunc=g["nt"], legfunc=g["lf"])
    dev = abs(float(res) - 180. / n) / (180. / n)
    # Single precision resolutions leave single precision spacings
    rel = 2 * dev + (3e-7 if isinstance(res, np.float32) else 1e-12)
    label(g["res"])
    require(grid.nlon == 2 * n, lambda: f"nlon = {grid.nlon} for resolution 180/{n}")
    require(grid.nlat == n + 1, lambda: f"nlat = {grid.nlat} for resolution 180/{n}")
    require(tuple(grid.shape) == (n + 1, 2 * n), lambda: f"shape {grid.shape}")
    require(grid.rsphere == r and grid.omega == om, "planet parameters")
    lon, lat = B.lons(n), B.lats(n)
    close(grid.lon, lon, 1e-10, "lon")
    close(grid.lat, lat, 1e-10, "lat")
    require(grid.lon[0] == 0 and grid.lat[0] == 90 and grid.lat[-1] == -90, "first/last coordinates")
    lon2, lat2 = np.meshgrid(lon, lat)
    close(grid.lon2, lon2, 1e-10, "lon2")
    close(grid.lat2, lat2, 1e-10, "lat2")
    close(grid.lam, np.deg2rad(lon), 1e-12, "lam")
    close(grid.phi, np.deg2rad(lat), 1e-12, "phi")
    close(grid.lam2, np.deg2rad(lon2), 1e-12, "lam2")
    close(grid.phi2, np.deg2rad(lat2), 1e-12, "phi2")
    d = 180. / n
    close(grid.dlon, d, rel * d, "dlon")
    close(grid.dlat, -d, rel * d, "dlat")
    close(grid.dlam, np.deg2rad(d), rel * d, "dlam")
    close(grid.dphi, -np.deg2rad(d), rel * d, "dphi")
    s = max(abs(2 * om), 1e-300)
    close(grid.fcor, 2 * om * np.sin(np.deg2rad(lat)), 1e-12 * s, "fcor")
    close(grid.fcor2, 2 * om * np.sin(np.deg2rad(lat2)), 1e-12 * s, "fcor2")
    area = B.cell_area(g)
    got = arr(grid.gridpoint_area, "gridpoint_area", (n + 1,))
    close(got, area, (rel + 1e-9) * area, "gridpoint_area")
    total = np.sum(got) * 2 * n
    close(total, 4 * np.pi * r**2, (rel + 1e-10) * 4 * np.pi * r**2, "sum of gridpoint_area")
    return grid


@SUITE.test(cases(2, 40), 700, 12000, fine=(24, FINER))
def geometry(g):
    """Random grid (n = 2..40 intervals, rounding variants of the resolution, planets, truncations) against
    closed forms of coordinates, spacings, Coriolis parameter and areas."""
    check(g)

@SUITE.test(cases(40, 120), 60, 2000)
def geometry_fine(g):
    """As geometry, fine grids."""
    check(g)

@SUITE.test(st.tuples(cases(2, 40), st.sampled_from([400, 480, 500, 600, 720])).map(lambda c: {**c[0], "n": c[1], "lf": "computed", "nt": None}), 2, 40, shards=2)
def geometry_finest(g):
    """As geometry, grids of 0.45 to 0.25 degrees."""
    check(g)

# All decimals, next to the poles and the equator
latitudes = G.weighted((3, G.uni(-90., 90.)), (1, G.logu(1e-9, 1.).map(lambda x: 90. - x)), (1, G.logu(1e-9, 1.).map(lambda x: x - 90.)), (1, G.logu(1e-9, 1.)),
    (2, G.uni(-90., 90., 10**15)))

@SUITE.test(st.fixed_dictionaries({
    "n": st.integers(2, 12), "r": G.radius, "om": G.omega,
    "lat": st.lists(latitudes, min_size=1, max_size=6), "kind": st.sampled_from(["num", "1d", "2d", "int"])}), 300, fine=(8, FINER))
def functions_of_latitude(c):
    """circumference and coriolis for arbitrary latitudes (numbers, integers, 1-D, 2-D arrays)."""
    grid = B.make_grid(c)
    lat = np.asarray(c["lat"])
    if c["kind"] == "num":
        lat = float(lat[0])
    elif c["kind"] == "int":
        lat = int(lat[0])
    elif c["kind"] == "2d":
        lat = np.stack([lat, -lat])
    g = Guard(np.asarray(lat))
    r, om = c["r"], c["om"]
    close(grid.circumference(lat), 2 * np.pi * r * np.cos(np.deg2rad(lat)), 1e-12 * 7 * r, "circumference")
    close(grid.coriolis(lat), 2 * om * np.sin(np.deg2rad(lat)), 1e-12 * abs(2 * om) + 1e-300, "coriolis")
    g.check("circumference/coriolis")

@SUITE.test(st.fixed_dictionaries({"given": st.lists(st.sampled_from(["resolution", "rsphere", "omega", "ntrunc", "legfunc"]), unique=True).map(sorted), "n": st.integers(2, 40),
    "r": G.radius, "om": G.omega}), 100, 1000)
def defaults(c):
    """Parameters that are not given: planet Earth at 2.5 degrees without further truncation; constants for axes, times and the planet."""
    n = c["n"] if "resolution" in c["given"] else 72
    r = c["r"] if "rsphere" in c["given"] else 6371.2e3
    om = c["om"] if "omega" in c["given"] else 7.292e-5
    nt = n - 1 if "ntrunc" in c["given"] else None
    kw = {"resolution": 180. / n, "rsphere": r, "omega": om, "ntrunc": nt, "legfunc": "computed"}
    grid = bt.Grid(**{k: v for k, v in kw.items() if k in c["given"]})
    label(str(len(c["given"])) + " given")
    require(tuple(grid.shape) == (n + 1, 2 * n), lambda: f"shape {grid.shape}")
    require(grid == bt.Grid(180. / n, r, om, n - 1 if nt is not None else n), "grid differs from one with its parameters given")
    close([grid.rsphere, grid.omega * 1e11], [r, om * 1e11], 1e-12 * np.array([r, abs(om) * 1e11]), "planet")
    close(grid.gridpoint_area, B.cell_area({"n": n, "r": r}), 1e-9 * r**2, "gridpoint_area")
    close(grid.fcor, 2 * om * np.sin(np.deg2rad(B.lats(n))), 1e-12 * abs(2 * om), "fcor")
    k = bt.constants
    require((k.MIN, k.HOUR, k.DAY, k.WEEK) == (60, 3600, 86400, 604800), "intervals of time")
    require((k.EARTH_RADIUS, k.EARTH_OMEGA) == (6371.2e3, 7.292e-5), "planet Earth")
    require(grid.shape[k.ZONAL] == grid.nlon and grid.shape[k.MERIDIONAL] == grid.nlat, "names of axes")
    stack = np.zeros((3,) + tuple(grid.shape))
    require(stack.shape[k.ZONAL] == grid.nlon and stack.shape[k.MERIDIONAL] == grid.nlat, "names of axes of stacks")
