"""C09 Region selection picks exactly the requested coordinates, in order"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G, regions as R
from ..core import *
import barotropic as bt

SUITE = Suite("C09")

# Include spacings whose multiples are not exact and large grids with rounding in the coordinates
_sizes = G.weighted((4, G.sizes(2, 24, 40)), (1, st.sampled_from([25, 39, 50, 75, 78])))

@st.composite
def cases(draw):
    return {"n": draw(_sizes), "sel": draw(R.selections()), "f": draw(G.any_fields(2)), "dtype": draw(st.sampled_from(["f8", "f4", "i8"])),
            "layout": draw(G.layouts)}

@SUITE.test(cases(), 1500, 40000, fine=(24, FINER))
def selection(c):
    """Random selections (open/closed, on/off-grid bounds, reversed latitudes, across 0 degrees, hemispheres, single values,
    numeric types) against index lists from exact position arithmetic. Non-trivial unless empty or everything in order."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    key, ilon, ilat = R.make(grid, n, c["sel"])
    reg = grid.region[key]
    trivial(not ilon or not ilat or (len(ilon) == 2 * n and ilon[0] == 0 and len(ilat) == n + 1))
    crosses = ilon != sorted(ilon)
    label("lon " + c["sel"]["lon"][0], "lat " + c["sel"]["lat"][0], "crosses" if crosses else "", "empty" if not ilon or not ilat else "")
    lon, lat = B.lons(n)[ilon], B.lats(n)[ilat]
    desc = f" [{key}, n={n}]"
    close(reg.lon, lon, 1e-9, "lon" + desc)
    close(reg.lat, lat, 1e-9, "lat" + desc)
    require(tuple(reg.shape) == (len(ilat), len(ilon)), lambda: f"shape {reg.shape}, expected {(len(ilat), len(ilon))}")
    mono = np.asarray(reg.lon_mono, dtype=float)
    require(np.all(np.diff(mono) > 0), "lon_mono is not monotonic")
    want = lon.copy()
    if crosses:
        k = ilon.index(0)
        want[:k] -= 360.
    close(mono, want, 1e-9, "lon_mono" + desc)
    close(reg.lon, lon, 1e-9, "lon (after lon_mono)" + desc)
    mask = arr(reg.mask, "mask", grid.shape, kind="b")
    wmask = np.zeros(grid.shape, dtype=bool)
    wmask[np.ix_(ilat, ilon)] = True
    require(np.array_equal(mask, wmask), lambda: f"mask of {key}")
    close(reg.gridpoint_area, B.cell_area({"n": n})[ilat], 1e-9 * B.EARTH_R**2, "gridpoint_area" + desc)
    # Extraction
    f2 = B.field(n, c["f"])
    f2 = B.shape_array(np.round(100 * f2) if c["dtype"] == "i8" else f2, c["dtype"], c["layout"])
    fm, fz = np.array(f2[:, 0]), np.array(f2[0, :]) + np.arange(2 * n, dtype=f2.dtype)
    guard = Guard(f2, fm, fz, grid.lon, grid.lat)
    w2, wm, wz = f2[np.ix_(ilat, ilon)], fm[ilat], fz[ilon]
    close(reg.extract(f2), w2, 0., "extract 2-D" + desc)
    close(reg.extract(fm), wm, 0., "extract meridional" + desc)
    close(reg.extract(fz), wz, 0., "extract zonal" + desc)
    out = reg.extract(fz, f2, fm, f2)
    require(isinstance(out, tuple) and len(out) == 4, "extraction of several fields returns a tuple")
    for got, w in zip(out, (wz, w2, wm, w2)):
        close(got, w, 0., "extract many" + desc)
    for given in ((f2, f2), (fm, fm), (fz, fz, fz)):
        again = reg.extract(*given)
        require(isinstance(again, tuple) and len(again) == len(given), "extraction of the same field several times returns a tuple")
        for got in again:
            close(got, reg.extract(given[0]), 0., "extract repeated" + desc)
        out += again
    # Changing the extracted data must not change the source
    for x in out + (reg.lon, reg.lat, reg.lon_mono, reg.mask, reg.extract(fm)):
        if x.size and x.flags.writeable:
            x[...] = 0
    guard.check("extraction (or changing its result)")
    close(reg.lon, lon, 1e-9, "lon (end)" + desc)

@st.composite
def invalid(draw):
    return {"n": draw(G.sizes(2, 20)), "kind": draw(st.sampled_from(["offlat", "offlon", "steplat", "steplon", "type", "dims", "latout"])),
            "i": draw(st.integers(0, 60)), "fr": draw(st.one_of(st.integers(1, 9), st.sampled_from([0.1, 9.9]), st.sampled_from(["near", "closer"]))), "j": draw(st.integers(0, 9)), "o": draw(st.sampled_from(["all", "range"]))}

@SUITE.test(invalid(), 600)
def refused_selections(c):
    """Off-grid single values, steps, wrong types and wrong numbers of dimensions."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    d = 180. / n
    # Close to the grid: a hundredth of a degree or less (but no rounding)
    fr = 0.1 / d if c["fr"] == "near" else c["fr"]
    if fr == "closer":
        x = 90. - (c["i"] % n) * d if c["kind"] == "offlat" else (c["i"] % (2 * n)) * d
        fr = 10. / d * max(2e-5 * abs(x), 4e-4)
    lon = slice(None) if c["o"] == "all" else slice(10., 200.)
    lat = slice(None) if c["o"] == "all" else slice(10., -80.)
    def get(*a):
        return grid.region[a if len(a) > 1 else a[0]]
    k = c["kind"]
    label(k)
    if k == "offlat":
        refused("off-grid latitude", get, lon, 90. - (c["i"] % n + fr / 10.) * d)
    elif k == "offlon":
        refused("off-grid longitude", get, (c["i"] % (2 * n) + fr / 10.) * d, lat)
    elif k == "latout":
        refused("latitude beyond the pole", get, lon, [90. + d, -90. - d, 100., -95.5, 1000, -360.][c["j"] % 6])
    elif k == "steplat":
        refused("latitude step", get, lon, slice([None, -10., 0][c["j"] % 3], [None, 40., 60][c["i"] % 3], [1, 2, d, -1][int(fr) % 4]))
    elif k == "steplon":
        refused("longitude step", get, slice([None, 10., 0][c["j"] % 3], [None, 40., 60][c["i"] % 3], [1, 2, d, -1][int(fr) % 4]), lat)
    elif k == "type":
        bad = ["E", "north", [0, 10.], None, slice("N", 10.), slice(0, "S"), np.array([0., 10.]), (0., 10.), slice([0], None), "s"][c["j"]]
        if c["i"] % 2:
            refused(f"longitude {bad}", get, bad, lat)
        else:
            refused(f"latitude {bad}", get, lon, bad)
    else:
        refused("number of dimensions", get, *[(lon, lat, lon), (lon, lat, 0.), (lon, lat, lat, lat)][c["j"] % 3])

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(3, 16), "sel": R.selections(), "i": st.integers(0, 11), "many": st.booleans()}), 300)
def refused_fields(c):
    """Extraction from fields that do not fit the grid."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    key, ilon, ilat = R.make(grid, n, c["sel"])
    reg = grid.region[key]
    shapes = [(n + 2,), (2 * n + 1,), (n + 1, 2 * n - 1), (n, 2 * n), (2 * n, n + 1), (1, n + 1, 2 * n), (), (n + 1, 1), (2 * n, 1), (1, 2 * n), (1, n + 1), (n + 1, n + 1)]
    bad = np.zeros(shapes[c["i"]])
    if bad.shape == (2 * n,) or bad.shape == (n + 1,):
        return trivial()
    if c["many"]:
        refused(f"shape {bad.shape}", reg.extract, np.zeros(grid.shape), bad)
    else:
        refused(f"shape {bad.shape}", reg.extract, bad)
    refused("no fields", reg.extract)

@SUITE.test(st.tuples(G.weighted((1, st.integers(2, 120)), (2, st.sampled_from([144, 150, 180, 181, 200, 225, 240, 288, 360]))), st.integers(1, 9)).map(list), 24, 300, shards=8)
def hemispheres(c):
    """Hemispheres, poles and the equator on grids up to half a degree."""
    n, fr = c
    grid = bt.Grid(180. / n, legfunc="computed")
    label("fine" if n > 120 else "coarse", "equator" if n % 2 == 0 else "")
    lats, fr = B.lats(n), fr / 10.
    h = n // 2
    d = 180. / n
    for key, want in (("N", range(h + 1)), ("S", range(n - h, n + 1)), (slice(90. - (h + fr) * d, None), range(h + 1)),
            (slice(-90., -90. + (1 + fr) * d), [n - 1, n]), (90, [0]), (-90, [n]), (slice(90., 90. - fr * d), [0])):
        reg = grid.region[:,key]
        want = list(want)
        close(reg.lat, lats[want], 1e-9, f"latitudes of {key!r} [n={n}]")
        require(np.array_equal(np.flatnonzero(arr(reg.mask, "mask", grid.shape, kind="b").all(axis=1)), want), lambda: f"mask of {key!r}")
    for lon, want in ((slice(360. - (1 + fr) * d, fr * d), [2 * n - 1, 0]), (slice(fr * d, 2 * d), [1, 2]), (0, [0]), (slice(0, fr * d), [0])):
        close(grid.region[lon,:].lon, B.lons(n)[want], 1e-9, f"longitudes of {lon!r} [n={n}]")
