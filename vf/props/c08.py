"""C08 Means are area-weighted correctly for globe and regions"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G, regions as R
from ..core import *
import barotropic as bt

SUITE = Suite("C08")

AXES = [None, "meridional", "zonal", 0, 1, -1, -2, "missing"]

@st.composite
def cases(draw):
    return {"g": draw(G.grids(2, 24, 60, trunc=False, legfunc=False)), "f": draw(G.any_fields()), "axis": draw(st.sampled_from(AXES)),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])), "layout": draw(G.layouts), "off": draw(st.sampled_from([0., 0., 1., -30.])),
            "sel": draw(G.weighted((1, st.none()), (3, R.selections()))),
            "how": draw(st.sampled_from(["full", "extracted", "own", "other"]))}

def kind_of(axis):
    if axis in (None, "missing"):
        return None
    return "zonal" if axis in ("zonal", 1, -1) else "meridional"

def reference(w, f, kind):
    w = w[:, None] * np.ones(f.shape)
    if kind == "zonal":
        return np.array([np.sum(row) / row.size for row in f])
    if kind == "meridional":
        return np.sum(w * f, axis=0) / np.sum(w, axis=0)
    return np.sum(w * f) / np.sum(w)

def setup(c):
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    f = B.field(n, c["f"]) + c["off"]
    f = B.shape_array(np.round(50 * f) if c["dtype"] == "i8" else f, c["dtype"], c["layout"])
    return g, n, grid, f

class Extractor:
    """Region with nothing but an extract method, which takes fields on the grid"""
    def __init__(self, ilat, ilon, shape):
        self._index, self._shape = np.ix_(ilat, ilon), tuple(shape)
    def extract(self, field):
        assert field.shape == self._shape
        return field[self._index]

@SUITE.test(cases(), 1500, 40000, fine=(20, FINER))
def means(c):
    """Arbitrary fields over the globe or random regions, all axis spellings, full or extracted input or the region's own mean,
    against sums weighted with closed-form cell areas. Non-trivial unless the field is constant."""
    g, n, grid, f = setup(c)
    kind = kind_of(c["axis"])
    w = B.cell_area(g)
    trivial(np.ptp(f) == 0)
    kw = {} if c["axis"] == "missing" else {"axis": c["axis"]}
    scale = max(np.max(np.abs(f)), 1e-200)
    t = (1e-5 if c["dtype"] == "f4" else 1e-12) * scale
    guard = Guard(f)
    if c["sel"] is None:
        sub, got = f, grid.mean(f, **kw)
        label("globe")
    else:
        key, ilon, ilat = R.make(grid, n, c["sel"])
        if not ilon or not ilat:
            return trivial()
        region = grid.region[key]
        sub = f[np.ix_(ilat, ilon)]
        w = w[ilat]
        label("region", c["how"])
        if c["how"] == "full":
            got = grid.mean(f, region=region, **kw)
        elif c["how"] == "other":
            # Any object that extracts a part of fields
            got = grid.mean(f, region=Extractor(ilat, ilon, grid.shape), **kw)
        elif c["how"] == "extracted":
            x = region.extract(f)
            # A rotated globe has the shape of the full field
            if x.shape == f.shape and ilon != sorted(ilon):
                return trivial()
            got = grid.mean(x, region=region, **kw)
        else:
            kind = None
            got = region.mean(f)
    label(str(kind))
    guard.check("mean")
    want = reference(w, sub.astype(float), kind)
    close(got, want, t, f"mean {kind}")
    got = arr(got)
    lo, hi = np.min(sub), np.max(sub)
    require(np.all(got >= lo - t) and np.all(got <= hi + t), "mean outside of the range of values")

@SUITE.test(cases(), 400, fine=(8, FINER))
def constants_and_linearity(c):
    """Means of constants; linear combinations of two fields."""
    g, n, grid, f = setup(c)
    f = f.astype(float)
    kw = {} if c["axis"] == "missing" else {"axis": c["axis"]}
    if c["sel"] is not None:
        key, ilon, ilat = R.make(grid, n, c["sel"])
        if not ilon or not ilat:
            return trivial()
        kw["region"] = grid.region[key]
    const = arr(grid.mean(np.full(grid.shape, 4.25), **kw))
    close(const, np.full(const.shape, 4.25), 1e-11, "mean of a constant")
    h = np.cos(grid.phi2) * np.sin(2 * grid.lam2)
    scale = 3 * np.max(np.abs(f)) + 2
    close(grid.mean(3 * f - 2 * h, **kw), 3 * arr(grid.mean(f, **kw)) - 2 * arr(grid.mean(h, **kw)), 1e-12 * scale, "linearity")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(3, 10, trunc=False, legfunc=False), "sel": G.weighted((1, st.none()), (2, R.selections())),
        "kind": st.sampled_from(["axis", "axis", "shape", "shape", "transposed", "1d"]), "i": st.integers(0, 6)}), 200)
def refused_input(c):
    """Invalid axis names and shapes that match neither the grid nor the region."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    kw = {}
    shapes = [grid.shape]
    if c["sel"] is not None:
        key, ilon, ilat = R.make(grid, n, c["sel"])
        if not ilon or not ilat:
            return trivial()
        kw["region"] = grid.region[key]
        shapes.append((len(ilat), len(ilon)))
    f = np.ones(grid.shape)
    if c["kind"] == "axis":
        bad = [2, -3, "lon", "lat", "zonall", "Zonal", "all"][c["i"]]
        return refused(f"axis={bad}", grid.mean, f, axis=bad, **kw)
    if c["kind"] == "shape":
        shape = (n + 1 + [1, -1, 0, 0, 1, -2, 2][c["i"]], 2 * n + [0, 0, 1, -1, 1, 0, -2][c["i"]])
    elif c["kind"] == "transposed":
        shape = (2 * n, n + 1)
    else:
        shape = (n + 1,) if c["i"] % 2 else (2 * n,)
    if shape in shapes:
        return trivial()
    refused(f"shape {shape} for {shapes}", grid.mean, np.ones(shape), **kw)
