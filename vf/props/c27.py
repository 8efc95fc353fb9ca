"""C27 Malformed datasets are refused instead of imported wrongly"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
from .c26 import KNOWN
import barotropic as bt

SUITE = Suite("C27")

size = G.weighted((3, G.logu(2e-4, 1.)), (2, G.logu(1., 400.)), (1, st.sampled_from([0.5, 1., 90., 180., 1e-3, 2e-3, 3e-4])))
signed = st.tuples(size, st.sampled_from([1, -1])).map(lambda x: x[0] * x[1])
where = st.integers(0, 400)

LAT = ["reverse", "offset", "perturb", "swap", "drop", "droplast", "dropfirst", "scale", "centres", "hemisphere", "subsample", "gauss", "radians", "nan", "duplicate", "drift", "shift block", "roll"]
LON = ["reverse", "offset", "perturb", "swap", "drop", "droplast", "dropfirst", "scale", "sector", "subsample", "radians", "nan", "duplicate", "cyclic", "drift", "shift block", "half cell"]
VAR = ["transpose", "lat last", "extra last", "lon first", "rename lat", "rename lon", "drop lat", "drop lon", "data lat", "data lon", "rename vars", "drop vars", "only u", "only v", "uv dims", "uv order",
    "2-D coords", "other dims", "names missing", "no lon dim", "names lat missing", "uv shapes"]

@st.composite
def cases(draw):
    n = draw(G.weighted((14, G.sizes(4, 20)), (1, st.sampled_from([30, 36, 45, 72, 90]))))
    kind = draw(st.sampled_from(["lat", "lon", "var"]))
    d = {"n": n, "what": draw(st.sampled_from(["wind", "vo", "avo"])), "dims": draw(st.lists(st.integers(1, 3), max_size=2)), "west": draw(st.sampled_from([0, 0, -n, 3])),
        "lat": draw(st.sampled_from(KNOWN["lat"])), "lon": draw(st.sampled_from(KNOWN["lon"])), "cdtype": draw(st.sampled_from(["f8", "f8", "f4"])),
        "damage": [[kind, draw(st.sampled_from({"lat": LAT, "lon": LON, "var": VAR}[kind])), draw(where), draw(where), draw(signed)]], "labels": draw(st.booleans()),
        "seed": draw(G.seeds)}
    # Make most kinds of damage applicable
    how = d["damage"][0][1]
    if how in ("only u", "only v", "uv dims", "uv order", "uv shapes") and draw(st.sampled_from([True, True, False])):
        d["what"] = "wind"
        if how in ("uv dims", "uv order"):
            d["dims"] = draw(st.lists(st.integers(2, 3), min_size=2 if how == "uv order" else 1, max_size=2))
            if draw(st.booleans()):
                d["dims"] = d["dims"][:1] * len(d["dims"])
    if kind != "var" and draw(st.sampled_from([False, False, True])):
        d["damage"].append(["var", draw(st.sampled_from(VAR)), draw(where), draw(where), 1.])
    return d

def make(d):
    import xarray as xr
    n = d["n"]
    r = np.random.RandomState(d["seed"])
    names = [f"d{i}" for i in range(len(d["dims"]))]
    dims = [*names, d["lat"], d["lon"]]
    shape = [*d["dims"], n + 1, 2 * n]
    coords = {d["lat"]: B.lats(n).astype(d["cdtype"]), d["lon"]: ((d["west"] + np.arange(2 * n)) * (180. / n)).astype(d["cdtype"])}
    if d["labels"]:
        for k, s in zip(names, d["dims"]):
            coords[k] = np.arange(s) * 10.
    refs = {"wind": ["u", "v"], "vo": ["vo"], "avo": ["avo"]}[d["what"]]
    return xr.Dataset({x: (dims, r.normal(size=shape) * 1e-5) for x in refs}, coords)

def damage_coord(ds, name, is_lat, n, how, i, j, x):
    """Returns the damaged dataset or None if the damage does not apply"""
    c = ds[name].values.astype(float)
    m = c.size
    d = 180. / n
    new = c.copy()
    i, j = i % m, j % m
    if how == "reverse":
        return ds.isel({name: slice(None, None, -1)})
    if how == "offset":
        # Whole spacings along longitude only relabel the columns
        rest = abs(x / d - round(x / d)) * d
        if rest < 2e-4 and not is_lat:
            return None
        new += x
    elif how == "half cell":
        new += 0.5 * d
    elif how == "perturb":
        new[i] += x
        if not is_lat and m == 1:
            return None
    elif how == "swap":
        if i == j:
            return None
        new[[i, j]] = new[[j, i]]
    elif how == "drop":
        return ds.isel({name: [k for k in range(m) if k != i]})
    elif how == "droplast":
        return ds.isel({name: slice(0, m - 1 - i % 3)})
    elif how == "dropfirst":
        return ds.isel({name: slice(1 + i % 3, None)})
    elif how == "scale":
        f = 1. + np.sign(x) * max(abs(x), 1e-3) / 360.
        new *= f
        if np.max(np.abs(new - c)) < 2e-4:
            return None
    elif how == "drift":
        # Smallest at the start, of size x at the end
        new += x * np.linspace(0, 1, m)**2
    elif how == "shift block":
        # All coordinates from one on are displaced
        if not 1 <= i:
            return None
        new[i:] += x
    elif how == "centres":
        new = c - 0.5 * d
    elif how == "hemisphere":
        return ds.isel({name: slice(0, n // 2 + 1)})
    elif how == "sector":
        return ds.isel({name: slice(0, n + 1)})
    elif how == "subsample":
        return ds.isel({name: slice(None, None, 2)})
    elif how == "gauss":
        new = np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(m)[0]))[::-1]
    elif how == "radians":
        new = np.deg2rad(c)
    elif how == "nan":
        new[i] = np.nan
    elif how == "duplicate":
        new[i] = new[(i + 1) % m]
    elif how == "cyclic":
        import xarray as xr
        first = ds.isel({name: [0]})
        first = first.assign_coords({name: first[name] + 360.})
        return xr.concat([ds, first], dim=name)
    elif how == "roll":
        return ds.isel({name: np.roll(np.arange(m), 1 + i % (m - 1))})
    return ds.assign_coords({name: new.astype(ds[name].dtype)})

def damage_var(ds, d, how, i):
    lat, lon = d["lat"], d["lon"]
    extra = [f"d{k}" for k, s in enumerate(d["dims"])]
    wind = d["what"] == "wind"
    kw = {}
    first = "u" if wind else d["what"]
    if how == "transpose":
        return ds.transpose(*extra, lon, lat), kw
    if how in ("lat last", "extra last", "lon first"):
        # The extra dimension must not vanish when dimensions of size 1 are removed
        big = [k for k, s in zip(extra, d["dims"]) if s > 1]
        if not big:
            return None
        rest = [k for k in extra if k != big[0]]
        order = {"lat last": [*rest, big[0], lon, lat], "extra last": [*rest, lat, lon, big[0]], "lon first": [lon, *rest, big[0], lat]}[how]
        return ds.transpose(*order), kw
    if how == "rename lat":
        return ds.rename({lat: ["Latitude", "y", "phi", "lats"][i % 4]}), kw
    if how == "rename lon":
        return ds.rename({lon: ["Longitude", "x", "lambda", "lons"][i % 4]}), kw
    if how == "drop lat":
        return ds.drop_vars(lat), kw
    if how == "drop lon":
        return ds.drop_vars(lon), kw
    if how in ("data lat", "data lon"):
        # The coordinate is a mere variable along some other dimension
        name = lat if how == "data lat" else lon
        val = ds[name].values
        out = ds.rename({name: "other"}).drop_vars("other")
        out[name] = ("other", val)
        return out, kw
    if how == "rename vars":
        return ds.rename({k: "x_" + k for k in ds.data_vars}), kw
    if how == "drop vars":
        return ds.drop_vars(list(ds.data_vars)), kw
    if how == "only u":
        return (ds.drop_vars("v"), kw) if wind else None
    if how == "only v":
        return (ds.drop_vars("u"), kw) if wind else None
    if how == "uv dims":
        big = [k for k, s in zip(extra, d["dims"]) if s > 1]
        if not wind or not big:
            return None
        return ds.assign(v=ds["v"].isel({big[0]: 0}, drop=True)), kw
    if how == "uv order":
        big = [k for k, s in zip(extra, d["dims"]) if s > 1]
        if not wind or len(big) < 2:
            return None
        return ds.assign(v=ds["v"].transpose(*extra[::-1], lat, lon)), kw
    if how == "uv shapes":
        if not wind:
            return None
        return ds.assign(v=ds["v"].rename({lat: "lat_v", lon: "lon_v"}).transpose(*extra, "lon_v", "lat_v")), kw
    if how == "2-D coords":
        x, y = np.meshgrid(ds[lon].values, ds[lat].values)
        out = ds.drop_vars([lat, lon]).rename({lat: "y", lon: "x"})
        return out.assign_coords({lat: (("y", "x"), y), lon: (("y", "x"), x)}), kw
    if how == "other dims":
        # Coordinates exist, but the fields are not defined on them
        out = ds.rename({lat: "y", lon: "x"}).drop_vars(["y", "x"])
        return out.assign_coords({lat: ds[lat].values, lon: ds[lon].values}), kw
    if how == "names missing":
        return ds, {"names": {first: "missing"}}
    if how == "names lat missing":
        return ds, {"names": {["lat", "lon"][i % 2]: "missing"}}
    if how == "no lon dim":
        return ds.isel({lon: 0}, drop=True).assign_coords({lon: ds[lon].values}), kw
    raise KeyError(how)

@SUITE.test(cases(), 1500, 40000)
def damaged(c):
    """Well-formed datasets with one (or two) of 57 kinds of damage of any position and size from 0.0002 degrees. The undamaged dataset is
    accepted. Non-trivial if the damage applies."""
    ds = make(c)
    n = c["n"]
    ok = bt.io.from_dataset(ds)
    require(len(ok) == int(np.prod(c["dims"])), "undamaged dataset")
    kw = {}
    done = []
    for kind, how, i, j, x in c["damage"]:
        if kind == "var":
            res = damage_var(ds, c, how, i)
            if res is None:
                continue
            ds, kw = res
        else:
            res = damage_coord(ds, c["lat" if kind == "lat" else "lon"], kind == "lat", n, how, i, j, x)
            if res is None:
                continue
            ds = res
        done.append(kind + " " + how)
    trivial(not done)
    label(*done)
    if done:
        refused(f"dataset with damage {done}", lambda: [s.pv for s in bt.io.from_dataset(ds, **kw)])

@SUITE.test(st.fixed_dictionaries({"d": cases(), "jl": st.floats(-4e-5, 4e-5), "jo": st.floats(-4e-5, 4e-5)}), 150)
def rounding_is_no_damage(c):
    """Coordinates displaced by less than single-precision rounding of data sets (4e-5 degrees) are accepted."""
    d = c["d"]
    ds = make(d)
    r = np.random.RandomState(d["seed"])
    ds = ds.assign_coords({d["lat"]: ds[d["lat"]] + c["jl"] * r.uniform(-1, 1, size=d["n"] + 1), d["lon"]: ds[d["lon"]] + c["jo"] * r.uniform(-1, 1, size=2 * d["n"])})
    states = bt.io.from_dataset(ds)
    require(len(states) == int(np.prod(d["dims"])), "number of states")
    require(states[0].grid.shape == (d["n"] + 1, 2 * d["n"]), "shape of grid")
