"""C26 Dataset import reproduces the flow, order, grid and times it was given"""
import datetime as dt
import itertools
import numbers
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
from .c25 import collections, make_states
import barotropic as bt

SUITE = Suite("C26")

KNOWN = {
    "u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"],
    "vo": ["vo", "relv", "vorticity", "relative_vorticity"], "avo": ["avo", "absv", "absolute_vorticity", "pv"],
    "lon": ["longitude", "lon"], "lat": ["latitude", "lat"], "time": ["time"],
}
CUSTOM = {"u": "U component", "v": "var132", "vo": "zeta", "avo": "eta", "lon": "x", "lat": "y", "time": "valid_time"}

def var_name(ref):
    return st.one_of(st.sampled_from(KNOWN[ref]), st.sampled_from(KNOWN[ref]), st.just(CUSTOM[ref]))

kwargs_ = st.fixed_dictionaries({}, optional={"rsphere": st.sampled_from([6371200.0, 1e6, 3.4e6]), "omega": st.sampled_from([0., 1e-4, 7.292e-5]), "ntrunc": st.integers(2, 4),
    "legfunc": st.sampled_from(["stored", "computed"])})

@st.composite
def datasets(draw, nmin=4, nmax=10):
    n = draw(G.sizes(nmin, nmax))
    what = draw(st.sampled_from(["wind", "wind", "vo", "avo", "wind+vo", "wind+avo", "vo+avo", "all", "u+vo", "v+avo"]))
    refs = {"wind": ["u", "v"], "all": ["avo", "vo", "v", "u"], "wind+vo": ["vo", "u", "v"], "wind+avo": ["u", "avo", "v"], "vo+avo": ["avo", "vo"],
        "u+vo": ["u", "vo"], "v+avo": ["avo", "v"]}.get(what, [what])
    d = {"n": n, "refs": {r: draw(var_name(r)) for r in refs}, "lon": draw(var_name("lon")), "lat": draw(var_name("lat"))}
    # Dimensions other than latitude and longitude: name, size, labels
    extra = draw(st.lists(st.sampled_from(["level", "member", "step", "run"]), max_size=2, unique=True))
    d["dims"] = [[e, draw(st.integers(1, 3)), draw(st.sampled_from(["none", "int", "str", "repeated", "float", "reversed"]))] for e in extra]
    time = draw(st.sampled_from(["dim", "dim", "dim", "dim", "none", "scalar", "nolabel", "2d"]))
    d["time"] = {"where": time, "name": draw(var_name("time")), "kind": draw(st.sampled_from(["f8", "i8", "f4", "ns", "s", "us", "td"])),
        "values": draw(st.lists(st.integers(-10**5, 10**6).map(lambda i: i * 600), min_size=9, max_size=9)), "size": draw(st.integers(1, 4)), "sub": draw(st.sampled_from([0, 0, 250]))}
    if draw(st.sampled_from([False, False, True])):
        d["time"]["values"] = [d["time"]["values"][i // 2] for i in range(9)] # repeated
    d["at"] = draw(st.integers(0, 2))
    d["cdtype"] = draw(st.sampled_from(["f8", "f8", "f4", "i8"]))
    d["west"] = draw(G.weighted((4, st.just(0)), (3, st.just(-n)), (2, st.integers(-2 * n, 2 * n))))
    d["dtype"] = draw(st.sampled_from(["f8", "f4"]))
    d["flows"] = {r: draw(G.flows(min(n - 1, 4), 2)) for r in ("wind", "vo", "avo")}
    d["kw"] = draw(kwargs_)
    d["nokw"] = draw(st.booleans())
    d["fill"] = draw(st.sampled_from([None, 5, -3.5, "dt"]))
    d["as"] = draw(st.sampled_from(["dataset", "dataset", "array"]))
    d["other"] = draw(st.booleans())
    d["xorder"] = draw(st.booleans())
    # Variables with recognized names which have to be ignored
    d["decoys"] = draw(st.sampled_from(["none", "full", "flat"]))
    return d

def grid_of(d):
    """Grid description from the grid options"""
    kw = d["kw"]
    return {"n": d["n"], "r": kw.get("rsphere", G.EARTH_R), "om": kw.get("omega", G.EARTH_OM), "nt": kw.get("ntrunc")}

class Fields:
    """Fields for every combination of indices, all different"""
    def __init__(self, g, flow, shape, nt):
        n = g["n"]
        vo = [dict(a, n=min(a["n"], nt), m=min(a["m"], nt, a["n"])) for a in flow["vo"]]
        if not any(a["a"] for a in vo):
            vo.append({"t": "sh", "n": 1, "m": 1, "a": 0.7, "p": 0})
        f = B.Flow(g, vo, flow["U"])
        self.planet = f.f
        self.base = f
        self.n = n

    def at(self, i, ref):
        f = self.base
        fac = 1. + 0.5 * i
        x = {"u": f.u, "v": f.v, "vo": f.vo, "avo": f.vo}[ref] * fac
        x = np.roll(x, i, axis=1)
        return x + f.f if ref == "avo" else x

def encode_times(t, size):
    v = np.array(t["values"][:size], dtype=float)
    if t["kind"] in ("f8", "f4"):
        return (v + t["sub"] * 1e-3 * (t["kind"] == "f8")).astype(t["kind"])
    if t["kind"] == "i8":
        return v.astype("i8")
    if t["kind"] == "td":
        return np.array([np.timedelta64(int(x), "s") for x in v]).astype("m8[ns]")
    base = np.datetime64("2000-01-01T00:00:00")
    out = np.array([base + np.timedelta64(int(x), "s") for x in v])
    if t["kind"] == "s":
        return out
    return out.astype("M8[ns]" if t["kind"] == "ns" else "M8[us]") + np.timedelta64(t["sub"], "ms")

def decode_time(x):
    if isinstance(x, np.datetime64):
        us = int((x.astype("M8[us]") - np.datetime64("1970-01-01", "us")) / np.timedelta64(1, "us"))
        return dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=us)
    if isinstance(x, np.timedelta64):
        return float(x / np.timedelta64(1, "s"))
    return x.item()

def make_dataset(d):
    """(dataset, names, expected [(time, index)], flow by path)"""
    import xarray as xr
    n = d["n"]
    g = grid_of(d)
    dims = [list(x) for x in d["dims"]]
    t = d["time"]
    coords = {}
    fill = 0 if d["fill"] is None else dt.datetime(1999, 1, 1) if d["fill"] == "dt" else d["fill"]
    tname = t["name"]
    tsize = t["size"]
    if t["where"] in ("dim", "nolabel"):
        dims.insert(min(d["at"], len(dims)), [tname if t["where"] == "dim" else "time", tsize, "time" if t["where"] == "dim" else "none"])
    for name, size, labels in dims:
        if labels == "int":
            coords[name] = (name, np.arange(size) * 100 + 850)
        elif labels == "reversed":
            coords[name] = (name, -np.arange(size))
        elif labels == "float":
            coords[name] = (name, np.arange(size) * 0.1 + 0.3)
        elif labels == "str":
            coords[name] = (name, [f"m{i}" for i in range(size)])
        elif labels == "repeated":
            coords[name] = (name, np.zeros(size, dtype=int))
        elif labels == "time":
            coords[name] = (name, encode_times(t, size))
    shape = [x[1] for x in dims]
    twod = None
    if t["where"] == "scalar":
        coords[tname] = ((), encode_times(t, 1)[0])
    elif t["where"] == "2d" and len(dims) == 2:
        twod = encode_times(t, len(t["values"]))[:shape[0] * shape[1]].reshape(shape)
        coords[tname] = ([x[0] for x in dims], twod)
    lon = (d["west"] + np.arange(2 * n)) * (180. / n)
    lat = B.lats(n)
    cd = d["cdtype"]
    if cd == "i8" and 180 % n != 0:
        cd = "f8"
    coords[d["lon"]] = (d["lon"], lon.astype(cd))
    coords[d["lat"]] = (d["lat"], lat.astype(cd))
    nt = min(B.res(g), 4)
    flows = {k: Fields(g, f, shape, nt) for k, f in d["flows"].items()}
    # Column i of the data belongs to longitude west + i
    pick = (d["west"] + np.arange(2 * n)) % (2 * n)
    data = {}
    for ref, name in d["refs"].items():
        f = flows[{"u": "wind", "v": "wind"}.get(ref, ref)]
        x = np.zeros([*shape, n + 1, 2 * n], dtype=d["dtype"])
        for i, idx in enumerate(itertools.product(*[range(s) for s in shape])):
            x[idx] = f.at(i, ref)[:,pick]
        data[name] = ([x[0] for x in dims] + [d["lat"], d["lon"]], x)
    if d["other"]:
        data["temperature"] = ([d["lat"], d["lon"]], np.zeros((n + 1, 2 * n)))
        data["index"] = ((), 3)
    if d["decoys"] != "none":
        for ref, name in d["refs"].items():
            decoy = None
            if name == CUSTOM[ref]:
                # Only given to names, these take precedence
                decoy = KNOWN[ref][(n + tsize) % len(KNOWN[ref])]
            elif ref == "avo" and name != "pv":
                decoy = "pv" # documented to be the last resort
            if decoy is not None:
                x = data[name]
                data[decoy] = (x[0], 3. - 2. * x[1]) if d["decoys"] == "full" else (x[0][-2:], np.ones(x[1].shape[-2:]))
                label("decoy " + ref)
        for ref in ("lat", "lon"):
            if d[ref] == CUSTOM[ref]:
                coords[KNOWN[ref][n % 2]] = (d[ref], np.arange(n + 1. if ref == "lat" else 2. * n)[::-1])
                label("decoy " + ref)
        if tname == CUSTOM["time"] and t["where"] in ("dim", "scalar", "2d"):
            coords["time"] = ((), np.datetime64("1980-01-01", "ns"))
            label("decoy time")
    if d["xorder"]:
        coords = dict(reversed(list(coords.items())))
    ds = xr.Dataset(data, coords)
    names = {ref: name for ref, name in [*d["refs"].items(), ("lon", d["lon"]), ("lat", d["lat"]), ("time", tname)] if name not in KNOWN[ref]}
    # Expectations in row-major order
    tdim = [k for k, x in enumerate(dims) if x[2] == "time"]
    times = []
    for idx in itertools.product(*[range(s) for s in shape]):
        if t["where"] == "scalar":
            times.append(decode_time(encode_times(t, 1)[0]))
        elif twod is not None:
            times.append(decode_time(twod[idx]))
        elif tdim:
            times.append(decode_time(encode_times(t, tsize)[idx[tdim[0]]]))
        else:
            times.append(fill)
    kw = {}
    if names:
        kw["names"] = names
    if d["kw"] or not d["nokw"]:
        kw["grid_kwargs"] = dict(d["kw"])
    if d["fill"] is not None:
        kw["time_fill"] = fill
    path = "wind" if "u" in d["refs"] and "v" in d["refs"] else "vo" if "vo" in d["refs"] else "avo"
    return ds, kw, times, path, flows[path], g

def check_time(got, want, what):
    if isinstance(want, dt.datetime):
        require(isinstance(got, dt.datetime), lambda: f"{what}: {got!r} is not a datetime")
        require(got.tzinfo is None, f"{what}: {got!r} has a time zone")
        require(abs((got - want).total_seconds()) <= 1.5e-6, lambda: f"{what}: {got} instead of {want}")
    else:
        require(isinstance(got, numbers.Number) and not isinstance(got, np.ndarray), lambda: f"{what}: {got!r} is not a number")
        require(got == want, lambda: f"{what}: {got} instead of {want}")

@SUITE.test(datasets(), 700, 15000)
def imports(d):
    """Datasets made of resolved flows differing in every combination of the extra dimensions: all variable and coordinate names, priorities,
    extra dimensions, kinds of times, longitudes starting anywhere, grid options. Non-trivial if several states result."""
    check_import(d)

def check_import(d):
    ds, kw, times, path, f, g = make_dataset(d)
    n, r = d["n"], B.rad(g)
    given = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    about = list(ds.variables), dict(ds.sizes), [dict(v.attrs) for v in ds.variables.values()]
    guard = Guard(**{str(k): v.values for k, v in ds.variables.items() if v.dtype.kind in "fiu"})
    src = ds
    if d["as"] == "array" and len(d["refs"]) == 1:
        src = ds[next(iter(d["refs"].values()))]
        label("DataArray")
    states = bt.io.from_dataset(src, **kw)
    guard.check("from_dataset")
    require(all(kw[k] == v for k, v in given.items()), "from_dataset modified names or grid_kwargs")
    require(about == (list(ds.variables), dict(ds.sizes), [dict(v.attrs) for v in ds.variables.values()]), "from_dataset modified the dataset")
    require(isinstance(states, bt.StateList), f"{type(states).__name__} is not a StateList")
    require(len(states) == len(times), lambda: f"{len(states)} states instead of {len(times)}")
    trivial(len(times) < 2)
    label(path, "time " + d["time"]["where"], d["time"]["kind"], "west" if d["west"] else "", f"{len(d['dims'])} dims", "names" if "names" in kw else "", d["cdtype"])
    grid = states[0].grid
    require(grid.nlat == n + 1 and grid.nlon == 2 * n, f"grid shape {grid.shape}")
    close(grid.lat, B.lats(n), 1e-9, "latitudes")
    close(grid.rsphere, r, 1e-9 * r, "radius")
    close(grid.fcor, B.fcor(g), 1e-9 * max(abs(B.om(g)), 1e-30), "Coriolis parameter")
    require(grid == bt.Grid(180. / n, **d["kw"]), "grid options")
    fac = 1. + 0.5 * len(times)
    tol = B.tol(n, 0.5) * (f.base.scale_vo * fac + np.max(np.abs(f.planet)))
    tolu = B.tol(n, 0.5) * f.base.scale_u * fac + tol * r
    for i, (s, t) in enumerate(zip(states, times)):
        check_time(s.time, t, "time of state")
        close(s.pv, f.at(i, "avo"), tol, "pv")
        close(s.u, f.at(i, "u"), tolu, "u")
        close(s.v, f.at(i, "v"), tolu, "v")

@SUITE.test(st.lists(datasets(), min_size=2, max_size=3), 60, 2000)
def imports_in_a_row(c):
    """Imports of different datasets (names, resolutions, options) one after the other, and the first one again. Non-trivial if names are given to one
    of them."""
    for d in [*c, c[0]]:
        check_import(d)
    trivial(not any("names" in make_dataset(d)[1] for d in c))

@st.composite
def trip_cases(draw):
    c = draw(collections())
    c["g"].pop("lf", None)
    return {"c": c, "fields": draw(st.sampled_from(["default", "wind", "vo", "vorticity", "avo", "pv", "renamed", "both"])), "dim": draw(st.sampled_from([None, None, "member", "x"])),
            "mod": draw(st.lists(st.sampled_from(["f4coords", "west", "f4data", "extra", "squeeze", "rename", "nolabels", "same times"]), max_size=3, unique=True)),
            "single": draw(st.booleans())}

@SUITE.test(trip_cases(), 350, 6000)
def round_trip(c):
    """Export of states followed by import, with single-precision coordinates, longitudes from -180, additional fields, repeated times,
    removed labels, renamed coordinates in between. Non-trivial if there are several states."""
    col = dict(c["c"])
    if "same times" in c["mod"]:
        col["times"] = [col["times"][0]] * 5
    g = col["g"]
    n, r = g["n"], B.rad(g)
    grid, states = make_states(col)
    fields, kw = {"default": None, "wind": ["u", "v"], "vo": "vo", "vorticity": ["vorticity"], "avo": "avo", "pv": "pv",
        "renamed": {"eastward_wind": "u", "northward_wind": "v"}, "both": ["pv", "v", "u"]}[c["fields"]], {}
    args = {} if fields is None else {"fields": fields}
    if c["dim"]:
        args["concat_dim"] = c["dim"]
        for i, s in enumerate(states):
            s.member = 7 - i
    ds = bt.io.as_dataset(states, **args)
    for m in sorted(c["mod"], key=lambda m: m == "rename"):
        if m == "f4coords":
            ds = ds.assign_coords(latitude=ds["latitude"].astype("f4"), longitude=ds["longitude"].astype("f4"))
        elif m == "west":
            x = ds["longitude"].values
            ds = ds.assign_coords(longitude=np.where(x >= 180., x - 360., x)).sortby("longitude")
        elif m == "f4data":
            ds = ds.astype("f4")
        elif m == "extra":
            ds = ds.assign(humidity=ds["latitude"] * 0)
        elif m == "squeeze":
            ds = ds.squeeze()
        elif m == "rename" and "latitude" in ds:
            ds = ds.rename(latitude="lat", longitude="lon")
        elif m == "nolabels" and c["dim"]:
            ds = ds.drop_vars(c["dim"])
    if "rename" in c["mod"] and "lat" in ds:
        label("renamed")
    label(c["fields"], *c["mod"], "dim " + str(c["dim"]))
    trivial(len(states) < 2)
    # Times only survive along the time dimension
    nt = g.get("nt")
    gk = {} if nt is None else {"ntrunc": nt}
    times = [s.time for s in states]
    back = bt.io.from_dataset(ds, grid_kwargs=gk)
    require(len(back) == len(states), f"{len(back)} states instead of {len(states)}")
    for s, b, t in zip(states, back, times):
        pv = np.array(s.pv, dtype=float)
        u = np.array(s.u, dtype=float)
        q = np.max(np.abs(pv)) + np.max(np.abs(grid.fcor))
        tol = B.tol(n, 0.5) * (q + np.max(np.abs(u)) / r)
        if not c["dim"]:
            check_time(b.time, t, "time after round trip")
        require(b.grid.shape == s.grid.shape, "grid after round trip")
        close(b.pv, pv, tol, "pv after round trip")
        close(b.u, u, tol * r * 2, "u after round trip")
        close(b.v, s.v, tol * r * 2, "v after round trip")

@st.composite
def many_cases(draw):
    d = draw(datasets(4, 5))
    d["kw"].pop("ntrunc", None)
    big = draw(st.sampled_from([[40], [7, 8], [12, 11], [3, 37], [130]]))
    d["dims"] = [[e, s, draw(st.sampled_from(["none", "int", "float", "reversed"]))] for e, s in zip(["level", "run"], big)]
    d["time"]["values"] = [v + 86400 * i for i in range(17) for v in d["time"]["values"]]
    d["time"]["size"] = 1
    if d["time"]["where"] in ("dim", "nolabel") and draw(st.booleans()):
        d["time"]["size"] = draw(st.integers(20, 130))
        d["dims"] = d["dims"][:1] if d["time"]["size"] < 30 else []
        for x in d["dims"]:
            x[1] = 5
    return d

@SUITE.test(many_cases(), 15)
def imports_many(d):
    """As imports, with 40 to 132 combinations of the extra dimensions."""
    check_import(d)
