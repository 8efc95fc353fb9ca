"""C25 Dataset export carries every requested field, coordinate and time"""
import datetime as dt
import functools
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C25")

TWO = ["u", "v", "pv", "avo", "vorticity", "vo", "streamfunction", "energy", "enstrophy", "eddy_enstrophy", "falwa", "falwa_filtered", "v_envelope_hilbert"]
LAT = ["pv_zonalized", "fawa", "stationary_wavenumber"]
CALLABLES = {
    "ubar": (lambda s: s.u.mean(axis=bt.ZONAL), "lat"),
    "vmean": (lambda s: s.v.mean(axis=bt.MERIDIONAL), "lon"),
    "umax": (lambda s: s.u.max(), "num"),
    "umaxf": (lambda s: float(s.u.max()), "num"),
    "count": (lambda s: int((s.u > 0).sum()), "num"),
    "zerod": (lambda s: np.array(s.u.min()), "num"),
    "flag": (lambda s: bool(s.u[0,0] > s.u[1,0]), "num"),
    "twice": (lambda s: 2 * s.pv, "2d"),
    "rank": (lambda s: np.argsort(np.argsort(s.pv.ravel())).reshape(s.pv.shape), "2d"),
    "complex": (lambda s: s.u + 1j * s.v, "2d"),
    "lats": (lambda s: s.grid.lat, "lat"),
    "lons": (lambda s: s.grid.lon, "lon"),
    "partial": (functools.partial(lambda a, s: a * s.u, 3.), "2d"),
    "unbound": (bt.State.add_wind and (lambda s: bt.State.vorticity.fget(s)), "2d"),
    "gmean": (lambda s: s.grid.mean(s.pv), "num"),
    "seconds": (lambda s: s.grid.nlon, "num"),
}

@st.composite
def collections(draw, min_size=1, max_size=5):
    g = draw(G.grids(4, 10, planet=False))
    count = draw(st.integers(min_size, max_size))
    if g["n"] <= 6 and min_size <= max_size == 5:
        # As many states as latitudes or longitudes
        count = draw(st.sampled_from([count, count, g["n"] + 1, 2 * g["n"]]))
    return {"g": g, "flows": draw(st.lists(G.flows(G.res_of(g), 2), min_size=1, max_size=3)), "n": count,
            "clock": draw(st.sampled_from(["f", "i", "mix", "dt", "dt"])), "times": draw(st.lists(G.weighted((3, st.integers(-10**6, 10**7)), (1, st.sampled_from([0, 600, 1]))), min_size=5, max_size=5)),
            "micro": draw(st.sampled_from([0, 0, 250000, 1]))}

def make_states(c):
    grid = B.make_grid(c["g"])
    out = []
    for i in range(c["n"]):
        f = c["flows"][i % len(c["flows"])]
        t = c["times"][i % 5] + i // 5 * 7
        if c["clock"] == "f":
            t = t + c["micro"] * 1e-6
        elif c["clock"] == "mix":
            # Some integers, some fractions
            t = t if i % 2 == 0 else t + 0.5
        elif c["clock"] == "dt":
            t = B.BASE_TIME + dt.timedelta(seconds=t, microseconds=c["micro"])
        # Make every state different
        out.append(bt.State(grid, t, pv=B.Flow(c["g"], f["vo"], f["U"] * (1. + 0.25 * i)).pv))
    return grid, out

def container(kind, states):
    if kind == "list":
        return list(states)
    if kind == "tuple":
        return tuple(states)
    if kind == "generator":
        return (s for s in states)
    if kind == "map":
        return map(lambda s: s, states)
    if kind == "array":
        out = np.empty(len(states), dtype=object)
        out[:] = states
        return out
    return bt.StateList(states)

names = st.sampled_from(TWO + LAT)
@st.composite
def field_specs(draw):
    kind = draw(st.sampled_from(["default", "str", "list", "list", "tuple", "generator", "dict", "dict"]))
    if kind == "default":
        return [kind, None]
    if kind == "str":
        return [kind, draw(names)]
    if kind != "dict":
        return [kind, draw(st.lists(names, max_size=4, unique=True))]
    vals = draw(st.lists(st.one_of(names, st.sampled_from(sorted(CALLABLES)).map(lambda x: "call " + x)), max_size=4))
    return [kind, [[f"name{i}" if draw(st.booleans()) or v.startswith("call") else ("u", "v", "vo", "z")[i], v] for i, v in enumerate(vals)]]

@st.composite
def cases(draw):
    c = {"c": draw(collections()), "as": draw(st.sampled_from(["list", "tuple", "generator", "map", "array", "statelist", "method"])), "fields": draw(field_specs())}
    if draw(st.sampled_from([False, False, False, True])):
        c["as"], c["c"]["n"] = "single", 1
    c["dim"] = draw(st.sampled_from([None, None, "time", "member", "member", "label", "when", "nothing", "partly"]))
    c["kw"] = draw(st.booleans())
    return c

def decode_times(coord, states, what):
    want = [s.time for s in states]
    got = coord.values
    require(got.shape == (len(want),), f"{what}: shape {got.shape}")
    if isinstance(want[0], dt.datetime):
        require(got.dtype.kind == "M", f"{what}: datetimes are {got.dtype}")
        ref = np.array(want, dtype="datetime64[us]")
        require(np.array_equal(got.astype("datetime64[us]"), ref), f"{what}: {got} instead of {ref}")
        require("units" not in coord.attrs, lambda: f"{what}: datetimes with units {dict(coord.attrs)}")
    else:
        close(got, np.array(want, dtype=float), 0., what)
        require(coord.attrs.get("units") == "s", f"{what}: seconds not marked, {dict(coord.attrs)}")

@SUITE.test(cases(), 600, 12000)
def export(c):
    """Single states and all kinds of collections, clocks, field specifications and concatenation dimensions. Non-trivial if several states or
    several fields are exported."""
    import xarray as xr
    grid, states = make_states(c["c"])
    n = c["c"]["g"]["n"]
    kind, spec = c["fields"]
    if kind == "default":
        fields, want = None, [("u", "u"), ("v", "v")]
    elif kind == "str":
        fields, want = spec, [(spec, spec)]
    elif kind == "dict":
        want = [(k, CALLABLES[v[5:]][0] if v.startswith("call ") else v) for k, v in spec]
        want = list(dict(want).items())
        fields = dict(want)
    else:
        fields = {"list": list, "tuple": tuple, "generator": lambda x: (y for y in x)}[kind](spec)
        want = [(x, x) for x in spec]
    dim = c["dim"] or "time"
    index = list(range(len(states)))
    for i, s in enumerate(states):
        if dim == "member":
            s.member = index[i] = 10 - 3 * i
        elif dim == "label":
            s.label = index[i] = f"run {'cab'[i % 3]}{i}"
        elif dim == "when":
            s.when = index[i] = dt.datetime(2020, 1, 1) + dt.timedelta(days=5 * i)
        elif dim == "partly" and i > 0:
            s.partly = 3.
    if dim == "partly" and len(states) == 1:
        index = [0]
    asked = list(fields.items()) if isinstance(fields, dict) else list(fields) if isinstance(fields, list) else None
    args, kw = [], {}
    if fields is not None:
        if c["kw"]:
            kw["fields"] = fields
        else:
            args.append(fields)
    if c["dim"] is not None:
        kw["concat_dim"] = dim
    given = None
    if c["as"] == "single":
        ds = bt.io.as_dataset(states[0], *args, **kw)
    elif c["as"] == "method":
        given = bt.StateList(states)
        ds = given.as_dataset(*args, **kw)
    else:
        given = container(c["as"], states)
        ds = bt.io.as_dataset(given, *args, **kw)
    # Neither the specification of the fields nor the collection are modified
    if asked is not None:
        now = list(fields.items()) if isinstance(fields, dict) else fields
        require(now == asked, lambda: f"list of fields is {now} after the call, was {asked}")
    if given is not None and c["as"] in ("list", "array", "statelist", "method"):
        require(len(given) == len(states) and all(a is b for a, b in zip(given, states)), "collection of states modified by the export")
    if len(states) in grid.shape:
        label("square")
    label(c["as"], "fields " + kind, "dim " + dim, c["c"]["clock"])
    trivial(len(states) < 2 and len(want) < 2)
    require(isinstance(ds, xr.Dataset), f"{type(ds).__name__} is not a Dataset")
    require(set(ds.data_vars) == {k for k, _ in want}, lambda: f"variables {list(ds.data_vars)} instead of {[k for k, _ in want]}")
    for name, ref in (("latitude", grid.lat), ("longitude", grid.lon)):
        require(ds[name].dims == (name,), f"dims of {name}: {ds[name].dims}")
        close(ds[name].values, ref, 0., name)
    require((ds["latitude"].attrs.get("units"), ds["longitude"].attrs.get("units")) == ("degrees_north", "degrees_east"), "units of latitudes and longitudes")
    require(np.array_equal(ds["latitude"].values, B.lats(n)) or np.allclose(ds["latitude"].values, B.lats(n), rtol=0, atol=1e-9), "latitudes")
    decode_times(ds["time"], states, "time")
    if dim != "time":
        require(ds[dim].dims == (dim,), f"dims of {dim}: {ds[dim].dims}")
        got = ds[dim].values
        if dim == "when":
            got = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=float((t - np.datetime64(0, "s")) / np.timedelta64(1, "s"))) for t in got]
        require(list(got) == index, lambda: f"index {dim}: {list(got)} instead of {index}")
    for name, getter in want:
        vals = [np.asarray(getter(s) if callable(getter) else getattr(s, getter)) for s in states]
        shape = vals[0].shape
        dims = {(n + 1, 2 * n): ("latitude", "longitude"), (n + 1,): ("latitude",), (2 * n,): ("longitude",), (): ()}[shape]
        label({2: "2-D", 1: "profile", 0: "scalar"}[len(dims)])
        require(ds[name].dims == (dim, *dims), lambda: f"dims of {name}: {ds[name].dims} instead of {(dim, *dims)}")
        got = ds[name].values
        require(got.shape == (len(states), *shape), f"shape of {name}: {got.shape}")
        for i, v in enumerate(vals):
            close(got[i].astype(v.dtype) if v.dtype == bool else got[i], v, 0., f"{name} of state", kind="fiubc")
    # States remain as they were
    ref = make_states(c["c"])[1]
    for s, r in zip(states, ref):
        require(s.time == r.time, "time of state after export")
        close(s.pv, r.pv, 0., "state after export")

@SUITE.test(st.tuples(st.sampled_from(["list", "tuple", "generator", "map", "array", "statelist", "method"]), field_specs(), st.sampled_from(["time", "member", "x"])).map(list), 80)
def empty(c):
    """Empty collections of all kinds."""
    import xarray as xr
    fields = {} if c[1][0] in ("default", "dict") else {"fields": c[1][1]}
    if c[0] == "method":
        ds = bt.StateList([]).as_dataset(**fields, concat_dim=c[2])
    else:
        ds = bt.io.as_dataset(container(c[0], []), **fields, concat_dim=c[2])
    require(isinstance(ds, xr.Dataset), f"{type(ds).__name__} is not a Dataset")
    require(len(ds.variables) == 0 and len(ds.sizes) == 0, lambda: f"not empty: {ds}")

BAD = {
    "spectral": "pv_spectral", "spectral2": "vorticity_spectral", "grid": "grid", "missing": "no_such_attribute", "plot": "plot",
    "short": lambda s: s.pv[0,:-1], "three": lambda s: np.zeros((2, *s.pv.shape)), "text": lambda s: "x", "none": lambda s: None,
    "states": lambda s: s, "long": lambda s: np.zeros(s.pv.size), "list": lambda s: [1., 2.],
}

@SUITE.test(st.fixed_dictionaries({"c": collections(), "bad": st.sampled_from(sorted(BAD)), "with": st.booleans()}), 150)
def refusals(c):
    """Spectral fields, arrays of other sizes, objects and unknown names, also next to proper fields."""
    grid, states = make_states(c["c"])
    bad = BAD[c["bad"]]
    if c["bad"].startswith("spectral") and states[0].pv_spectral.size in grid.shape:
        trivial()
        return
    fields = {"u": "u"} if c["with"] else {}
    fields["x"] = bad
    label(c["bad"])
    refused(f"field {c['bad']}", bt.io.as_dataset, states, fields=fields)

@st.composite
def many_cases(draw):
    c = draw(cases())
    c["c"]["g"] = draw(G.grids(4, 5, planet=False))
    c["c"]["flows"] = [{"U": f["U"], "vo": [dict(a, n=min(a["n"], 2), m=min(a["m"], 1)) if a["t"] == "sh" else a for a in f["vo"]]} for f in c["c"]["flows"]]
    c["c"]["n"] = draw(G.weighted((2, st.integers(6, 40)), (2, st.integers(41, 150)), (1, st.sampled_from([16, 32, 64, 100, 128]))))
    if c["as"] == "single":
        c["as"] = "list"
    return c

@SUITE.test(many_cases(), 15)
def export_many(c):
    """As export, with up to 150 states."""
    export(c)
