"""C31 Plot helpers keep data and coordinates aligned"""
import datetime as dt
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import barotropic as bt
from barotropic import plot as P

SUITE = Suite("C31")

def mod(a, b=360.):
    """Distance from the nearest multiple"""
    return np.abs((np.asarray(a, dtype=float) + b / 2) % b - b / 2)

def axes():
    """One axes object for all cases of a worker"""
    fig = plt.figure("C31", figsize=(2, 2), dpi=20)
    fig.clf()
    return fig.add_subplot()

def tick_labels(ax):
    return [(x, t.get_text()) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]

centers = G.weighted((2, st.sampled_from([0, 180, 360, -180, 90., 270., -90, 359.9, 0.])), (3, st.integers(-720, 720)), (3, G.sym(720., 7919)), (1, st.integers(-10**6, 10**6)), (1, st.integers(0, 100)))

def check_labels(ax, origin, what):
    """Tick x shows the longitude x + origin, rounded to degrees"""
    got = tick_labels(ax)
    require(len(got) > 1, f"{what}: ticks")
    for x, text in got:
        require(text.endswith("°"), lambda: f"{what}: tick label {text!r}")
        value = float(text[:-1].replace("−", "-"))
        require(-0.51 <= value <= 360.51, lambda: f"{what}: tick label {text!r}")
        require(mod(value - x - origin) <= 0.5 + 1e-6, lambda: f"{what}: tick at {x} is labelled {text} while longitude {(x + origin) % 360.} is there")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 40, 90, trunc=False, planet=False, legfunc=False), "center": st.one_of(centers, st.none()), "kind": st.sampled_from(["f8", "f4", "int", "bool"]), "how": st.sampled_from(["pos", "kw", "np"]), "halfway": st.booleans(),
        "atoms": G.any_fields(2)}), 600, 12000, fine=(16, FINE))
def centering(c):
    """Any centre, between grid points too, on all resolutions: which columns are where after rolling, and the tick labels. Non-trivial unless nothing has
    to move."""
    grid = B.make_grid(c["g"])
    n = c["g"]["n"]
    lon = B.lons(n)
    center = c["center"]
    if center is None:
        roll, configure = P.roll_lon(grid.lon)
        center = 180.
        label("default")
    else:
        if c["halfway"] and c["how"] != "np":
            # Halfway between grid points both neighbors are fine
            center = round(center) * 180. / n + 90. / n
            label("halfway")
        if c["how"] == "np":
            center = np.float64(center)
        roll, configure = P.roll_lon(grid.lon, center) if c["how"] == "pos" else P.roll_lon(lon=grid.lon, center=center)
    moved = np.array(roll(grid.lon2))
    require(moved.shape == grid.shape, "shape of rolled field")
    close(moved, np.tile(moved[0], (n + 1, 1)), 0., "columns stay together")
    # A rotation of the columns
    start = moved[0,0]
    trivial(start == 0.)
    close(np.sort(moved[0]), lon, 1e-9, "columns")
    close(mod(moved[0] - lon - start), 0. * lon, 1e-6, "columns in circular order")
    mid = moved[0,n]
    require(mod(mid - float(center)) <= 90. / n + 1e-6, lambda: f"longitude {mid} in the middle instead of the one nearest to {center}")
    # Fields move in the same way, whatever they are made of
    f = B.field(n, c["atoms"])
    f = {"f8": f, "f4": f.astype("f4"), "int": np.arange(f.size).reshape(f.shape), "bool": f > 0.}[c["kind"]]
    guard = Guard(f)
    got = np.asarray(roll(f))
    guard.check("roll")
    where = np.rint(moved[0] * n / 180.).astype(int) % (2 * n)
    require(got.dtype == f.dtype and np.array_equal(got, f[:,where]), "rolled field")
    require(np.array_equal(np.asarray(roll(f)), got), "rolled again")
    ax = axes()
    configure(ax)
    check_labels(ax, start, "configured axis")

@SUITE.test(st.fixed_dictionaries({"offset": st.one_of(G.sym(720., 7919), st.integers(-720, 720), st.none()), "lim": st.booleans(), "hem": st.sampled_from(["N", "S", "both", None, "X"])}), 150, 2500)
def axis_styles(c):
    """Longitude labels for any offset and latitude ranges. Always non-trivial."""
    ax = axes()
    if c["lim"]:
        ax.plot([0., 359.], [-90., 90.])
    if c["offset"] is None:
        P.configure_lon_x(ax)
    else:
        P.configure_lon_x(ax, c["offset"])
    check_labels(ax, 0. if c["offset"] is None else -c["offset"], "offset")
    P.configure_lat_y(ax, c["hem"])
    want = {"N": (0, 90), "S": (-90, 0)}.get(c["hem"], (-90, 90))
    require(tuple(ax.get_ylim()) == want, lambda: f"latitudes {ax.get_ylim()} for hemisphere {c['hem']!r}")
    text = ax.yaxis.get_major_formatter()(45.)
    require(text == "45°", lambda: f"latitude label {text!r}")

@st.composite
def hovs(draw):
    g = draw(G.grids(2, 16, 30))
    m = draw(G.weighted((9, st.integers(0, 7)), (1, st.integers(8, 40))))
    return {"g": g, "flows": draw(st.lists(G.flows(G.res_of(g), 2), min_size=1, max_size=3)), "clock": draw(st.sampled_from(["f", "i", "dt", "tz"])), "times": draw(st.lists(st.integers(-10**6, 10**7), min_size=m, max_size=m)),
            "f": draw(st.sampled_from(["zonal mean u", "v along latitude", "column", "vector", "const lon", "const lat", "int", "mixed", "mixed", "f4", "bad", "2d"])), "j": draw(st.integers(0, 60)), "as": draw(st.sampled_from(["list", "tuple", "StateList"])), "sorted": draw(st.booleans())}

@SUITE.test(hovs(), 500, 10000, fine=(16, FINE))
def hovmoeller(c):
    """Lists of up to seven states with times in any order, zonal and meridional profiles. Non-trivial with at least two states."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    times = sorted(c["times"]) if c["sorted"] else c["times"]
    zone = dt.timezone(dt.timedelta(hours=2)) if c["clock"] == "tz" else None
    times = [{"f": lambda t: t / 7., "i": lambda t: t}.get(c["clock"], lambda t: B.BASE_TIME.replace(tzinfo=zone) + dt.timedelta(seconds=t))(t) for t in times]
    flows = [B.Flow(g, c["flows"][i % len(c["flows"])]["vo"], 10. + i) for i in range(len(times))]
    states = [bt.State(grid, t, pv=f.pv) for t, f in zip(times, flows)]
    trivial(len(states) < 2)
    label(c["f"], c["clock"])
    codes = {id(s): i for i, s in enumerate(states)}
    j = c["j"]
    m = grid.nlat
    # Profile functions
    func, size = {
        "zonal mean u": (lambda s: s.u.mean(axis=1), m), "column": (lambda s: s.pv[:,j % (2 * n)], m), "const lat": (lambda s: np.full(m, float(codes[id(s)])), m), "int": (lambda s: np.arange(m) * 10 + codes[id(s)], m),
        "v along latitude": (lambda s: s.v[j % m], 2 * n), "const lon": (lambda s: np.full(2 * n, float(codes[id(s)])), 2 * n), "vector": (lambda s: np.arange(2 * n) + 1000. * codes[id(s)], 2 * n), "f4": (lambda s: s.pv[j % m].astype("f4"), 2 * n),
        "mixed": (lambda s: (np.arange(2 * n) + codes[id(s)] / 3.).astype(["i4", "f8", "f4"][(codes[id(s)] + j) % 3]), 2 * n),
        "bad": (lambda s: np.zeros(2 * n + 1 + j), None), "2d": (lambda s: s.u, None)}[c["f"]]
    given = {"list": list, "tuple": tuple, "StateList": bt.StateList}[c["as"]](states)
    if not states or size is None:
        refused(f"{c['f']} profile of {len(states)} states", P.hovmoellerify, given, func)
        return
    x, y, f = P.hovmoellerify(given, func)
    want = np.array([func(s) for s in states])
    space, clock = (x, y) if size == 2 * n else (y, x)
    close(space, B.lons(n) if size == 2 * n else B.lats(n), 1e-9, "coordinate in space")
    require(np.shape(clock) == (len(times),), lambda: f"shape {np.shape(clock)} of time coordinate")
    for i, (a, b) in enumerate(zip(np.asarray(clock).tolist(), times)):
        require(a == b, lambda: f"time {a!r} instead of {b!r} at {i}")
    f = np.asarray(f)
    require(f.shape == (len(y), len(x)), lambda: f"shape {f.shape} for coordinates of {len(x)} and {len(y)}")
    require(np.array_equal(f, want if size == 2 * n else want.T), "field")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 40, 120, trunc=False, planet=False, legfunc=False), "ny": G.weighted((3, st.integers(1, 30)), (1, st.integers(30, 300)), (1, G.uni(1., 40.))), "what": st.sampled_from(["grid", "shape", "shape"]),
        "shape": st.tuples(st.integers(1, 60), st.integers(1, 120)).map(list), "seed": G.seeds,
        "layouts": st.lists(G.layouts, min_size=4, max_size=4), "dtypes": st.lists(G.dtypes, min_size=2, max_size=2)}), 500, 10000, fine=(20, FINE))
def thinning(c):
    """Vectors of grids and of other rectangles, any number of rows. Non-trivial if vectors are dropped."""
    ny = c["ny"]
    if c["what"] == "grid":
        grid = B.make_grid(c["g"])
        x, y = grid.lon2, grid.lat2
    else:
        y, x = np.meshgrid(np.linspace(3., 1., c["shape"][0]), np.linspace(-1., 1., c["shape"][1]), indexing="ij")
    rng = np.random.default_rng(c["seed"])
    # All different, in every dtype
    u, v = (rng.permutation(x.size).reshape(x.shape) - x.size // 2. for _ in range(2))
    u, v = B.shape_array(u, c["dtypes"][0], c["layouts"][0]), B.shape_array(v, c["dtypes"][1], c["layouts"][1])
    if c["what"] != "grid":
        x, y = B.shape_array(x, "f8", c["layouts"][2]), B.shape_array(y, "f8", c["layouts"][3])
    guard = Guard(x, y, u, v)
    out = P.reduce_vectors(x, y, u, v, ny)
    guard.check("reduce_vectors")
    require(len(out) == 4, "four arrays")
    out = [np.asarray(a) for a in out]
    require(all(a.shape == out[0].shape and a.ndim == 2 for a in out), "shapes")
    stride = max(int(x.shape[0] // ny), 1)
    trivial(stride == 1)
    label(f"stride {min(stride, 5)}")
    # Which vectors are left
    pos = {value: k for k, value in enumerate(u.ravel().tolist())}
    k = np.array([pos[value] for value in out[2].ravel().tolist()], dtype=int).reshape(out[2].shape)
    for a, b, name in zip(out, (x, y, u, v), "xyuv"):
        require(np.array_equal(a, b.ravel()[k]), f"{name} belongs to another vector")
    if k.size:
        j, i = np.divmod(k, x.shape[1])
        require(np.all(j == j[:,:1]) and np.all(i == i[:1]), "not a lattice")
        for at, size, what in ((j[:,0], x.shape[0], "rows"), (i[0], x.shape[1], "columns")):
            require(np.all(np.diff(at) == stride), lambda: f"{what} {at.tolist()} instead of every {stride}th")
            require(at[0] < stride and at[-1] + stride >= size, lambda: f"{what} {at.tolist()} do not reach through all {size}")
    else:
        require(x.shape[1] < stride, "no vectors left")

@SUITE.test(st.fixed_dictionaries({"x": st.one_of(G.any_fields(3), st.lists(st.integers(-100, 100), min_size=1, max_size=8), st.just([0, 0])), "scale": st.one_of(st.just(1.), G.logu(1e-12, 1e12)), "off": st.sampled_from([0., 0., 5., -5.]),
        "n": st.one_of(st.none(), st.integers(2, 40)), "ext": G.weighted((2, st.none()), (1, G.logu(1e-12, 1e12)), (1, st.integers(1, 50)), (1, st.just(0))), "kw": st.booleans(),
        "int": st.one_of(st.booleans(), st.sampled_from(B.INTEGERS))}), 600, 12000)
def levels(c):
    """Contour levels of one- and two-dimensional data of any magnitude and sign. Non-trivial unless there are no values other than zero."""
    if isinstance(c["int"], str):
        x = B.integers(B.field(6, c["x"]) if isinstance(c["x"][0], dict) else np.array(c["x"]), c["int"])
    elif isinstance(c["x"][0], dict):
        x = (B.field(6, c["x"]) + c["off"]) * c["scale"]
    else:
        x = np.array(c["x"])
        if not c["int"]:
            x = x * c["scale"] + c["off"]
    kw = {k: c[k] for k in ("n", "ext") if c[k] is not None}
    guard = Guard(x)
    got = P.symmetric_levels(x, **kw) if c["kw"] else P.symmetric_levels(x, *([c["n"]] if c["n"] is not None else []), **({"ext": c["ext"]} if c["ext"] is not None else {}))
    guard.check("symmetric_levels")
    ext = np.max(np.abs(x.astype(float))) if c["ext"] is None else c["ext"]
    got = np.asarray(got, dtype=float)
    require(got.ndim == 1 and got.size >= 2, "levels")
    require(np.all(np.diff(got) > 0), lambda: f"levels {got.tolist()} do not increase")
    close(got, -got[::-1], 1e-9 * got[-1], "symmetry")
    if ext == 0:
        trivial()
        return
    n = 10 if c["n"] is None else c["n"]
    label("override" if c["ext"] is not None else "from data")
    require(got.size == n, lambda: f"{got.size} levels instead of {n}")
    close(got, ext * (2. * np.arange(n) / (n - 1) - 1.), 1e-9 * ext, "levels")
