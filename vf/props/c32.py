"""C32 Plots and text representations show the state they were given"""
import contextlib
import datetime as dt
import re
import warnings
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G, regions as R
from ..core import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.axes
from matplotlib.quiver import Quiver
import barotropic as bt
from barotropic import plot as P, formatting as F
from .c31 import check_labels, centers, mod

SUITE = Suite("C32", slow=True)

UNITS = {"s": 1., "min": 60., "h": 3600., "d": 86400.}

def check_time_text(text, time, what):
    """Text contains the time, to the precision of the digits shown"""
    if isinstance(time, (dt.datetime, dt.date)):
        require(time.isoformat() in text, lambda: f"{what}: {text!r} does not show {time.isoformat()}")
        return
    m = re.search(r"t = ([-+−0-9.e]+) *(s|min|h|d)(?![a-z])", text)
    require(m is not None, lambda: f"{what}: no time in {text!r}")
    number, unit = m.groups()
    digits = len(number.partition(".")[2])
    value = float(number.replace("−", "-"))
    require(abs(value * UNITS[unit] - time) <= (0.5 * 10.**-digits) * UNITS[unit] * (1 + 1e-9) + 1e-9 * abs(time), lambda: f"{what}: {text!r} for t = {time} s")
    # Readable: at least one unless in the smallest unit, up to a few hundreds unless in the largest one
    require(abs(value) >= 1. or unit == "s", lambda: f"{what}: {text!r} is not in a readable unit")
    require(abs(value) <= 500. or unit == "d", lambda: f"{what}: {text!r} is not in a readable unit")

any_time = st.one_of(
    G.sym(300., 3001), G.sym(2e4, 4001), st.integers(-10**6, 10**6), st.sampled_from([0, 60, 119, 120, 121, 7199., 7200, 7201, 864000, 864001., -120, -121., -7201, -864001]),
    G.logu(1e-2, 1e12), G.logu(1e-2, 1e12).map(lambda x: -x))

@SUITE.test(st.fixed_dictionaries({"t": st.one_of(any_time, G.times()), "np": st.booleans()}), 500, 20000)
def times(c):
    """Seconds of any magnitude and sign, numpy numbers and datetimes in the representation of a state. Non-trivial unless zero."""
    t = B.make_time(c["t"]) if isinstance(c["t"], dict) else c["t"]
    if c["np"] and isinstance(t, (int, float)):
        t = np.int64(t) if isinstance(t, int) else np.float64(t)
    trivial(not isinstance(t, dt.datetime) and t == 0)
    check_time_text(F.format_time(t), t, "format_time")
    x = bt.State(grid_of(4), t, pv=np.zeros((5, 8)))
    check_time_text(repr(x), t, "state")
    require("State" in repr(x), "name of state")
    aware = dt.datetime(2000, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=-3))) + dt.timedelta(seconds=int(abs(hash(c["np"]))))
    check_time_text(F.format_time(aware), aware, "aware datetime")

_grids = {}
def grid_of(n):
    if n not in _grids:
        _grids[n] = bt.Grid(resolution=180. / n)
    return _grids[n]

def numbers_after(text, name):
    m = re.search(re.escape(name) + r"\s*=\s*([^\n]*)", text)
    require(m is not None, lambda: f"no {name} in {text!r}")
    return [float(x.replace("−", "-")) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", m.group(1))]

def check_grid_text(text, g, grid):
    n = g["n"]
    require("Grid" in text, "name of grid")
    for name, want in (("(nlat, nlon)", [n + 1, 2 * n]), ("resolution", [180. / n]), ("rsphere", [B.rad(g)]), ("omega", [B.om(g)]), ("ntrunc", [B.nt(g)])):
        got = numbers_after(text, name)
        require(len(got) >= len(want) and np.allclose(got[:len(want)], want, rtol=1e-4, atol=0.), lambda: f"{name} is {got} instead of {want}")
    require(re.search(r"legfunc\s*=\s*" + g.get("lf", "stored"), text), "legfunc")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 40, 90), "sel": R.selections()}), 500, 10000)
def grids_and_regions(c):
    """Grids and regions incl. empty and wrapped ones: shape, planet and extent. Always non-trivial."""
    g = c["g"]
    n = g["n"]
    grid = B.make_grid(g)
    check_grid_text(repr(grid), g, grid)
    key, ilon, ilat = R.make(grid, n, c["sel"])
    text = repr(grid.region[key])
    lat, lon = B.lats(n)[ilat], B.lons(n)[ilon]
    label("empty" if lat.size * lon.size == 0 else "filled")
    m = re.search(r"([-+.0-9a-z]+) to +([-+.0-9a-z]+) °N \(nlat = (\d+)\)", text)
    k = re.search(r"([-+.0-9a-z]+) to +([-+.0-9a-z]+) °E \(nlon = (\d+)\)", text)
    require(m is not None and k is not None, lambda: f"no extent in {text!r}")
    require(int(m.group(3)) == lat.size and int(k.group(3)) == lon.size, lambda: f"shape in {text!r} instead of {(lat.size, lon.size)}")
    if lat.size:
        got = [float(x) for x in m.groups()[:2]]
        require(np.allclose(got, [lat.min(), lat.max()], atol=0.006), lambda: f"latitudes {got} instead of {[lat.min(), lat.max()]}")
    if lon.size:
        got = [float(x) for x in k.groups()[:2]]
        require(np.allclose(got, [lon[0], lon[-1]], atol=0.006), lambda: f"longitudes {got} instead of {[lon[0], lon[-1]]}")
    check_grid_text(text[text.index("of <"):], g, grid)
    # The little map: rows of 20°, columns of 10°
    rows = [line.strip()[:36] for line in text.splitlines() if "·" in line or "XX" in line or re.match(r"\s*X", line)]
    require(len(rows) == 9, lambda: f"map of {len(rows)} rows")
    # Boxes away from the rounding of their bounds
    want = np.zeros((9, 36), dtype=int)
    for y in lat:
        for j in {int(np.floor((90. - y + e) / 20.)) for e in (-1e-6, 1e-6)}:
            for x in lon:
                for i in {int(np.floor((x + e) / 10.)) for e in (-1e-6, 1e-6)}:
                    if 0 <= j < 9 and 0 <= i < 36:
                        want[j,i] += 1
    got = np.array([[ch == "X" for ch in row] for row in rows])
    tags = [re.findall(r"90°N|EQ|90°S", line) for line in text.splitlines() if "·" in line or re.match(r"\s*X", line)]
    require([t for t in tags if t] == [["90°N"], ["EQ"], ["90°S"]] and tags[0] and tags[4] and tags[8], lambda: "latitude labels of map:\n" + text)
    lines = [line for line in text.splitlines() if "0°E" in line and "180°E" in line and "to" not in line]
    require(len(lines) == 1 and lines[0].index("0°E") < lines[0].index("180°E"), lambda: "longitude labels of map:\n" + text)
    require(got.shape == (9, 36), "size of map")
    require(not np.any(got & (want == 0)), lambda: "map shows points outside of the region:\n" + text)
    sure = np.zeros((9, 36), dtype=bool)
    for y in lat:
        for x in lon:
            j, i = (90. - y) / 20., x / 10.
            if abs(j - round(j)) > 1e-6 and abs(i - round(i)) > 1e-6:
                sure[int(j),int(i)] = True
    require(not np.any(sure & ~got), lambda: "map misses points of the region:\n" + text)

exps = str.maketrans("⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻", "0123456789+-")

@st.composite
def rhs_terms(draw, depth=3):
    kind = draw(st.sampled_from(["none", "switch", "relax", "mountain", "sine", "orography", "custom", "sum", "product"] if depth else ["switch", "relax", "mountain", "custom"]))
    if kind in ("sum", "product"):
        return [kind, draw(rhs_terms(depth - 1)), draw(rhs_terms(depth - 1))]
    return [kind]

def build_rhs(t):
    class Custom(bt.rhs.RHS):
        def __repr__(self):
            return "<my term>"
        def __call__(self, state):
            return 0.
    kind = t[0]
    if kind in ("sum", "product"):
        a, b = (build_rhs(x) for x in t[1:])
        a, b = (Custom() if x is None else x for x in (a, b))
        return a + b if kind == "sum" else a * b
    return {"none": lambda: None, "switch": lambda: bt.rhs.TimedOffSwitch(3.), "relax": lambda: bt.rhs.LinearRelaxation(1e-5, np.zeros((5, 8))), "mountain": lambda: bt.rhs.GaussianMountain(), "sine": lambda: bt.rhs.ZonalSineMountains(),
            "orography": lambda: bt.rhs.Orography(np.array([0., 360.]), np.array([90., -90.]), np.zeros((2, 2))), "custom": Custom}[kind]()

def count(t):
    return sum(map(count, t[1:])) if len(t) > 1 else int(t[0] in ("none", "custom"))

@SUITE.test(st.fixed_dictionaries({"rhs": rhs_terms(), "order": st.integers(1, 12), "coeff": G.weighted((1, st.just(0.)), (3, G.logu(1e-3, 1e40)), (1, st.integers(1, 10**9))), "n": st.integers(0, 200), "change": st.booleans()}), 300, 6000)
def models_and_lists(c):
    """Models of all diffusion settings and nested forcing terms, lists of any length. Non-trivial with forcing or diffusion."""
    rhs = build_rhs(c["rhs"])
    trivial(rhs is None and c["coeff"] == 0)
    model = bt.BarotropicModel(rhs=rhs) if c["change"] else bt.BarotropicModel(rhs=rhs, diffusion_order=c["order"], diffusion_coeff=c["coeff"])
    if c["change"]:
        # Settings are attributes and the representation is up to date
        model.diffusion_order = c["order"]
        model.diffusion_coeff = c["coeff"]
    text = repr(model)
    require("Model" in text, "name of model")
    want = str(2 * c["order"])
    got = re.search(r"∇([⁰¹²³⁴⁵⁶⁷⁸⁹]+)q", text)
    require(got and got.group(1).translate(exps) == want, lambda: f"order in {text!r}")
    got = re.search(r"κ\s*=\s*([-+.0-9e]+) m([⁰¹²³⁴⁵⁶⁷⁸⁹]+)s", text)
    require(got and got.group(2).translate(exps) == want, lambda: f"unit in {text!r}")
    require(np.isclose(float(got.group(1)), c["coeff"], rtol=1e-4, atol=0.), lambda: f"coefficient in {text!r}")
    require(repr(rhs) in text, lambda: f"forcing in {text!r}")
    if c["rhs"][0] != "none":
        require(repr(rhs).count("<my term>") == count(c["rhs"]), lambda: f"terms in {rhs!r}")
        require(repr(rhs).count(" + ") + repr(rhs).count(" * ") >= (1 if len(c["rhs"]) > 1 else 0), lambda: f"operators in {rhs!r}")
        if len(c["rhs"]) > 1:
            sign = {"sum": "+", "product": "*"}
            def flat(t):
                return f"{flat(t[1])}{flat(t[2])}{sign[t[0]]}" if len(t) > 1 else ""
            # Nested in parentheses
            require(sorted(re.findall(r" ([+*]) ", repr(rhs))) == sorted(flat(c["rhs"])), lambda: f"operators in {rhs!r}")
            depth = 0
            for ch in repr(rhs):
                depth += {"(": 1, ")": -1}.get(ch, 0)
                require(depth >= 0, lambda: f"parentheses in {rhs!r}")
            require(depth == 0, lambda: f"parentheses in {rhs!r}")
    x = bt.State(grid_of(4), 0., pv=np.zeros((5, 8)))
    for k in (0, 1, c["n"]):
        text = repr(bt.StateList([x] * k))
        require("StateList" in text and re.findall(r"\d+", text) == [str(k)], lambda: f"{text!r} for {k} states")


# Plots

@contextlib.contextmanager
def drawing():
    """Collects the contour plots with axes, data and levels"""
    calls = []
    saved = {}
    def wrap(name):
        orig = saved[name] = getattr(matplotlib.axes.Axes, name)
        def wrapped(self, *args, **kwargs):
            out = orig(self, *args, **kwargs)
            data = list(args[:3]) if len(args) >= 3 else [None, None, args[0]]
            calls.append((name, self, data, out))
            return out
        setattr(matplotlib.axes.Axes, name, wrapped)
    for name in ("contour", "contourf", "pcolormesh"):
        wrap(name)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield calls
    finally:
        for name, orig in saved.items():
            setattr(matplotlib.axes.Axes, name, orig)
        plt.close("all")

class Figure:
    def __init__(self, fig, calls, state, npanels, n):
        self.fig, self.calls, self.state, self.n = fig, calls, state, n
        require(isinstance(fig, matplotlib.figure.Figure), lambda: f"{type(fig).__name__} instead of a figure")
        self.panels = fig.axes[:npanels]
        require(len(self.panels) == npanels, "number of panels")
        fig.canvas.draw()

    def line(self, ax, profile, scale, what, named=None):
        """A line of this profile against latitude"""
        lat = B.lats(self.n)
        found = None
        for line in ax.lines:
            x, y = (np.asarray(a, dtype=float) for a in line.get_data())
            if named is not None and line.get_label() != named:
                continue
            if x.shape == lat.shape and np.allclose(y, lat, atol=1e-9):
                ok = np.isfinite(profile)
                if np.allclose(x[ok], profile[ok], rtol=1e-9, atol=1e-9 * scale) and np.array_equal(x[~ok], profile[~ok], equal_nan=True):
                    found = line
        require(found is not None, lambda: f"{what} is not shown as a line against latitude")

    def origin(self, center):
        """Possible longitudes at x = 0"""
        d = 180. / self.n
        near = [k * d for k in range(2 * self.n) if mod(k * d - center) <= d / 2 + 1e-6]
        return [x - 180. for x in near]

    def shown(self, ax, field, kinds, center, what, levels=None, tol=1e-9):
        """Contours of this field with the columns where the axis says they are"""
        n = self.n
        seen = False
        for kind, at, (x, y, z), out in self.calls:
            if at is not ax or kind not in kinds or np.shape(z) != field.shape:
                continue
            x = np.asarray(x, dtype=float)
            y = np.asarray(y, dtype=float)
            x = x if x.ndim == 1 else x[0]
            y = y if y.ndim == 1 else y[:,0]
            for origin in self.origin(center):
                i = np.rint((x + origin) * n / 180.).astype(int) % (2 * n)
                j = np.rint((90. - y) * n / 180.).astype(int)
                scale = max(np.max(np.abs(field)), 1e-300)
                if np.allclose(np.asarray(z, dtype=float), field[j][:,i], rtol=0., atol=tol * scale):
                    seen = True
                    lv = np.asarray(getattr(out, "levels", []), dtype=float)
                    if levels is not None:
                        require(abs(lv[0] - levels[0]) <= 1e-6 * max(map(abs, levels)) and abs(lv[-1] - levels[1]) <= 1e-6 * max(map(abs, levels)), lambda: f"levels of {what}: {lv[0]} to {lv[-1]} instead of {levels}")
        require(seen, lambda: f"{what} is not shown at the right place")

    def vectors(self, ax, u, v, center):
        n = self.n
        q = [a for a in ax.collections if isinstance(a, Quiver)]
        require(len(q) == 1, lambda: f"{len(q)} sets of wind vectors")
        q = q[0]
        x, y, U, V = (np.asarray(a, dtype=float).ravel() for a in (q.X, q.Y, q.U, q.V))
        require(x.size > 0, "no wind vectors")
        ok = False
        for origin in self.origin(center):
            i = np.rint((x + origin) * n / 180.).astype(int) % (2 * n)
            j = np.rint((90. - y) * n / 180.).astype(int)
            scale = np.max(np.hypot(u, v))
            ok = ok or (np.allclose(U, u[j,i], rtol=0., atol=1e-9 * scale) and np.allclose(V, v[j,i], rtol=0., atol=1e-9 * scale))
        require(ok, "wind vectors are not those of the places they are drawn at")

    def map_axis(self, ax, center):
        last = None
        for origin in self.origin(center):
            try:
                check_labels(ax, origin, "longitudes of map")
                return
            except Violation as e:
                last = e
        raise last

    def latitudes(self, ax, hem):
        want = {"N": (0., 90.), "S": (-90., 0.)}.get(hem, (-90., 90.))
        require(np.allclose(ax.get_ylim(), want), lambda: f"latitudes {ax.get_ylim()} for hemisphere {hem}")

    def time(self, ax):
        check_time_text(ax.get_title(loc="right"), self.state.time, "map")

@st.composite
def wavy(draw, nmin, nmax, zonal=False):
    """States with at least one wave"""
    g = draw(G.grids(nmin, nmax, None, om=G.weighted((4, st.just(G.EARTH_OM)), (1, G.logu(1e-5, 3e-4)), (1, G.logu(1e-5, 3e-4).map(lambda x: -x))), rad=G.weighted((3, st.just(G.EARTH_R)), (1, G.logu(2e6, 2e7)))))
    if g.get("nt") is not None:
        g["nt"] = max(g["nt"], 4)
    f = draw(G.flows(G.res_of(g), 4))
    d = draw(st.integers(2, G.res_of(g)))
    if not zonal:
        f["vo"].append({"t": "sh", "n": d, "m": draw(st.integers(1, d)), "a": draw(st.sampled_from([1., 0.3, -0.7])), "p": draw(st.integers(0, 23)) * 15})
    return {"g": g, **f, "U": draw(st.sampled_from([10., 30., 5.])), "time": draw(G.times())}

options = {"hem": st.sampled_from(["both", "N", "S"]), "center": G.weighted((1, st.none()), (3, centers)), "size": st.booleans(), "via": st.sampled_from(["function", "function", "state"])}

def call(c, name, state, kw, npanels):
    """The figure, made by the function or the shortcut of the state"""
    kw = dict(kw)
    if c["hem"] != "both":
        kw["hemisphere"] = c["hem"]
    if c.get("center") is not None:
        kw["center_lon"] = c["center"]
    if c["size"]:
        kw["figsize"] = (9, 6)
    n = c["s"]["g"]["n"]
    label(c["hem"], c["via"], "centred" if c.get("center") is not None else "")
    if c["via"] == "function":
        return getattr(P, name)(state, **kw), kw
    plt.close("all")
    fig = getattr(state.plot, name)(**kw)
    if fig is None:
        require(len(plt.get_fignums()) == 1, "shortcut makes one figure")
        fig = plt.gcf()
    return fig, kw

def mean(f):
    return np.mean(f, axis=1)

@SUITE.test(st.fixed_dictionaries({"s": wavy(6, 24, zonal=True), "still": st.sampled_from([False] * 9 + [True]), "pv_max": st.one_of(st.none(), st.none(), G.logu(1e-5, 1e-3)), "v_max": st.one_of(st.none(), st.none(), G.logu(0.1, 100.)), **options}), 110, 2000, shards=8)
def summary(c):
    """Zonal means, PV, wind vectors, meridional wind and streamfunction, centred anywhere. Non-trivial unless motionless."""
    s = c["s"]
    trivial(c["still"])
    if c["still"]:
        x = bt.init.motionless(B.make_grid(s["g"]), B.make_time(s["time"]))
    else:
        x = B.make_state(s)
    n = s["g"]["n"]
    center = 180. if c["center"] is None else c["center"]
    kw = {k: c[k] for k in ("pv_max", "v_max") if c[k] is not None}
    with drawing() as calls:
        fig, kw = call(c, "summary", x, kw, 4)
        f = Figure(fig, calls, x, 4, n)
        a, b, d, e = f.panels
        pv, vo = 1e4 * np.array(x.pv), 1e4 * np.array(x.vorticity)
        scale = max(np.max(np.abs(pv)), np.max(np.abs(vo)))
        f.line(a, 1e4 * B.fcor2(s["g"])[:,0], scale, "planetary vorticity", "pla.")
        f.line(a, mean(vo), scale, "mean relative vorticity", "rel.")
        f.line(a, mean(pv), scale, "mean PV", "pot.")
        f.line(d, mean(x.u), max(np.max(np.abs(x.u)), 1e-300), "mean zonal wind")
        pv_max = np.max(np.abs(pv)) if c["pv_max"] is None else 1e4 * c["pv_max"]
        f.shown(b, pv, ["contourf", "pcolormesh"], center, "PV", (-pv_max, pv_max))
        v = np.array(x.v)
        v_max = np.max(np.abs(v)) if c["v_max"] is None else c["v_max"]
        f.shown(e, v, ["contourf", "pcolormesh"], center, "meridional wind", (-v_max, v_max) if v_max > 0 else None)
        if np.ptp(x.streamfunction) > 0:
            f.shown(e, np.array(x.streamfunction), ["contour"], center, "streamfunction")
        # (norms of winds close to zero may underflow)
        if max(np.max(np.abs(x.u)), np.max(np.abs(v))) > 1e-9:
            f.vectors(b, np.array(x.u), v, center)
        for ax in (b, e):
            f.map_axis(ax, center)
            f.time(ax)
        for ax in f.panels:
            f.latitudes(ax, c["hem"])

@SUITE.test(st.fixed_dictionaries({"s": wavy(6, 24), **options}), 110, 2000, shards=8)
def wave_activity(c):
    """Mean and zonalized PV, deviation of PV from the latter, FAWA and FALWA. Always non-trivial."""
    s = c["s"]
    n = s["g"]["n"]
    x = B.make_state(s)
    center = 180. if c["center"] is None else c["center"]
    with drawing() as calls:
        fig, kw = call(c, "wave_activity", x, {}, 4)
        f = Figure(fig, calls, x, 4, n)
        a, b, d, e = f.panels
        pv, zl = 1e4 * np.array(x.pv), 1e4 * np.array(x.pv_zonalized)
        scale = np.max(np.abs(pv))
        f.line(a, zl, scale, "zonalized PV", "equiv. lat.")
        f.line(a, mean(pv), scale, "mean PV", "mean")
        f.line(d, np.array(x.fawa), max(np.max(np.abs(x.fawa)), 1e-300), "FAWA")
        f.shown(b, pv - zl[:,None], ["contourf", "pcolormesh"], center, "deviation from zonalized PV")
        f.shown(b, pv, ["contour"], center, "PV")
        f.shown(e, np.array(x.falwa), ["contourf", "pcolormesh"], center, "FALWA")
        f.shown(e, pv, ["contour"], center, "PV with FALWA")
        for ax in (b, e):
            f.map_axis(ax, center)
            f.time(ax)
        for ax in f.panels:
            f.latitudes(ax, c["hem"])

@SUITE.test(st.fixed_dictionaries({"s": wavy(18, 24), "v_max": st.one_of(st.none(), G.logu(0.1, 100.)), "rwp_max": st.one_of(st.none(), G.logu(0.1, 100.)), **options}), 48, 1000, shards=8)
def rwp_diagnostics(c):
    """Meridional wind, dominant wavenumber, envelope, streamfunction, filtered FALWA and PV. Always non-trivial."""
    s = c["s"]
    n = s["g"]["n"]
    x = B.make_state(s)
    center = 180. if c["center"] is None else c["center"]
    kw = {k: c[k] for k in ("v_max", "rwp_max") if c[k] is not None}
    with drawing() as calls:
        fig, kw = call(c, "rwp_diagnostics", x, kw, 3)
        f = Figure(fig, calls, x, 3, n)
        a, b, d = f.panels
        v = np.array(x.v)
        v_max = np.max(np.abs(v)) if c["v_max"] is None else c["v_max"]
        f.shown(a, v, ["contourf", "pcolormesh"], center, "meridional wind", (-v_max, v_max))
        dwn = bt.diagnostics.dominant_wavenumber_wavelet(v, x.grid)
        if np.ptp(dwn) > 1e-6 * np.max(dwn):
            f.shown(a, dwn, ["contour"], center, "dominant wavenumber")
        env = np.array(x.v_envelope_hilbert)
        filtered = bt.diagnostics.filter_by_wavenumber(np.array(x.falwa), 2 * dwn)
        top = max(np.max(env), np.max(filtered)) if c["rwp_max"] is None else c["rwp_max"]
        f.shown(b, env, ["contourf", "pcolormesh"], center, "envelope", (0., top))
        f.shown(b, np.array(x.streamfunction), ["contour"], center, "streamfunction")
        f.shown(d, filtered, ["contourf", "pcolormesh"], center, "filtered FALWA", (0., top))
        f.shown(d, np.array(x.pv), ["contour"], center, "PV")
        for ax in f.panels:
            f.map_axis(ax, center)
            f.time(ax)
            f.latitudes(ax, c["hem"])

@SUITE.test(st.fixed_dictionaries({"s": wavy(6, 24, zonal=True), "jet": st.sampled_from([True, True, False]), "k": G.weighted((1, st.none()), (3, st.integers(0, 12)), (2, G.uni(0.5, 12.)), (4, st.lists(st.integers(1, 12), min_size=1, max_size=5, unique=True))), "bounds": st.one_of(st.none(), st.tuples(st.integers(-20, -1), st.integers(5, 40)).map(list)),
        "legend": st.sampled_from([None, None, "upper right", "best"]), "hem": options["hem"], "size": st.just(False), "via": options["via"], "as": st.sampled_from(["tuple", "list", "array", "generator"])}), 130, 2500, shards=8)
def waveguides(c):
    """Mean zonal wind, stationary wavenumber and the waveguides of any number of wavenumbers. Non-trivial if waveguides are shown."""
    s = dict(c["s"])
    n = s["g"]["n"]
    if c["jet"]:
        # Westerly solid-body rotation has waveguides
        s["vo"] = s["vo"] + [{"t": "sh", "n": 1, "m": 0, "a": 4., "p": 0}]
    x = B.make_state(s)
    kw = {}
    ks = [] if c["k"] is None else c["k"] if isinstance(c["k"], list) else [c["k"]]
    if c["k"] is not None:
        k = c["k"]
        if isinstance(k, list):
            k = {"tuple": tuple, "list": list, "array": np.array, "generator": iter}[c["as"]](k)
        kw["k_waveguides"] = k
    if c["bounds"]:
        kw["klim_bounds"] = tuple(c["bounds"])
    if c["legend"]:
        kw["legend_loc"] = c["legend"]
    shown = 0
    with drawing() as calls:
        fig, kw = call(c, "waveguides", x, kw, 2)
        f = Figure(fig, calls, x, 2, n)
        a, b = f.panels
        f.line(a, mean(x.u), max(np.max(np.abs(x.u)), 1e-300), "mean zonal wind")
        K = np.asarray(x.stationary_wavenumber)
        curve = np.real(K) - np.imag(K)
        f.line(b, curve, np.max(np.abs(curve[np.isfinite(curve)]), initial=1.), "stationary wavenumber")
        for k in ks:
            lines = [line for line in b.lines if line.get_label() == f"k={k}"]
            require(len(lines) == 1, lambda: f"{len(lines)} lines for waveguides of k = {k}")
            X, Y = (np.asarray(q, dtype=float) for q in lines[0].get_data())
            require(np.all(X == k), "waveguides not drawn at their wavenumber")
            # Connected pieces
            pieces = []
            for y0, y1 in zip(Y, Y[1:]):
                if np.isfinite(y0) and np.isfinite(y1):
                    pieces.append(sorted([y0, y1]))
            want = [sorted(map(float, w)) for w in bt.diagnostics.extract_ks_waveguides(K, k, grid=x.grid)]
            shown += len(want)
            require(len(pieces) == len(want) and np.allclose(sorted(pieces), sorted(want), atol=1e-9) if want else not pieces, lambda: f"waveguides {pieces} of k = {k} instead of {want}")
        lo, hi = c["bounds"] or (-5, 15)
        x0, x1 = b.get_xlim()
        require(lo - 1e-9 <= x0 and x1 <= hi + 1e-9, lambda: f"wavenumbers {(x0, x1)} shown instead of within {(lo, hi)}")
        require((b.get_legend() is not None) == (c["legend"] is not None), "legend")
        for ax in f.panels:
            f.latitudes(ax, c["hem"])
    trivial(shown == 0)
    label("waveguides" if shown else "none")
