"""C29 Initial-condition presets realize their documented wind or PV profiles"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C29")
ini = bt.init

def check_preset(x, grid, time, what):
    require(isinstance(x, bt.State), lambda: f"{what}: {type(x).__name__}")
    require(x.grid is grid, f"{what}: other grid")
    require(x.time == time and type(x.time) is type(time), lambda: f"{what}: valid time {x.time!r} instead of {time!r}")

def check_wind(c, grid, x, u, what, smooth=None):
    """Wind of the state against the profile u (1-D): what remains of it with spherical harmonics up to the truncation (independent transforms). With
    smooth, the profile itself is compared with that tolerance."""
    g = c["g"]
    n, r = g["n"], B.rad(g)
    u2 = np.repeat(u[:,None], 2 * n, axis=1)
    scale = max(np.max(np.abs(u)), 1e-300)
    ref = B.Ref(g)
    vrt, div = ref.vrtdiv(u2, 0. * u2)
    ru, rv = ref.wind(vrt)
    # Planetary vorticity is contained in the PV and limits the precision
    t = B.tol(n) * (scale + abs(B.om(g)) * r)
    tvo = B.tol(n) * n * (scale / r + abs(B.om(g)))
    vo = ref.grid(vrt)
    close(x.u, ru, t, f"zonal wind ({what})")
    close(x.v, 0. * ru, t, f"meridional wind ({what})")
    close(x.vorticity, vo, tvo, f"vorticity ({what})")
    close(x.pv, vo + B.fcor2(g), tvo, f"pv ({what})")
    for name in ("u", "pv", "vorticity"):
        f = getattr(x, name)
        close(f, np.repeat(f[:,:1], 2 * n, axis=1), t if name == "u" else tvo, f"no zonal variation of {name} ({what})", kind="f")
    if smooth is not None:
        close(x.u, u2, t + smooth, f"zonal wind, profile itself ({what})")

common = {"g": G.grids(2, 24, 48), "time": G.times(), "given": st.sampled_from(["kw", "pos", "default"])}

def call(c, func, *args, **kwargs):
    """With a valid time as keyword, positional or the default one"""
    grid = B.make_grid(c["g"])
    time = B.make_time(c["time"])
    if c["given"] == "default":
        time = 0.
        x = func(grid, **kwargs)
    elif c["given"] == "pos":
        x = func(grid, time, *args, **kwargs)
    else:
        x = func(grid=grid, time=time, **kwargs)
    label(c["given"])
    check_preset(x, grid, time, func.__name__)
    return grid, x

@SUITE.test(st.fixed_dictionaries(common), 300, 6000, fine=(8, FINE))
def motionless(c):
    """A motionless state has planetary vorticity only. Non-trivial on rotating planets."""
    trivial(B.om(c["g"]) == 0)
    grid, x = call(c, ini.motionless)
    n = c["g"]["n"]
    scale = abs(B.om(c["g"]))
    t = B.tol(n) * n * scale
    close(x.pv, B.fcor2(c["g"]), B.tol(n) * scale, "pv")
    close(x.vorticity, 0. * grid.lon2, t, "vorticity")
    close(x.streamfunction, 0. * grid.lon2, t * B.rad(c["g"])**2, "streamfunction")
    for name in ("u", "v"):
        close(getattr(x, name), 0. * grid.lon2, t * B.rad(c["g"]), f"{name}")

amplitudes = G.weighted((1, st.none()), (1, st.just(0)), (3, st.integers(-40, 40)), (3, G.sym(80.)), (1, G.logu(1e-3, 1e3)))

@SUITE.test(st.fixed_dictionaries({**common, "A": amplitudes, "pos": st.booleans()}), 400, 8000, fine=(8, FINE))
def solid_body(c):
    """Cosine profile, exact at every resolution. Non-trivial unless at rest."""
    A = c["A"]
    args, kwargs = [], {}
    if A is not None:
        if c["pos"] and c["given"] == "pos":
            args = [A]
        else:
            kwargs = {"amplitude": A}
    grid, x = call(c, ini.solid_body_rotation, *args, **kwargs)
    A = 15. if A is None else A
    trivial(A == 0)
    label("default amplitude" if c["A"] is None else "")
    u = A * np.cos(np.radians(B.lats(c["g"]["n"])))
    # Degree 1 is resolved whenever n > 1
    check_wind(c, grid, x, u, "solid body", 0.)
    # Vorticity of solid-body rotation
    s = np.sin(np.radians(B.lats(c["g"]["n"])))[:,None] + 0. * grid.lon2
    n, r = c["g"]["n"], B.rad(c["g"])
    close(x.vorticity, 2. * A / r * s, B.tol(n) * n * (abs(A) / r + abs(B.om(c["g"]))), "vorticity of solid-body rotation")

@SUITE.test(st.fixed_dictionaries({**common, "A": amplitudes, "center": G.weighted((1, st.none()), (3, st.integers(-90, 90)), (1, G.sym(90.)), (1, st.sampled_from([0, 90, -90, 120.]))),
        "stdev": G.weighted((1, st.none()), (3, st.integers(2, 40)), (1, G.logu(0.5, 200.))), "pos": st.booleans()}), 600, 12000, fine=(16, FINE))
def gaussian(c):
    """Gaussian profile reduced by the straight line through its values at the poles; compared as represented by the grid and, when smooth, directly.
    Non-trivial unless at rest."""
    names = {"amplitude": c["A"], "center_lat": c["center"], "stdev_lat": c["stdev"]}
    args, kwargs = [], {k: v for k, v in names.items() if v is not None}
    if c["pos"] and c["given"] == "pos" and len(kwargs) == 3:
        args, kwargs = list(kwargs.values()), {}
    grid, x = call(c, ini.gaussian_jet, *args, **kwargs)
    A, mid, sd = [d if v is None else v for v, d in zip(names.values(), (20., 45., 5.))]
    trivial(A == 0)
    for k, v in names.items():
        label(f"default {k}" if v is None else "")
    g = c["g"]
    n, lat = g["n"], B.lats(g["n"])
    profile = lambda y: A * np.exp(-(y - mid)**2 / (2. * sd**2))
    north, south = profile(90.), profile(-90.)
    u = profile(lat) - (south + (north - south) * (lat + 90.) / 180.)
    # Jets which are much wider than the grid spacing and away from the poles are represented well
    smooth = None
    if n >= 36 and B.nt(g) == n and 10 <= sd <= 15 and abs(mid) <= 45:
        smooth = 0.0005 * abs(A)
        label("directly")
    check_wind(c, grid, x, u, "gaussian", smooth)

coeffs = G.weighted((1, st.none()), (1, st.just(0)), (2, st.integers(-50, 50)), (1, G.sym(400.)))

@SUITE.test(st.fixed_dictionaries({**common, "A": coeffs, "B": coeffs, "C": coeffs, "pos": st.booleans()}), 500, 10000, fine=(12, FINE))
def held(c):
    """Profile of Held (1985). Non-trivial unless at rest."""
    names = {k: c[k] for k in "ABC"}
    args, kwargs = [], {k: v for k, v in names.items() if v is not None}
    if c["pos"] and c["given"] == "pos" and len(kwargs) == 3:
        args, kwargs = list(kwargs.values()), {}
    grid, x = call(c, ini.held_1985, *args, **kwargs)
    a, b, d = [y if v is None else v for v, y in zip(names.values(), (25., 30., 300.))]
    trivial(a == b == d == 0)
    for k, v in names.items():
        label(f"default {k}" if v is None else "")
    g = c["g"]
    lat = np.radians(B.lats(g["n"]))
    u = a * np.cos(lat) - b * np.cos(lat)**3 + d * np.cos(lat)**6 * np.sin(lat)**2
    smooth = None
    if g["n"] >= 24 and B.nt(g) == g["n"]:
        smooth = 0.0005 * (abs(a) + abs(b) + 0.1 * abs(d))
        label("directly")
    check_wind(c, grid, x, u, "held", smooth)

@st.composite
def profiles(draw):
    g = draw(G.grids(2, 24, 48))
    kind = draw(st.sampled_from(["resolved", "resolved", "any"]))
    atoms = draw(G.flows(G.res_of(g))) if kind == "resolved" else draw(G.any_fields(3))
    if kind == "resolved":
        for a in atoms["vo"]:
            a["m"] = 0
            a["p"] = 0
    return {"g": g, "time": draw(G.times()), "given": draw(common["given"]), "kind": kind, "atoms": atoms, "U": draw(G.logu(0.1, 100.)), "of": draw(st.sampled_from(["u", "pv"])),
            "as": draw(st.sampled_from(["f8", "f8", "f4", "list", "tuple", "int", "strided", "reversed"]))}

def pass_as(kind, a):
    if kind == "strided":
        big = np.full(3 * a.size, np.nan)
        big[1::3] = a
        return big[1::3]
    if kind == "reversed":
        return np.array(a[::-1])[::-1]
    return {"f8": np.array, "f4": lambda x: x.astype("f4"), "list": lambda x: x.tolist(), "tuple": lambda x: tuple(x.tolist()), "int": lambda x: np.rint(x).astype(int)}[kind](a)

@SUITE.test(profiles(), 700, 15000, fine=(12, FINE))
def user_profile(c):
    """Resolved and arbitrary profiles of zonal wind and PV given as arrays of all kinds and sequences. Non-trivial unless constant."""
    g = c["g"]
    n = g["n"]
    if c["kind"] == "resolved":
        f = B.Flow(g, c["atoms"]["vo"], c["atoms"]["U"])
        y = (f.u if c["of"] == "u" else f.pv)[:,0]
    else:
        # A column of an arbitrary field
        y = B.field(n, c["atoms"])[:,0] * c["U"]
        if c["of"] == "pv":
            y = y / 100. * (abs(B.om(g)) + 1e-6)
        else:
            # Winds vanish at the poles
            y[[0,-1]] = 0.
    given = pass_as(c["as"], y)
    y = np.asarray(given, dtype=float)
    trivial(np.ptp(y) == 0)
    label(f"{c['of']} {c['kind']}", c["as"])
    guard = Guard(given) if isinstance(given, np.ndarray) else None
    if c["given"] == "pos" and c["of"] == "u":
        grid, x = call(c, ini.zonally_symmetric, given)
    else:
        grid, x = call(c, ini.zonally_symmetric, **{c["of"]: given})
    if guard:
        guard.check("zonally_symmetric")
    if c["of"] == "u":
        exact = c["kind"] == "resolved" and c["as"] != "int"
        check_wind(c, grid, x, y, "user", 0. if exact else None)
        return
    y2 = np.repeat(y[:,None], 2 * n, axis=1)
    scale = max(np.max(np.abs(y)), 1e-300)
    resolved = c["kind"] == "resolved" and c["as"] != "int"
    close(x.pv, B.Ref(g).rt(y2), B.tol(n) * scale, "pv (user), as represented")
    if resolved:
        close(x.pv, y2, B.tol(n) * scale, "pv (user)")
    close(x.vorticity, y2 - B.fcor2(g), B.tol(n) * (scale + abs(B.om(g))) * n if resolved else np.inf, "vorticity (user pv)")
    if resolved:
        close(x.u, f.u, B.tol(n) * n * (scale + abs(B.om(g))) * B.rad(g), "zonal wind (user pv)")
    close(x.v, 0. * y2, B.tol(n) * n * (scale + abs(B.om(g))) * B.rad(g), "meridional wind (user pv)")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 12), "of": st.sampled_from(["u", "pv"]), "bad": st.sampled_from(["both", "both", "neither", "short", "long", "nlon", "one", "empty", "scalar", "2d", "column", "row", "0d"]),
        "delta": st.integers(1, 4), "other": st.sampled_from(["good", "bad", "zero"])}), 300, 4000)
def contradictions(c):
    """Missing, contradicting and wrongly sized profiles. Always non-trivial."""
    grid = B.make_grid(c["g"])
    m = grid.nlat
    label(c["bad"])
    ok = np.cos(grid.phi)
    if c["bad"] == "both":
        other = {"good": ok, "bad": ok[:-1], "zero": 0. * ok}[c["other"]]
        refused("both profiles", ini.zonally_symmetric, grid, 0., **{c["of"]: ok, ("pv" if c["of"] == "u" else "u"): other})
        return
    if c["bad"] == "neither":
        refused("no profile", ini.zonally_symmetric, grid, 0.)
        return
    bad = {"short": lambda: np.ones(max(m - c["delta"], 2 if m > 2 else 1)), "long": lambda: np.ones(m + c["delta"]), "nlon": lambda: np.ones(grid.nlon), "one": lambda: np.ones(1), "empty": lambda: np.ones(0),
            "scalar": lambda: 1., "2d": lambda: np.ones(grid.shape), "column": lambda: np.ones((m, 1)), "row": lambda: np.ones((1, m)), "0d": lambda: np.array(1.)}[c["bad"]]()
    if np.shape(bad) == (m,):
        trivial()
        return
    refused(f"profile of shape {np.shape(bad)}", ini.zonally_symmetric, grid, 0., **{c["of"]: bad})
