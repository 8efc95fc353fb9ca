"""C10 Window filters are normalized, centred convolutions"""
import numpy as np
import scipy.signal.windows as sw
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C10")

def _hann(m):
    return np.ones(1) if m == 1 else 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(m) / (m - 1))

def _triang(m):
    k = np.arange(1, m + 1)
    return np.minimum(k, m + 1 - k) / ((m + 1) / 2.)

WINDOWS = {
    "boxcar": ("boxcar", np.ones),
    "hann": ("hann", _hann),
    "triang": ("triang", _triang),
    "hamming": ("hamming", lambda m: np.ones(1) if m == 1 else 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(m) / (m - 1))),
    "blackman": ("blackman", lambda m: sw.blackman(m, sym=True)),
    "cosine": ("cosine", lambda m: np.sin(np.pi * (np.arange(m) + 0.5) / m)),
    "gauss": (("gaussian", 2.), lambda m: np.exp(-0.5 * ((np.arange(m) - (m - 1) / 2.) / 2.)**2)),
    "kaiser": (("kaiser", 4.), lambda m: sw.kaiser(m, 4., sym=True)),
    "parzen": ("parzen", lambda m: sw.parzen(m, sym=True)),
}

# Width in units of the spacing, away from ties in rounding
widths = st.tuples(st.integers(0, 30), st.integers(-4, 4)).map(lambda x: max(0., x[0] + x[1] / 10.))

def points(width):
    m = int(np.floor(width + 0.5))
    return m if m % 2 else m + 1

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 40, 90, trunc=False, legfunc=False), "w": st.sampled_from(sorted(WINDOWS)), "width": widths}), 600, fine=(16, FINER))
def windows(c):
    """Window names and widths in degrees: odd number of points, symmetric, normalized, closed form."""
    grid = B.make_grid(c["g"])
    name, ref = WINDOWS[c["w"]]
    m = points(c["width"])
    trivial(m == 1)
    label(c["w"], "even" if int(np.floor(c["width"] + 0.5)) % 2 == 0 else "odd")
    got = arr(grid.get_filter_window(name, c["width"] * 180. / c["g"]["n"]), "window", (m,))
    require(m % 2 == 1, "odd")
    want = ref(m)
    close(got, want / np.sum(want), 1e-10, "window")
    close(np.sum(got), 1., 1e-12, "sum of window")
    close(got, got[::-1], 1e-12, "symmetry of window")

@st.composite
def cases(draw):
    c = {"g": draw(G.grids(2, 20, 50, trunc=False, legfunc=False)), "f": draw(G.any_fields()), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8", "bool"])),
         "layout": draw(G.layouts), "dir": draw(st.sampled_from(["zonal", "meridional"])), "dim": draw(st.sampled_from(["2d", "2d", "1d"])),
         "part": draw(st.integers(0, 6)), "kw": draw(st.booleans())}
    if draw(st.booleans()):
        c["win"], c["width"] = draw(st.sampled_from(sorted(WINDOWS))), draw(widths)
    else:
        half = draw(st.integers(0, 9))
        c["win"] = draw(st.lists(G.sym(1., 20), min_size=2 * half + 1, max_size=2 * half + 1))
    # Windows much longer than the axis make scipy.ndimage read out of bounds
    longest = 4 * c["g"]["n"] + 1
    if "width" in c:
        c["width"] = min(c["width"], longest)
    else:
        c["win"] = c["win"][:longest]
    return c

@SUITE.test(cases(), 1200, 30000, fine=(20, FINER))
def convolution(c):
    """Arbitrary 1-D/2-D fields (floats, integers, booleans), named windows and arbitrary odd (asymmetric) arrays, against a
    direct loop over the window with periodic / mirrored indices. Non-trivial for more than one point."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    f = B.field(n, c["f"])
    zonal = c["dir"] == "zonal"
    if c["dim"] == "1d":
        f = f[c["part"] % (n + 1)] if zonal else f[:, c["part"] % (2 * n)]
    elif c["part"] in (1, 2):
        # Only the filtered dimension has to be complete
        f = f[:max(1, (n + 1) // c["part"] - 1)] if zonal else f[:, :max(1, 2 * n // c["part"] - 1)]
    if c["dtype"] in ("i8",):
        f = np.round(f * 30)
    elif c["dtype"] == "bool":
        f = f > 0
    f = B.shape_array(f, c["dtype"], c["layout"])
    filt = grid.filter_zonal if zonal else grid.filter_meridional
    if isinstance(c["win"], str):
        name, ref = WINDOWS[c["win"]]
        m = points(c["width"])
        w = ref(m) / np.sum(ref(m))
        args = (name, c["width"] * 180. / n)
        guard = Guard(f)
        got = filt(f, window=args[0], width=args[1]) if c["kw"] else filt(f, *args)
    else:
        w = np.asarray(c["win"], dtype=float)
        guard = Guard(f, w)
        got = filt(f, window=w) if c["kw"] else filt(f, w)
    guard.check("filter")
    trivial(len(w) == 1 or not np.any(f))
    label(c["dir"], c["dim"], c["dtype"], "longer than the axis" if len(w) > f.shape[-1 if zonal else 0] else "")
    axis = -1 if zonal else 0
    want = B.convolve(f, w, axis, "wrap" if zonal else "mirror")
    scale = max(np.max(np.abs(np.asarray(f, dtype=float))), 1e-200) * max(np.sum(np.abs(w)), 1e-200)
    t = (1e-6 if c["dtype"] == "f4" else 1e-11) * scale
    close(got, want, t, f"filter_{c['dir']}")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 20, 50, trunc=False, legfunc=False), "f": G.any_fields(), "half": st.integers(1, 6), "seed": G.seeds,
    "dtype": st.sampled_from(["f8", "f4", "i8"]), "wdtype": st.sampled_from(["f8", "f8", "f4", "i8"]), "layout": G.layouts, "zonal": st.booleans(), "dim": st.sampled_from(["2d", "1d"])}), 200, fine=(6, FINER))
def even_arrays(c):
    """Arrays with an even number of points: convolution with one of their two central points in the centre. Arrays and fields of any
    type of numbers."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    rng = np.random.default_rng(c["seed"])
    w = rng.normal(size=min(2 * c["half"], 2 * n))
    f = B.field(n, c["f"])
    s = np.max(np.abs(f)) + 1e-300
    if c["dtype"] == "i8":
        f = np.round(30 * f / s)
    if c["dim"] == "1d":
        f = f[n // 2] if c["zonal"] else f[:,0]
    if c["wdtype"] == "i8":
        w = np.round(3 * w)
    trivial(np.ptp(f) < 1e-3 * s or np.all(w == w[::-1]))
    f = B.shape_array(f, c["dtype"], c["layout"])
    w = w.astype(c["wdtype"])
    label(c["dtype"], c["wdtype"], c["dim"])
    guard = Guard(f, w)
    got = arr((grid.filter_zonal if c["zonal"] else grid.filter_meridional)(f, w), "filtered", f.shape)
    guard.check("filter")
    axis, mode = (-1, "wrap") if c["zonal"] else (0, "mirror")
    x, y = np.asarray(f, dtype=float), np.asarray(w, dtype=float)
    t = (1e-6 if "f4" in (c["dtype"], c["wdtype"]) else 1e-11) * max(np.max(np.abs(x)), 1e-200) * max(np.sum(np.abs(y)), 1e-200)
    ok = [np.max(np.abs(np.asarray(got, dtype=float) - B.convolve(x, pad, axis, mode))) <= t for pad in (np.append(y, 0.), np.append(0., y))]
    require(any(ok), "not a convolution with the array")

@SUITE.test(cases(), 500, fine=(12, FINER))
def laws(c):
    """Normalized non-negative windows keep constants, ranges and zonal means; filtering commutes with rolling and is linear."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    f = B.field(n, c["f"])
    if isinstance(c["win"], str):
        m = points(c["width"])
        args = (WINDOWS[c["win"]][0], c["width"] * 180. / n)
        trivial(m == 1)
    else:
        w = np.abs(c["win"]) + 0.1
        args = (w / np.sum(w),)
    h = np.sin(grid.phi2) + np.cos(3 * grid.lam2)
    s = max(np.max(np.abs(f)), 1e-200) + 2
    for filt in (grid.filter_zonal, grid.filter_meridional):
        res = arr(filt(f, *args), "filter", grid.shape)
        close(filt(np.full(grid.shape, -3.5), *args), np.full(grid.shape, -3.5), 1e-11, "constant")
        require(np.min(res) >= np.min(f) - 1e-10 * s and np.max(res) <= np.max(f) + 1e-10 * s, "out of range")
        k = c["part"] - 3
        close(filt(np.roll(f, k, axis=1), *args), np.roll(res, k, axis=1), 1e-11 * s, "roll")
        close(filt(2. * f - 0.5 * h, *args), 2. * res - 0.5 * arr(filt(h, *args)), 1e-10 * s, "linearity")
    close(np.mean(arr(grid.filter_zonal(f, *args)), axis=1), np.mean(f, axis=1), 1e-11 * s, "zonal mean")

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(3, 16), "dir": st.sampled_from(["zonal", "meridional"]), "i": st.integers(0, 5)}), 120)
def refused_sizes(c):
    """Fields whose filtered dimension has the wrong size, or that are not 1-D or 2-D."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    zonal = c["dir"] == "zonal"
    filt = grid.filter_zonal if zonal else grid.filter_meridional
    size, other = (2 * n, n + 1) if zonal else (n + 1, 2 * n)
    shapes = [(size + 1,), (size - 1,), (other,), (other, size + 1), (other, size - 1), (2, n + 1, 2 * n)]
    shape = shapes[c["i"]]
    if c["i"] in (3, 4) and not zonal:
        shape = shape[::-1]
    refused(f"shape {shape}", filt, np.ones(shape), "hann", 3 * 180. / n)
