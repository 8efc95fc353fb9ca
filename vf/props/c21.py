"""C21 Wave diagnostics identify zonal wavenumbers and packet envelopes"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
from .c10 import WINDOWS, points
import barotropic as bt

SUITE = Suite("C21", slow=True)
D = bt.diagnostics

def fourier(x):
    """Real Fourier coefficients by definition, k = 0 ... nlon // 2"""
    x = np.asarray(x, dtype=float)
    m = x.shape[1]
    k = np.arange(m // 2 + 1)
    # Exact reduction of the phase
    ph = 2 * np.pi * ((k[:,None] * np.arange(m)[None,:]) % m) / m
    return x @ np.exp(-1j * ph).T

def analytic(x, kmin, kmax):
    """Analytic signal of the field restricted to the wavenumber range"""
    c = fourier(x)
    m = np.shape(x)[1]
    k = np.arange(c.shape[1])
    w = np.where((k == 0) | (2 * k == m), 1., 2.) / m
    w = w * ((k >= kmin) & (k <= kmax))
    ph = 2 * np.pi * ((k[:,None] * np.arange(m)[None,:]) % m) / m
    return (c * w) @ np.exp(1j * ph)

def restrict(x, kmin, kmax):
    return np.real(analytic(x, kmin, kmax))

@st.composite
def wave_rows(draw, kmax):
    """Field made of waves with amplitudes differing by latitude"""
    return {"k": draw(st.lists(st.integers(0, kmax), min_size=1, max_size=5)), "seed": draw(G.seeds),
            "noise": draw(st.sampled_from([0., 0., 0.01, 0.3])), "amp": draw(G.logu(1e-6, 1e3)), "sparse": draw(st.booleans())}

def waves(d, nlat, nlon):
    r = np.random.RandomState(d["seed"])
    lam = 2 * np.pi * np.arange(nlon) / nlon
    out = np.zeros((nlat, nlon))
    for k in d["k"]:
        a = r.uniform(0, 1, size=nlat)
        if d["sparse"]:
            a = a * (r.uniform(0, 1, size=nlat) < 0.6)
        out += a[:,None] * np.cos(k * lam[None,:] + r.uniform(0, 6.28, size=nlat)[:,None])
    return d["amp"] * (out + d["noise"] * r.uniform(-1, 1, size=out.shape))

def fields(kmax):
    return st.one_of(wave_rows(kmax).map(lambda d: {"w": d}), G.any_fields().map(lambda a: {"a": a}))

def make_field(d, n, nlon=None, nlat=None):
    if "w" in d:
        return waves(d["w"], n + 1 if nlat is None else nlat, 2 * n if nlon is None else nlon)
    return B.field(n, d["a"])

@st.composite
def dom_cases(draw):
    g = draw(G.grids(2, 24, 60, trunc=False, planet=False, legfunc=False))
    n = g["n"]
    c = {"g": g, "f": draw(fields(min(n, 24))), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])), "layout": draw(G.layouts)}
    c["range"] = draw(G.weighted((2, st.none()), (5, st.tuples(st.integers(0, min(n, 22)), st.integers(0, 25)).map(lambda x: [x[0], x[0] + x[1]]))))
    half = draw(st.integers(0, min(n, 12)))
    c["smooth"] = draw(G.weighted((3, st.none()), (1, st.just("default")), (2, st.tuples(st.sampled_from(sorted(WINDOWS)),
        st.sampled_from([2 * half + 1, 2 * half + 0.7, 2 * half + 1.3])).map(list))))
    c["as"] = draw(st.sampled_from(["tuple", "list", "np"]))
    return c

def check_dominant(k, power, lo, hi, dtype, what):
    """Wavenumbers of the range with the largest power, per latitude"""
    k = arr(k, what, power.shape[:1]).astype(float)
    hi = min(hi, power.shape[1] - 1)
    require(np.all(k == np.round(k)), lambda: f"{what}: not an integer wavenumber {k}")
    require(np.all((k >= lo) & (k <= hi)), lambda: f"{what}: {k} out of range {lo} to {hi}")
    best = np.max(power[:,lo:hi+1], axis=1)
    mine = power[np.arange(k.size), k.astype(int)]
    total = np.sum(power, axis=1)
    eps = 1e-5 if dtype == "f4" else 1e-10
    for j in range(k.size):
        require(mine[j] >= best[j] - eps * (best[j] + eps * total[j]) - 1e-28 * (dtype == "f4"), lambda: f"{what}: wavenumber {k[j]} with power {mine[j]} at row {j}, but {best[j]} at "
            f"{lo + np.argmax(power[j,lo:hi+1])}")

@SUITE.test(dom_cases(), 900, 20000, fine=(16, FINE))
def dominant_fourier(c):
    """Superpositions of waves with amplitudes differing by latitude and arbitrary fields; all ranges and smoothing windows. Non-trivial if the
    dominant wavenumber varies with latitude."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    x = make_field(c["f"], n)
    if c["dtype"] == "i8":
        x = np.round(x / max(np.max(np.abs(x)), 1e-300) * 1000)
    x = B.shape_array(x, c["dtype"], c["layout"])
    lo, hi = c["range"] or (1, 20)
    power = np.abs(fourier(x))**2
    kw = {}
    if c["range"]:
        kw["wavenumber_range"] = {"tuple": tuple, "list": list, "np": np.array}[c["as"]]([lo, hi])
    guard = Guard(x)
    base = D.dominant_wavenumber_fourier(x, grid, smooth=None, **kw)
    check_dominant(base, power, lo, hi, c["dtype"], "dominant wavenumber")
    k = np.array(base, dtype=float)
    trivial(np.all(k == k[0]))
    label("smooth " + str(c["smooth"] if not isinstance(c["smooth"], list) else "window"), "range " + ("default" if c["range"] is None else "given"))
    if c["smooth"] == "default":
        width = 10. * n / 180.
        if abs(width % 1 - 0.5) < 1e-6:
            return
        got = D.dominant_wavenumber_fourier(x, grid, **kw)
        w = np.ones(points(width)) / points(width)
    elif c["smooth"] is not None:
        name, ref = WINDOWS[c["smooth"][0]]
        got = D.dominant_wavenumber_fourier(x, grid, smooth=(name, c["smooth"][1] * 180. / n), **kw)
        w = ref(points(c["smooth"][1]))
        w = w / np.sum(w)
    else:
        return
    close(got, B.convolve(k, w, 0, "reflect"), 1e-9 * (hi + 1), "smoothed wavenumber")
    guard.check("dominant_wavenumber_fourier")

@st.composite
def hilbert_cases(draw):
    n = draw(G.sizes(2, 24, 60))
    nlon = draw(G.weighted((3, st.just(2 * n)), (2, st.integers(2, 61))))
    c = {"n": n, "nlon": nlon, "nlat": draw(G.weighted((2, st.just(n + 1)), (1, st.integers(1, 12)))), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
         "layout": draw(G.layouts), "range": draw(G.weighted((1, st.none()), (4, st.tuples(st.integers(0, nlon // 2 + 1), st.integers(0, 25)).map(lambda x: [x[0], x[0] + x[1]])))),
         "roll": draw(st.integers(0, 100)), "fac": draw(st.sampled_from([2., -1., 0.5, 0.])), "f": draw(wave_rows(nlon // 2))}
    return c

@SUITE.test(hilbert_cases(), 1000, 20000, fine=(16, FINE))
def envelope(c):
    """Envelopes for even and odd numbers of longitudes against the definition by Fourier series; scaling and rotation. Non-trivial if waves of
    the range are present."""
    x = waves(c["f"], c["nlat"], c["nlon"])
    if c["dtype"] == "i8":
        x = np.round(x / max(np.max(np.abs(x)), 1e-300) * 1000)
    x = B.shape_array(x, c["dtype"], c["layout"])
    lo, hi = c["range"] or (2, 10)
    f = (lambda y: D.envelope_hilbert(y)) if c["range"] is None else (lambda y: D.envelope_hilbert(y, (lo, hi)))
    guard = Guard(x)
    want = np.abs(analytic(x, lo, hi))
    eps = 2e-5 if c["dtype"] == "f4" else 1e-10
    s = max(np.max(np.abs(x.astype(float))), 1e-30)
    trivial(np.max(want) < 1e-6 * s)
    label("odd" if c["nlon"] % 2 else "even", "Nyquist" if lo <= c["nlon"] / 2 <= hi else "", "mean" if lo == 0 else "")
    close(f(x), want, eps * s, "envelope")
    guard.check("envelope_hilbert")
    if c["dtype"] == "f8":
        close(f(c["fac"] * x), abs(c["fac"]) * want, 2 * eps * s, "scaled envelope")
        close(f(np.roll(x, c["roll"], axis=1)), np.roll(want, c["roll"], axis=1), 2 * eps * s, "rotated envelope")

@st.composite
def single_cases(draw):
    n = draw(G.sizes(4, 24, 60))
    return {"n": n, "k": draw(st.integers(1, n - 1)), "a": draw(st.lists(G.sym(50.), min_size=1, max_size=4)), "p": draw(st.integers(0, 23)) * 15,
        "d": draw(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)), "out": draw(st.lists(st.integers(0, n), max_size=4)), "b": draw(G.sym(100.))}

@SUITE.test(single_cases(), 300, fine=(16, FINE))
def single_wave(c):
    """A single wave inside the range, at its ends too, has its amplitude as envelope; waves outside of the range do not matter."""
    n, k = c["n"], c["k"]
    lo, hi = max(0, k - c["d"][0]), k + c["d"][1]
    lam = np.deg2rad(B.lons(n))
    a = np.array(c["a"])
    x = a[:,None] * np.cos(k * lam + np.deg2rad(c["p"]))[None,:]
    trivial(not np.any(a))
    for m in c["out"]:
        if m < lo or m > hi:
            x = x + c["b"] * np.cos(m * lam)[None,:]
            label("out of range wave")
    label("lower end" if k == lo else "", "upper end" if k == hi else "")
    close(D.envelope_hilbert(x, (lo, hi)), np.repeat(np.abs(a)[:,None], 2 * n, axis=1), 1e-9 * 200, "amplitude of single wave")
    # Its wavenumber dominates
    grid = bt.Grid(180. / n)
    y = np.cos(np.deg2rad(B.lats(n)))[:,None] * np.cos(k * lam + np.deg2rad(c["p"]))[None,:] + 1e-3
    got = arr(D.dominant_wavenumber_fourier(y, grid, smooth=None, wavenumber_range=(max(lo, 1), hi)), "wavenumber", (n + 1,))
    close(got[1:-1], np.full(n - 1, k), 0.5, "dominant wavenumber of single wave")

@SUITE.test(G.states(3, 24, 48), 200, fine=(8, FINE))
def of_state(s):
    """Envelope of the meridional wind of a state, wavenumbers 2 to 10."""
    state = B.make_state(s)
    f = B.flow_of(s)
    trivial(np.max(np.abs(f.v)) < 1e-3 * f.scale_u)
    v = np.array(state.v, dtype=float)
    got = state.v_envelope_hilbert
    close(got, np.abs(analytic(v, 2, 10)), 2e-5 * max(np.max(np.abs(v)), 1e-30), "v_envelope_hilbert")
    close(state.v, v, 0., "v after v_envelope_hilbert")

_SCALES = 3 * 2**np.linspace(0, 6, 120)

def wavelet_power(x):
    """Power by scale and position of the triplicated, truncated field"""
    import pywt
    y = restrict(x, 0, 20)
    m = y.shape[1]
    coef, _ = pywt.cwt(np.hstack([y, y, y]), _SCALES, pywt.ContinuousWavelet("cmor1.0-1.0"), axis=1)
    return np.abs(coef[:,:,m:2*m])**2

@st.composite
def wavelet_cases(draw):
    g = draw(G.grids(2, 16, 24, trunc=False, planet=False, legfunc=False))
    n = g["n"]
    c = {"g": g, "f": draw(fields(min(n, 24))), "dtype": draw(st.sampled_from(["f8", "f8", "f4"]))}
    if n >= 14 and draw(st.booleans()):
        # Waves next to the truncation
        g["n"] = n = draw(st.integers(21, 26))
        c["f"] = {"w": dict(draw(wave_rows(4)), k=draw(st.lists(st.integers(18, 23), min_size=1, max_size=3, unique=True)), noise=0.)}
    half = draw(st.tuples(st.integers(0, n - 1), st.integers(0, n // 2)).map(list))
    c["smooth"] = draw(G.weighted((2, st.none()), (2, st.just("default")), (2, st.tuples(st.sampled_from(sorted(WINDOWS)), st.just(2 * half[0] + 1), st.just(2 * half[1] + 1)).map(list))))
    return c

@SUITE.test(wavelet_cases(), 120, 3000, fine=(6, FINE[:3]))
def dominant_wavelet(c):
    """Wavenumber of the strongest response of the Morlet wavelet transform of the field truncated at wavenumber 20, smoothing along both
    directions. Non-trivial if the result varies."""
    n = c["g"]["n"]
    grid = B.make_grid(c["g"])
    x = make_field(c["f"], n).astype(c["dtype"])
    power = wavelet_power(x)
    wavenum = 2 * n / _SCALES # center frequency of the wavelet is 1
    guard = Guard(x)
    k = arr(D.dominant_wavenumber_wavelet(x, grid, smooth=None), "wavelet wavenumber", grid.shape).astype(float)
    guard.check("dominant_wavenumber_wavelet")
    i = np.argmin(np.abs(np.log(np.maximum(k, 1e-10)[None] / wavenum[:,None,None])), axis=0)
    close(k, wavenum[i], 1e-6 * k + 1e-12, "wavenumbers of the wavelet")
    jj, ii = np.indices(k.shape)
    mine, best = power[i,jj,ii], np.max(power, axis=0)
    eps = 1e-4 if c["dtype"] == "f4" else 1e-8
    # Rounding errors of waves that are cut off, too
    least = best * (1 - eps) - eps**2 * np.maximum(np.max(best), np.max(np.abs(x))**2 * np.max(_SCALES))
    require(np.all(mine >= least), lambda: "not the strongest response at " + str(np.argwhere(mine < least)[0]))
    trivial(np.all(k == k[0,0]))
    if c["smooth"] is None:
        return
    label("smooth default" if c["smooth"] == "default" else "smooth window")
    if c["smooth"] == "default":
        wx, wy = 40. * n / 180., 10. * n / 180.
        if min(abs(wx % 1 - 0.5), abs(wy % 1 - 0.5)) < 1e-6:
            return
        got = D.dominant_wavenumber_wavelet(x, grid)
        ref = WINDOWS["hann"][1]
    else:
        name, ref = WINDOWS[c["smooth"][0]]
        wx, wy = c["smooth"][1:]
        got = D.dominant_wavenumber_wavelet(x, grid, smooth=(name, wx * 180. / n, wy * 180. / n))
    w = [ref(points(a)) / np.sum(ref(points(a))) for a in (wx, wy)]
    close(got, B.convolve(B.convolve(k, w[1], 0, "reflect"), w[0], 1, "wrap"), 1e-9 * 2 * n, "smoothed wavelet wavenumber")

@SUITE.test(st.fixed_dictionaries({"n": st.sampled_from([36, 40, 45, 48, 54, 60, 64, 72]), "seed": G.seeds, "k": st.integers(1, 12)}), 4, 60)
def wavelet_default(c):
    """Default smoothing of the wavelet-based wavenumber on grids fine enough to tell the widths of its windows."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    rng = np.random.default_rng(c["seed"])
    lam, phi = np.deg2rad(B.lons(n))[None,:], np.deg2rad(B.lats(n))[:,None]
    x = np.cos(phi) * (np.cos(c["k"] * lam + 3 * phi) + 2 * np.sin(phi) * np.cos((c["k"] + 6) * lam)) + 0.3 * rng.standard_normal(grid.shape)
    wx, wy = 40. * n / 180., 10. * n / 180.
    assume_points = min(abs(wx % 1 - 0.5), abs(wy % 1 - 0.5)) >= 1e-6
    k = np.asarray(D.dominant_wavenumber_wavelet(x, grid, smooth=None), dtype=float)
    trivial(np.all(k == k[0,0]) or not assume_points)
    if not assume_points:
        return
    ref = WINDOWS["hann"][1]
    w = [ref(points(a)) / np.sum(ref(points(a))) for a in (wx, wy)]
    close(D.dominant_wavenumber_wavelet(x, grid), B.convolve(B.convolve(k, w[1], 0, "reflect"), w[0], 1, "wrap"), 1e-9 * 2 * n, "wavelet wavenumber smoothed by default")

@SUITE.test(st.tuples(G.sizes(9, 24), st.integers(0, 100), st.integers(0, 23), G.logu(1e-3, 1e3)).map(list), 80)
def wavelet_monochromatic(c):
    """A single wave with 3 to nlon/4 (at most 20) crests."""
    n = c[0]
    k = 3 + c[1] % max(1, min(20, n // 2) - 2)
    x = c[3] * np.cos(np.deg2rad(B.lats(n)))[:,None] * np.cos(k * np.deg2rad(B.lons(n)) + np.deg2rad(15 * c[2]))[None,:]
    got = D.dominant_wavenumber_wavelet(x, bt.Grid(180. / n), smooth=None)
    got = arr(got, "wavelet wavenumber", x.shape)[1:-1]
    close(got, np.full(got.shape, float(k)), 0.12 * k, "wavenumber of single wave")
