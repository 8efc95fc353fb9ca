"""C22 Wavenumber-based filtering is a local Hann average of the right width"""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C22")
D = bt.diagnostics

def halfwidths(k, nlon):
    """Wavelengths in whole gridpoints, two candidates where rounding decides"""
    k = np.clip(np.asarray(k, dtype=float), 1., nlon / 2)
    m = np.array([int(Fraction(nlon) / Fraction(x)) for x in k.ravel()]).reshape(k.shape)
    near = nlon / k - m
    a = np.where((near > 0) & (near < 1e-9), m - 1, m)
    b = np.where(near > 1 - 1e-9, m + 1, m)
    return m, np.where(b != m, b, a)

def hann_mean(x, m):
    """Average of row x (all points) with the Hann window of full width 2m"""
    i = np.arange(-m, m + 1)
    w = np.ones(1) if m == 0 else 0.5 + 0.5 * np.cos(np.pi * i / m)
    return B.convolve(x, w / np.sum(w), 1, "wrap")

def reference(x, k):
    """(value, alternative) of the filtered field"""
    x = np.asarray(x, dtype=float)
    k = np.asarray(k, dtype=float)
    if k.ndim == 1:
        k = np.repeat(k[:,None], x.shape[1], axis=1)
    m, alt = halfwidths(k, x.shape[1])
    out, other = np.zeros_like(x), np.zeros_like(x)
    for a in np.unique(np.append(m, alt)):
        y = hann_mean(x, int(a))
        out = np.where(m == a, y, out)
        other = np.where(alt == a, y, other)
    return out, other

def check(got, x, k, what, eps=1e-12):
    a, b = reference(x, k)
    got = arr(got, what, a.shape).astype(float)
    want = np.where(np.abs(got - b) < np.abs(got - a), b, a)
    s = np.maximum(np.max(np.abs(np.asarray(x, dtype=float)), axis=1, keepdims=True), 1e-30)
    close(got, want, eps * s * np.ones_like(want), what)
    return want

@st.composite
def wavenumbers(draw, nlat, nlon):
    kind = draw(st.sampled_from(["profile", "field", "field"]))
    style = draw(st.sampled_from(["int", "frac", "levels", "wild", "const"]))
    return {"kind": kind, "style": style, "seed": draw(G.seeds), "lo": draw(G.uni(0., 3.)), "hi": draw(G.uni(2., 1.2 * nlon / 2 + 2)),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"]))}

def make_wavenumbers(d, nlat, nlon):
    r = np.random.RandomState(d["seed"])
    shape = (nlat,) if d["kind"] == "profile" else (nlat, nlon)
    lo, hi = min(d["lo"], d["hi"]), max(d["lo"], d["hi"])
    if d["style"] == "const":
        k = np.full(shape, d["hi"])
    else:
        k = r.uniform(lo, hi, size=shape)
    if d["style"] == "int":
        k = np.round(k)
    elif d["style"] == "levels":
        k = np.round(k * 2) / 2
    elif d["style"] == "wild":
        j = r.randint(0, 8, size=shape)
        k = np.choose(j, [k, k, k, 0. * k, -k, k + nlon, 1. + 0 * k, nlon / 2. + 0 * k])
        if d["dtype"] != "i8":
            k = np.where(r.randint(0, 20, size=shape) == 0, np.inf, k)
    return k.astype(d["dtype"])

@st.composite
def cases(draw):
    n = draw(G.sizes(2, 20, 45))
    nlon = draw(G.weighted((3, st.just(2 * n)), (1, st.integers(2, 60))))
    nlat = draw(G.weighted((3, st.just(n + 1)), (1, st.integers(1, 10))))
    return {"n": n, "nlon": nlon, "nlat": nlat, "f": draw(G.any_fields()), "k": draw(wavenumbers(nlat, nlon)), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8", "bool"])),
        "layout": draw(G.layouts)}

def make_field(c):
    x = B.field(c["n"], c["f"])
    jj = np.arange(c["nlat"]) % x.shape[0]
    ii = np.arange(c["nlon"]) % x.shape[1]
    x = x[jj][:,ii]
    if c["dtype"] == "i8":
        x = np.round(x * 10)
    elif c["dtype"] == "bool":
        x = x > 0
    return B.shape_array(x, c["dtype"], c["layout"])

@SUITE.test(cases(), 900, 20000, fine=(16, FINE))
def definition(c):
    """All fields, 1-D and 2-D wavenumbers (integer, fractional, below 1, above nlon/2, infinite), all numbers of longitudes. Non-trivial unless
    the field is zonally symmetric."""
    x = make_field(c)
    k = make_wavenumbers(c["k"], c["nlat"], c["nlon"])
    label(c["k"]["kind"], c["k"]["style"], c["dtype"])
    guard = Guard(field=x, wavenumber=k)
    got = D.filter_by_wavenumber(x, k)
    guard.check("filter_by_wavenumber")
    want = check(got, x, k, "filtered", 2e-6 if c["dtype"] == "f4" else 1e-12)
    trivial(np.all(x == x[:,:1]))
    if k.ndim == 1:
        twod = np.repeat(k[:,None], c["nlon"], axis=1)
        close(D.filter_by_wavenumber(x, twod), got, 0., "profile of wavenumbers")

@st.composite
def law_cases(draw):
    n = draw(G.sizes(2, 16, 30))
    return {"n": n, "f": draw(G.any_fields()), "f2": draw(G.any_fields()), "k": draw(wavenumbers(n + 1, 2 * n)), "a": draw(G.sym(5.)), "roll": draw(st.integers(0, 100))}

@SUITE.test(law_cases(), 300, fine=(8, FINE[:3]))
def laws(c):
    """Linearity, constants, range of values, rotation of field and wavenumbers."""
    n = c["n"]
    x, y = B.field(n, c["f"]), B.field(n, c["f2"])
    k = make_wavenumbers(c["k"], n + 1, 2 * n)
    f = lambda z, q=k: arr(D.filter_by_wavenumber(z, q), "filtered", z.shape)
    s = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-30)
    trivial(not np.any(x) or not np.any(y))
    close(f(x + c["a"] * y), f(x) + c["a"] * f(y), 1e-11 * s * (1 + abs(c["a"])), "linearity")
    close(f(np.full_like(x, c["a"])), np.full_like(x, c["a"]), 1e-12 * 5, "constant")
    lo, hi = np.min(x, axis=1, keepdims=True), np.max(x, axis=1, keepdims=True)
    require(np.all(f(x) >= lo - 1e-12 * s) and np.all(f(x) <= hi + 1e-12 * s), "range of values")
    q = k if k.ndim == 1 else np.roll(k, c["roll"], axis=1)
    close(f(np.roll(x, c["roll"], axis=1), q), np.roll(f(x), c["roll"], axis=1), 1e-11 * s, "rotation")

@SUITE.test(st.tuples(st.integers(1, 30), st.integers(2, 30), G.seeds).map(list), 200)
def impulse(c):
    """Response to a spike: zero beyond one wavelength, half of the maximum at half the wavelength."""
    k, mult, seed = c
    nlon = k * mult # wavelength of `mult` points
    if nlon > 240:
        nlon = k * (240 // k)
        mult = nlon // k
    if mult < 2:
        trivial()
        return
    i = seed % nlon
    x = np.zeros((1, nlon))
    x[0,i] = 1.
    y = arr(D.filter_by_wavenumber(x, np.array([float(k)])), "filtered", x.shape)
    close(np.sum(y), 1., 1e-12, "sum of impulse response")
    y = np.roll(y[0], -i)
    if k >= 3:
        require(np.max(np.abs(y[mult:nlon-mult+1])) <= 1e-12, "reaches beyond the wavelength")
        if mult % 2 == 0:
            close(y[mult//2], 0.5 * y[0], 1e-12, "half width")

@SUITE.test(st.fixed_dictionaries({"nlat": st.integers(2, 12), "nlon": st.integers(2, 24), "m": st.integers(1, 24)}), 60)
def refusals(c):
    """Profiles of another size than the number of latitudes."""
    trivial(c["m"] == c["nlat"])
    if c["m"] != c["nlat"]:
        refused("wavenumber profile of wrong size", D.filter_by_wavenumber, np.zeros((c["nlat"], c["nlon"])), np.ones(c["m"]))

@SUITE.test(G.states(4, 20, 36, legfunc=False), 150, 3000, fine=(6, FINE[:3]))
def falwa_filtered(s):
    """FALWA filtered with twice the dominant wavenumber of the meridional wind. Non-trivial if FALWA varies along longitude."""
    state = B.make_state(s)
    k = np.asarray(D.dominant_wavenumber_fourier(np.array(state.v), state.grid), dtype=float)
    x = np.array(state.falwa, dtype=float)
    fresh = B.make_state(s)
    trivial(np.max(np.ptp(x, axis=1)) <= 1e-3 * np.max(np.abs(x)))
    check(fresh.falwa_filtered, x, 2 * k, "falwa_filtered", 1e-5)
    close(fresh.falwa, x, 0., "falwa after falwa_filtered")
