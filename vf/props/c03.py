"""C03 Spectral transforms are exact, linear and truncate as configured"""
import numpy as np
import spharm
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C03")

def spec_tol(n):
    # Coefficients of a unit-amplitude field are at most of order 1
    return B.tol(n)

@st.composite
def resolved(draw, nmin=2, nmax=24, big=None):
    g = draw(G.grids(nmin, nmax, big))
    nt, res = B.nt(g), B.res(g)
    c = {"g": g, "low": draw(G.sh_fields(res)), "high": [],
         "dtype": draw(G.dtypes), "layout": draw(G.layouts), "scale": draw(G.weighted((3, st.just(1.)), (1, G.logu(1e-10, 1e10))))}
    if nt < g["n"] - 1:
        c["high"] = draw(G.sh_fields(g["n"] - 1, nt + 1, max_size=3, min_size=0))
    return c

@SUITE.test(resolved(big=72), 900, 20000, fine=(16, FINE))
def roundtrip(c):
    """Sums of harmonics up to the truncation (to be kept) and above (to be removed) on random grids, dtypes, memory
    layouts and magnitudes; non-trivial if any harmonic has non-zero amplitude."""
    g, n = c["g"], c["g"]["n"]
    grid = B.make_grid(g)
    low, high = B.field(n, c["low"]) * c["scale"], B.field(n, c["high"]) * c["scale"]
    trivial(not np.any(low + high))
    label("removes" if np.any(high) else "keeps", "default truncation" if g["nt"] is None else "explicit truncation")
    f = B.shape_array(low + high, c["dtype"], c["layout"])
    guard = Guard(f)
    spec = grid.to_spectral(f)
    guard.check("to_spectral")
    nt = B.nt(g)
    arr(spec, "to_spectral", ((nt + 1) * (nt + 2) // 2,), kind="c")
    sg = Guard(spec)
    back = grid.to_grid(spec)
    sg.check("to_grid")
    scale = sum(abs(a["a"]) for a in c["low"] + c["high"]) * c["scale"]
    t = B.tol(n, scale)
    close(back, low, t, "round trip", kind="f")
    # Only the contained modes
    m, d = spharm.getspecindx(nt)
    present = np.zeros(spec.shape, dtype=bool)
    for a in c["low"]:
        present |= (m == a["m"]) & (d == a["n"])
    close(np.where(present, 0., spec), np.zeros(spec.shape), 3 * t, "modes not in the field", kind="c")
    close(spec, B.Ref(g).spec(f), t, "spectral coefficients", kind="c")

@st.composite
def coefficients(draw):
    g = draw(G.grids(2, 20, 40))
    res = B.res(g)
    modes = draw(st.lists(st.tuples(st.integers(0, res), st.integers(0, res), G.sym(1.), G.sym(1.)), min_size=1, max_size=5))
    return {"g": g, "modes": [list(m) for m in modes]}

@SUITE.test(coefficients(), 500, fine=(12, FINE))
def spectral_roundtrip(c):
    """Random coefficients of resolved modes -> grid -> the same coefficients."""
    g = c["g"]
    grid = B.make_grid(g)
    nt = B.nt(g)
    m, d = spharm.getspecindx(nt)
    spec = np.zeros(m.shape, dtype=np.complex64)
    for mm, dd, re, im in c["modes"]:
        mm = min(mm, dd)
        spec[(m == mm) & (d == dd)] = re + (1j * im if mm > 0 else 0.)
    scale = np.max(np.abs(spec))
    trivial(scale == 0.)
    f = grid.to_grid(spec)
    arr(f, "to_grid", grid.shape, kind="f")
    close(grid.to_spectral(f), spec, 3 * B.tol(g["n"], scale * len(c["modes"])), "coefficients", kind="c")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 24, 48), "a": G.any_fields(), "b": G.any_fields(), "x": G.sym(3.),
        "y": G.sym(3.), "roll": st.integers(-50, 50), "dtype": G.dtypes, "layout": G.layouts}), 700, fine=(12, FINE))
def projection(c):
    """Arbitrary rough fields (noise, steps, spikes, checkerboards): the round trip is linear, idempotent and commutes
    with rolling in longitude, and equals the transform of pyspharm with the truncation."""
    g, n = c["g"], c["g"]["n"]
    grid = B.make_grid(g)
    a, b = B.field(n, c["a"]), B.field(n, c["b"])
    def rt(f):
        return arr(grid.to_grid(grid.to_spectral(B.shape_array(f, c["dtype"], c["layout"]))), "round trip", grid.shape).astype(float)
    ra, rb = rt(a), rt(b)
    sa, sb = max(np.max(np.abs(a)), 1e-30), max(np.max(np.abs(b)), 1e-30)
    trivial(sa < 1e-20 and sb < 1e-20)
    t = B.tol(n)
    close(ra, B.Ref(g).rt(a), t * sa, "reference")
    close(rt(ra), ra, t * max(sa, np.max(np.abs(ra))), "idempotence")
    x, y = c["x"], c["y"]
    s = abs(x) * sa + abs(y) * sb
    close(rt(x * a + y * b), x * ra + y * rb, 2 * t * s, "linearity")
    label("rolled" if c["roll"] % (2 * n) else "unrolled")
    close(rt(np.roll(a, c["roll"], axis=1)), np.roll(ra, c["roll"], axis=1), 2 * t * sa, "roll")

@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 24, 48), "a": G.any_fields(), "b": G.any_fields(), "how": st.sampled_from(["set", "scale", "point", "roll"]),
        "dtype": st.sampled_from(["f8", "f4"]), "between": st.booleans()}), 300, fine=(8, FINE))
def reused_buffers(c):
    """The same array objects (grid and spectral) are altered in place and transformed again: the result is that of their new contents."""
    g, n = c["g"], c["g"]["n"]
    grid = B.make_grid(g)
    a, b = B.field(n, c["a"]), B.field(n, c["b"])
    buf = B.shape_array(a, c["dtype"], "C")
    if not buf.flags.writeable:
        buf = buf.copy()
    first = grid.to_spectral(buf)
    keep = Guard(first)
    sbuf = np.array(first)
    gfirst = grid.to_grid(sbuf)
    gkeep = Guard(gfirst)
    if c["between"]:
        grid.to_spectral(b[:, ::-1].copy())
    old = buf.copy()
    if c["how"] == "set":
        buf[...] = b
    elif c["how"] == "scale":
        buf *= -2
    elif c["how"] == "point":
        buf[n // 2, n] += 1 + np.max(np.abs(a))
    else:
        buf[...] = np.roll(old, 1, axis=1)
    trivial(np.array_equal(buf, old))
    label(c["how"])
    want = B.make_grid(g).to_spectral(buf.copy())
    scale = max(np.max(np.abs(buf)), 1e-30)
    close(grid.to_spectral(buf), want, B.tol(n, scale), "spectrum of altered array", kind="c")
    sbuf[...] = want
    close(grid.to_grid(sbuf), B.make_grid(g).to_grid(want.copy()), B.tol(n, scale), "field of altered spectrum")
    keep.check("second transform, first spectrum")
    gkeep.check("second transform, first field")
