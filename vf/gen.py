"""Hypothesis strategies for JSON-able case descriptions."""
from hypothesis import strategies as st

EARTH_R = 6371.2e3
EARTH_OM = 7.292e-5


def uni(lo, hi, steps=1000):
    """Evenly distributed numbers between lo and hi (shrink towards lo)"""
    return st.integers(0, steps).map(lambda i: lo + (hi - lo) * i / steps)

def sym(a, steps=1000):
    """Evenly distributed between -a and a (shrink towards 0)"""
    return st.integers(-steps, steps).map(lambda i: a * i / steps)

def logu(lo, hi, steps=600):
    """Evenly distributed magnitudes"""
    import math
    a, b = math.log10(lo), math.log10(hi)
    return st.integers(0, steps).map(lambda i: float("%.5g" % 10 ** (a + (b - a) * i / steps)))

def weighted(*pairs):
    """one_of with integer weights: weighted((3, strat), (1, strat))"""
    table = [s for w, s in pairs for _ in range(w)]
    return st.integers(0, len(table) - 1).flatmap(lambda i: table[i])

seeds = st.integers(0, 2**31 - 1)

radius = weighted((3, st.just(EARTH_R)), (1, st.just(1.0)), (2, logu(1e5, 1e8)), (1, st.just(3389500)))
omega = weighted((4, st.just(EARTH_OM)), (1, st.just(0.)), (2, logu(1e-7, 1e-3)),
        (1, logu(1e-6, 1e-3).map(lambda x: -x)))


def sizes(nmin=2, nmax=24, big=None):
    """Number of latitude intervals (resolution = 180/n)"""
    pairs = [(6, st.integers(nmin, nmax))]
    common = [n for n in (4, 5, 6, 9, 10, 12, 18, 20, 36) if nmin <= n <= nmax]
    if common:
        pairs.append((3, st.sampled_from(common)))
    if big:
        pairs.append((1, st.integers(nmax, big)))
    return weighted(*pairs)


@st.composite
def grids(draw, nmin=2, nmax=24, big=None, trunc=True, planet=True, legfunc=True, rad=None, om=None):
    n = draw(sizes(nmin, nmax, big))
    out = {"n": n}
    if planet:
        out["r"] = draw(radius if rad is None else rad)
        out["om"] = draw(omega if om is None else om)
    if trunc:
        out["nt"] = draw(weighted((3, st.none()), (2, st.integers(1, n))))
    if legfunc:
        out["lf"] = draw(st.sampled_from(["stored", "stored", "computed"]))
    return out


def nt_of(g):
    return g["n"] if g.get("nt") is None else g["nt"]

def res_of(g):
    """Highest degree of resolved fields (see C03)"""
    return min(nt_of(g), g["n"] - 1)


@st.composite
def sh_atom(draw, nmax, nmin=0, mmax=None, amp=None):
    n = draw(st.integers(nmin, max(nmin, nmax)))
    m = draw(st.integers(0, n if mmax is None else min(n, mmax)))
    return {"t": "sh", "n": n, "m": m,
            "a": draw(sym(1.) if amp is None else amp),
            "p": draw(st.integers(0, 23)) * 15}


def sh_fields(nmax, nmin=0, max_size=4, min_size=1, mmax=None):
    """Fields made of resolved spherical harmonics, all of them different: there must be nothing left of which only rounding errors
    remain because two cancel"""
    return st.lists(sh_atom(nmax, nmin, mmax), min_size=min_size, max_size=max_size, unique_by=harmonic)

def harmonic(atom):
    return atom["n"], atom["m"]


@st.composite
def any_atom(draw):
    kind = draw(st.sampled_from(["sh", "sh", "noise", "const", "gauss", "lat", "spike", "stepn", "steplon",
                                 "check", "wave"]))
    a = draw(sym(1.))
    if kind == "sh":
        n = draw(st.integers(0, 10))
        return {"t": "sh", "n": n, "m": draw(st.integers(0, n)), "a": a, "p": draw(st.integers(0, 23)) * 15}
    if kind == "noise":
        return {"t": "noise", "seed": draw(seeds), "a": a}
    if kind == "const":
        return {"t": "const", "a": a}
    if kind == "gauss":
        return {"t": "gauss", "a": a, "lon": draw(st.integers(0, 359)), "lat": draw(st.integers(-90, 90)),
                "w": draw(st.integers(5, 60))}
    if kind == "lat":
        return {"t": "lat", "a": a, "k": draw(st.integers(1, 5))}
    if kind == "spike":
        return {"t": "spike", "a": a, "j": draw(st.integers(0, 200)), "i": draw(st.integers(0, 400))}
    if kind == "stepn":
        return {"t": "stepn", "a": a, "lat": draw(st.integers(-90, 90))}
    if kind == "steplon":
        return {"t": "steplon", "a": a, "lon": draw(st.integers(0, 359)), "w": draw(st.integers(10, 200))}
    if kind == "wave":
        return {"t": "wave", "a": a, "k": draw(st.integers(1, 20)), "p": draw(st.integers(0, 23)) * 15,
                "lat": draw(st.integers(-90, 90)), "w": draw(st.integers(10, 60))}
    return {"t": "check", "a": a}


def any_fields(max_size=4, min_size=1):
    """Arbitrary gridded fields"""
    return st.lists(any_atom(), min_size=min_size, max_size=max_size)

dtypes = weighted((4, st.just("f8")), (2, st.just("f4")))
layouts = st.sampled_from(["c", "c", "c", "f", "strided", "c", "negative", "big", "readonly"])


@st.composite
def times(draw):
    kind = draw(st.sampled_from(["f", "f", "i", "dt"]))
    if kind == "f":
        return {"t": draw(st.sampled_from([0., 600., -3600., 12345.5, 86400., 1e7]))}
    if kind == "i":
        return {"t": draw(st.integers(-10**6, 10**7))}
    return {"dt": draw(st.integers(-10**8, 10**9))}


@st.composite
def flows(draw, nt, max_atoms=4, zonal_ok=True, nmin=1):
    """Resolved non-divergent flow: vorticity as spherical harmonics, strength
    is a wind speed scale."""
    n = max(nt, 1)
    atoms = draw(st.lists(sh_atom(n, nmin), min_size=1, max_size=max_atoms, unique_by=harmonic))
    return {"vo": atoms, "U": draw(weighted((3, st.sampled_from([10., 30., 1.])), (1, logu(0.01, 100.))))}


@st.composite
def states(draw, nmin=4, nmax=20, big=None, trunc=True, planet=True, time=True, max_atoms=4, legfunc=True,
        low=None, om=None, rad=None):
    g = draw(grids(nmin, nmax, big, trunc, planet, legfunc, om=om, rad=rad))
    nt = res_of(g)
    if low is not None:
        nt = max(1, min(nt, low))
    out = {"g": g, **draw(flows(nt, max_atoms))}
    out["time"] = draw(times()) if time else {"t": 0.}
    return out
