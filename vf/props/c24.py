"""C24 Extracted waveguides are exactly the latitudes with Ks above k"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C24")
D = bt.diagnostics

def intervals(res, what):
    """Normalized output as list of (north, south)"""
    out = []
    require(isinstance(res, (list, tuple)), f"{what}: {type(res).__name__} is not a list")
    for w in res:
        require(len(w) == 2, f"{what}: {w} is not a pair of latitudes")
        a, b = (float(x) for x in w)
        require(np.isfinite(a) and np.isfinite(b), f"{what}: boundary not finite {w}")
        require(-90 - 1e-9 <= b and a <= 90 + 1e-9, f"{what}: boundary beyond the poles {w}")
        require(a >= b - 1e-9, f"{what}: not from north to south {w}")
        out.append((a, b))
    for x, y in zip(out, out[1:]):
        require(x[1] >= y[0] - 1e-9, f"{what}: overlap or wrong order {x} {y}")
    return out

def crossing(lat_n, lat_s, a, b, k):
    """Latitude where the profile passes k between a (north) and b (south)"""
    if np.isinf(a) and np.isinf(b):
        return None
    if np.isinf(a):
        return lat_s
    if np.isinf(b):
        return lat_n
    return lat_n + (lat_s - lat_n) * (k - a) / (b - a)

def check(res, n, ks, k, what, eps=1e-13):
    guides = intervals(res, what)
    lat = B.lats(n)
    d = 180. / n
    for j in range(n + 1):
        inside = [w for w in guides if w[1] - 1e-9 <= lat[j] <= w[0] + 1e-9]
        strictly = [w for w in guides if w[1] + 1e-9 < lat[j] < w[0] - 1e-9]
        if ks[j] > k:
            # The crossing may be rounded to the other side
            near = np.isfinite(ks[j]) and abs(ks[j] - k) <= 100 * eps * (abs(k) + abs(ks[j]))
            require(inside or near, f"{what}: latitude {lat[j]} with Ks = {ks[j]} > {k} not in a waveguide {guides}")
        elif ks[j] < k:
            near = np.isfinite(ks[j]) and abs(ks[j] - k) <= 100 * eps * (abs(k) + abs(ks[j]))
            require(not strictly or near, f"{what}: latitude {lat[j]} with Ks = {ks[j]} < {k} in a waveguide {guides}")
    # Compare the sets between every pair of latitudes
    for j in range(n):
        a, b = ks[j], ks[j+1]
        if a == k and b == k:
            continue
        if a >= k and b >= k:
            want = lat[j], lat[j+1]
        elif a < k and b < k or (a <= k and b <= k):
            want = None
        else:
            x = crossing(lat[j], lat[j+1], a, b, k)
            if x is None:
                continue
            want = (lat[j], x) if a > k else (x, lat[j+1])
        tol = 1e-9
        if np.isfinite(a) and np.isfinite(b) and a != b:
            tol += 10 * d * min(1., eps * (abs(a) + abs(b) + abs(k)) / abs(b - a))
        parts = [(min(w[0], lat[j]), max(w[1], lat[j+1])) for w in guides]
        parts = [p for p in parts if p[0] - p[1] > tol]
        if want is None or want[0] - want[1] <= 2 * tol:
            require(not parts, f"{what}: waveguide {parts} between {lat[j]} and {lat[j+1]} where Ks is {a} and {b}, k = {k}")
            continue
        require(len(parts) == 1, f"{what}: waveguides {parts} instead of {want} where Ks is {a} and {b}, k = {k}")
        require(abs(parts[0][0] - want[0]) <= tol and abs(parts[0][1] - want[1]) <= tol,
                f"{what}: waveguide {parts[0]} instead of {want} where Ks is {a} and {b}, k = {k}")
    # Connected waveguides are not split
    for x, y in zip(guides, guides[1:]):
        j = int(round((90. - x[1]) / d))
        if abs(x[1] - y[0]) < 1e-9 and abs(lat[j] - x[1]) < 1e-9 and x[0] - x[1] > 1e-6 and y[0] - y[1] > 1e-6:
            require(not ks[j] > k, f"{what}: waveguide split at {x[1]}")
    return guides

@st.composite
def ks_profiles(draw):
    return {"style": draw(st.sampled_from(["levels", "uniform", "smooth", "spikes"])), "seed": draw(G.seeds), "inf": draw(st.sampled_from([0., 0., 0.1, 0.5])),
            "kcopies": draw(st.sampled_from([0., 0., 0.2, 0.6])), "nan": 0}

def make_ks(d, n, k):
    r = np.random.RandomState(d["seed"])
    if d["style"] == "levels":
        x = r.randint(-3, 9, size=n + 1) * 1.
    elif d["style"] == "uniform":
        x = r.uniform(-10, 20, size=n + 1)
    elif d["style"] == "smooth":
        x = 5 + 6 * np.cos(r.randint(1, 6) * np.deg2rad(B.lats(n)) + r.uniform(0, 6)) + r.uniform(-2, 2)
    else:
        x = np.where(r.uniform(size=n + 1) < 0.2, 50., -4.) * r.uniform(0.5, 1)
    kk = k if isinstance(k, (int, float)) else k[0] - k[1]
    x = np.where(r.uniform(size=n + 1) < d["kcopies"], kk, x)
    x = np.where(r.uniform(size=n + 1) < d["inf"], np.where(r.uniform(size=n + 1) < 0.6, np.inf, -np.inf), x)
    return x

def as_complex(x):
    out = np.zeros(x.shape, dtype=complex)
    out.real[x > 0] = x[x > 0]
    out.imag[x < 0] = -x[x < 0]
    return out

wavenumbers = G.weighted((5, st.integers(1, 8)), (2, G.sym(12.)), (1, st.sampled_from([0, 0., 4., -1])), (1, st.tuples(st.just(0), st.integers(1, 4)).map(list)))

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(2, 30, 90), "ks": ks_profiles(), "k": wavenumbers, "as": st.sampled_from(["complex", "complex", "real", "c8", "list", "list"] + B.INTEGERS[:-1])}), 1500, 40000, fine=(20, FINE))
def profiles(c):
    """Real, imaginary and infinite values in any order, values equal to k, real, negative and imaginary wavenumbers. Non-trivial if some but not all
    latitudes belong to waveguides."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    ks = make_ks(c["ks"], n, c["k"])
    k = complex(*c["k"]) if isinstance(c["k"], list) else c["k"]
    kk = c["k"][0] - c["k"][1] if isinstance(c["k"], list) else c["k"]
    x = as_complex(ks)
    eps = 1e-13
    if c["as"] == "real":
        x = ks
    elif c["as"] in B.INTEGERS:
        x = np.clip(np.where(np.isinf(ks), 40, np.rint(ks)), 0 if c["as"][0] == "u" else -100, 100).astype(c["as"])
        ks = x.astype(float)
    elif c["as"] == "c8":
        x = x.astype("c8")
        ks = (np.real(x) - np.imag(x)).astype(float)
        eps = 1e-6
        with np.errstate(all="ignore"):
            ks = np.where(np.abs(ks - kk) <= eps * abs(kk), kk, ks) # equal in single precision
    guard = Guard(x)
    if c["as"] == "list":
        x = list(x)
    guides = check(D.extract_ks_waveguides(x, k, grid), n, ks, kk, "waveguides", eps)
    guard.check("extract_ks_waveguides")
    trivial(np.all(ks > kk) or np.all(ks < kk))
    label(f"{min(len(guides), 4)} waveguides", "infinite" if np.any(np.isinf(ks)) else "", "equal" if np.any(ks == kk) else "", c["ks"]["style"])

@st.composite
def state_cases(draw):
    return {"s": draw(G.states(4, 24, 48, om=G.weighted((3, st.just(G.EARTH_OM)), (1, st.just(0.)), (1, G.logu(1e-6, 1e-3).map(lambda x: -x))))),
            "mode": draw(st.sampled_from(["flow", "jets", "motionless", "profile"])), "k": draw(wavenumbers), "jets": draw(st.lists(st.tuples(G.sym(40.), G.uni(-80., 80.), G.uni(3., 20.)).map(list), min_size=1, max_size=3)),
            "how": draw(st.sampled_from(["method", "function", "keyword"]))}

@SUITE.test(state_cases(), 400, 8000, fine=(8, FINE))
def states(c):
    """Waveguides of states with jets and waves."""
    s = c["s"]
    n = s["g"]["n"]
    grid = B.make_grid(s["g"])
    if c["mode"] == "flow":
        state = B.make_state(s, grid)
    elif c["mode"] == "motionless":
        state = bt.init.motionless(grid)
    else:
        lat = B.lats(n)
        u = sum(a * np.exp(-0.5 * ((lat - y) / w)**2) for a, y, w in c["jets"]) * np.cos(np.deg2rad(lat))
        state = bt.init.zonally_symmetric(grid, u=u)
    ks = np.array(D.stationary_wavenumber(state), dtype=complex)
    real = np.real(ks) - np.imag(ks)
    k = complex(*c["k"]) if isinstance(c["k"], list) else c["k"]
    kk = c["k"][0] - c["k"][1] if isinstance(c["k"], list) else c["k"]
    if c["how"] == "method":
        res = state.extract_ks_waveguides(k)
    elif c["how"] == "function":
        res = D.extract_ks_waveguides(state, k)
    else:
        res = state.extract_ks_waveguides(k=k)
    guides = check(res, n, real, kk, "waveguides of state", 1e-13)
    trivial(np.all(real > kk) or np.all(real < kk))
    label(c["mode"], f"{min(len(guides), 4)} waveguides")

@SUITE.test(st.fixed_dictionaries({"n": G.sizes(2, 24), "ks": ks_profiles(), "k": st.integers(0, 8)}), 200, fine=(8, FINE))
def mirrored(c):
    """Reversing a profile mirrors its waveguides; exchanging the sides keeps the remaining latitudes."""
    n = c["n"]
    grid = bt.Grid(180. / n)
    c["ks"]["kcopies"] = 0.
    ks = make_ks(c["ks"], n, c["k"] + 0.5)
    # No jumps between infinities
    ks = np.where(ks == -np.inf, -5., ks)
    k = c["k"] + 0.5
    a = intervals(D.extract_ks_waveguides(as_complex(ks), k, grid), "waveguides")
    b = intervals(D.extract_ks_waveguides(as_complex(ks[::-1]), k, grid), "waveguides")
    trivial(len(a) == 0)
    require(len(a) == len(b), f"{len(a)} and {len(b)} mirrored waveguides")
    close(np.array(b), -np.array(a)[::-1,::-1] if a else np.array(b), 1e-8, "mirrored waveguides")
