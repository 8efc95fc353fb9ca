"""Builds objects from case descriptions."""
import datetime as _dt
import numpy as np
import scipy.special
import barotropic as bt
from . import core
from .gen import EARTH_R, EARTH_OM

BASE_TIME = _dt.datetime(2000, 1, 1)


# -- Reference coordinates and basis functions --------------------------------

def lons(n):
    return np.arange(2 * n) * (180. / n)

def lats(n):
    return 90. - np.arange(n + 1) * (180. / n)

def mesh(n):
    return np.meshgrid(lons(n), lats(n))

_LEG = {}
def leg(n, deg, m):
    """Legendre profile and its derivative by latitude, scaled to maximum 1"""
    key = (n, deg, m)
    if key not in _LEG:
        theta = np.deg2rad(90. - lats(n))
        fine = np.linspace(0, np.pi, 721)
        norm = np.max(np.abs(scipy.special.sph_legendre_p(deg, m, fine)[0]))
        p, dp = scipy.special.sph_legendre_p(deg, m, theta, diff_n=1)
        _LEG[key] = p / norm, -dp / norm
    return _LEG[key]

def sh(n, atom):
    lam = np.deg2rad(lons(n))
    p, _ = leg(n, atom["n"], atom["m"])
    return atom["a"] * p[:, None] * np.cos(atom["m"] * lam + np.deg2rad(atom["p"]))[None, :]

def sh_dlat(n, atom):
    """Derivative by latitude (radians)"""
    lam = np.deg2rad(lons(n))
    _, dp = leg(n, atom["n"], atom["m"])
    return atom["a"] * dp[:, None] * np.cos(atom["m"] * lam + np.deg2rad(atom["p"]))[None, :]

def sh_dlon(n, atom):
    """Derivative by longitude (radians) divided by cos(latitude)"""
    lam = np.deg2rad(lons(n))
    phi = np.deg2rad(lats(n))
    p, dp = leg(n, atom["n"], atom["m"])
    out = np.zeros(n + 1)
    out[1:-1] = p[1:-1] / np.cos(phi[1:-1])
    if atom["m"] == 1: # limits at the poles
        out[0], out[-1] = -dp[0], dp[-1]
    out = -atom["m"] * atom["a"] * out
    return out[:, None] * np.sin(atom["m"] * lam + np.deg2rad(atom["p"]))[None, :]


def atom_field(n, atom):
    lon, lat = mesh(n)
    t, a = atom["t"], atom["a"]
    if t == "sh":
        return sh(n, atom)
    if t == "noise":
        return a * np.random.RandomState(atom["seed"]).uniform(-1, 1, size=lon.shape)
    if t == "const":
        return np.full(lon.shape, float(a))
    if t == "gauss":
        d = (lon - atom["lon"] + 180) % 360 - 180
        return a * np.exp(-0.5 * (d**2 + (lat - atom["lat"])**2) / atom["w"]**2)
    if t == "lat":
        return a * (lat / 90.)**atom["k"]
    if t == "spike":
        out = np.zeros(lon.shape)
        out[atom["j"] % (n + 1), atom["i"] % (2 * n)] = a
        return out
    if t == "stepn":
        return np.where(lat >= atom["lat"], a, 0.)
    if t == "steplon":
        return np.where((lon - atom["lon"]) % 360 <= atom["w"], a, 0.)
    if t == "check":
        j, i = np.indices(lon.shape)
        return a * (1. - 2. * ((i + j) % 2))
    if t == "wave":
        return a * np.cos(np.deg2rad(atom["k"] * lon + atom["p"])) * np.exp(-0.5 * ((lat - atom["lat"]) / atom["w"])**2)
    raise KeyError(t)

def field(n, atoms):
    out = np.zeros((n + 1, 2 * n))
    for atom in atoms:
        out = out + atom_field(n, atom)
    return out

def shape_array(a, dtype="f8", layout="c"):
    a = np.asarray(a, dtype=dtype)
    if layout == "f":
        return np.asfortranarray(a)
    if layout == "strided":
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[(slice(None, None, 2),) * a.ndim] = a
        return big[(slice(None, None, 2),) * a.ndim]
    if layout == "negative":
        turn = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[turn])[turn]
    if layout == "big":
        # As read from a file in network byte order
        return np.array(a, dtype=a.dtype.newbyteorder(">"), order="C")
    if layout == "readonly":
        a = np.array(a, order="C")
        a.setflags(write=False)
        return a
    return np.ascontiguousarray(a)


INTEGERS = ["u1", "i1", "u2", "i2", "u4", "i4", "i8", "?"]

def integers(a, dtype, layout="c", narrow=False):
    """Field scaled to the full range of an integer type (at most six digits), optionally to a quarter of it"""
    a = np.asarray(a, dtype=float)
    lo, hi = a.min(), a.max()
    unit = (a - lo) / (hi - lo) if hi > lo else np.zeros_like(a)
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return shape_array(unit > 0.5, dt, layout)
    info = np.iinfo(dt)
    lo, hi = max(info.min, -10**6), min(info.max, 10**6)
    if narrow:
        lo, hi = lo // 4, hi // 4
    return shape_array(np.rint(lo + unit * (hi - lo)), dt, layout)

# -- Objects ------------------------------------------------------------------

def grid_kwargs(g):
    # Defaults are used as well as given explicitly
    kw = {}
    if "r" in g and not (g["r"] == EARTH_R and g["n"] % 3 == 0):
        kw["rsphere"] = g["r"]
    if "om" in g and not (g["om"] == EARTH_OM and g["n"] % 2 == 0):
        kw["omega"] = g["om"]
    if g.get("nt") is not None:
        kw["ntrunc"] = g["nt"]
    if "lf" in g:
        kw["legfunc"] = g["lf"]
    return kw

def make_grid(g):
    return bt.Grid(resolution=180. / g["n"], **grid_kwargs(g))

def rad(g):
    return g.get("r", EARTH_R)

def om(g):
    return g.get("om", EARTH_OM)

def nt(g):
    return g["n"] if g.get("nt") is None else g["nt"]

def fcor(g):
    return 2. * om(g) * np.sin(np.deg2rad(lats(g["n"])))

def fcor2(g):
    return np.repeat(fcor(g)[:, None], 2 * g["n"], axis=1)

def make_time(t):
    if "dt" in t:
        return BASE_TIME + _dt.timedelta(seconds=t["dt"])
    return t["t"]


class Flow:
    """Exact fields of a resolved non-divergent flow (see gen.flows)."""

    def __init__(self, g, vo, U):
        n, r = g["n"], rad(g)
        shape = n + 1, 2 * n
        self.vo = np.zeros(shape)
        self.psi = np.zeros(shape)
        self.u = np.zeros(shape)
        self.v = np.zeros(shape)
        for atom in vo:
            d = atom["n"]
            # Streamfunction amplitude such that winds are of order U
            amp = U * r / d
            s = sh(n, atom)
            self.psi += amp * s
            self.vo += -amp * d * (d + 1) / r**2 * s
            self.u += -amp / r * sh_dlat(n, atom)
            self.v += amp / r * sh_dlon(n, atom)
        self.f = fcor2(g)
        self.pv = self.vo + self.f
        self.scale_vo = max(np.max(np.abs(self.vo)), 1e-300)
        self.scale_pv = max(np.max(np.abs(self.pv)), np.max(np.abs(self.f)), 1e-300)
        self.scale_u = max(np.max(np.hypot(self.u, self.v)), 1e-300)
        self.scale_psi = max(np.max(np.abs(self.psi)), 1e-300)

def flow_of(s):
    return Flow(s["g"], s["vo"], s["U"])

def make_state(s, grid=None):
    grid = make_grid(s["g"]) if grid is None else grid
    f = flow_of(s)
    return bt.State(grid, make_time(s["time"]), pv=f.pv)


def res(g):
    """Highest degree of resolved fields (see C03)"""
    return min(nt(g), g["n"] - 1)

def _largest_prime(n):
    p, k = 1, 2
    while n > 1:
        while n % k == 0:
            p, n = k, n // k
        k += 1
    return p

def tol(n, scale=1.):
    """Single-precision tolerance of spectral operations"""
    # The FFT of spherepack loses digits for large prime factors of nlon
    p = _largest_prime(n)
    return 4e-6 * (1. + n / 8.) * (1. + (p / 10.)**2 if p > 7 else 1.) * scale


# -- Reference operators ------------------------------------------------------

class Ref:
    """The transforms of pyspharm on the grid, used independently of Grid."""

    def __init__(self, g):
        import spharm
        self.n, self.nt, self.r = g["n"], nt(g), rad(g)
        self._s = spharm.Spharmt(2 * self.n, self.n + 1, rsphere=self.r, gridtype="regular", legfunc="stored")
        self.m, self.d = spharm.getspecindx(self.nt)
        self.eig = self.d * (self.d + 1.) / self.r**2

    def spec(self, f):
        return self._s.grdtospec(np.asarray(f, dtype="f4"), self.nt).astype(complex)

    def grid(self, c):
        return self._s.spectogrd(np.asarray(c, dtype="c8")).astype(float)

    def rt(self, f):
        return self.grid(self.spec(f))

    def vrtdiv(self, u, v):
        a, b = self._s.getvrtdivspec(np.asarray(u, dtype="f4"), np.asarray(v, dtype="f4"), self.nt)
        return a.astype(complex), b.astype(complex)

    def wind(self, vrt, div=None):
        div = np.zeros_like(vrt) if div is None else div
        u, v = self._s.getuv(np.asarray(vrt, dtype="c8"), np.asarray(div, dtype="c8"))
        return u.astype(float), v.astype(float)

    def grad(self, f):
        a, b = self._s.getgrad(np.asarray(self.spec(f), dtype="c8"))
        return a.astype(float), b.astype(float)


def cell_area(g):
    """Closed form of the grid cell areas (one per latitude)"""
    n, r = g["n"], rad(g)
    d = np.pi / n
    phi = np.deg2rad(lats(n))
    out = r**2 * d * 2. * np.cos(phi) * np.sin(0.5 * d)
    out[0] = out[-1] = r**2 * d * 2. * np.sin(0.25 * d)**2
    return out


_GL = np.polynomial.legendre.leggauss(12)

def line_integral(g, y, z=None, method="sptrapz"):
    """Reference for the integrals along meridians (per column)"""
    n, r = g["n"], rad(g)
    y = np.asarray(y, dtype=float)
    z = np.ones_like(y) if z is None else np.asarray(z, dtype=float)
    if method == "boxcount":
        area = cell_area(g)[:, None] / (r * np.pi / n)
        return np.sum(np.where(z >= 0, y * area, 0.), axis=0)
    phi = np.deg2rad(lats(n))[:, None]
    zn, zs = z[:-1], z[1:]
    # Fraction of the interval from the northern point
    with np.errstate(all="ignore"):
        root = np.where(zn == zs, 0., zn / (zn - zs))
    lo = np.where(zn >= 0, 0., root)
    hi = np.where(zs >= 0, 1., root)
    none = (zn < 0) & (zs < 0)
    lo, hi = np.where(none, 0., lo), np.where(none, 0., hi)
    d = np.pi / n
    out = np.zeros(y.shape[1])
    for x, w in zip(*_GL):
        s = 0.5 * (lo + hi) + 0.5 * (hi - lo) * x
        f = y[:-1] + s * (y[1:] - y[:-1])
        out += np.sum(w * 0.5 * (hi - lo) * f * np.cos(phi[:-1] - s * d), axis=0)
    return r * d * out


def deriv(n, f, order, poles):
    """Reference for meridional finite differences (Lagrange interpolation)"""
    f = np.asarray(f, dtype=float)
    p = order + 1
    d = -np.pi / n
    out = np.zeros(f.shape)
    for j in range(n + 1):
        if not poles and j in (0, n):
            continue
        start = min(max(j - order // 2, 0), n + 1 - p)
        xs = np.arange(start, start + p)
        acc = 0.
        for a in range(p):
            # derivative of the Lagrange basis polynomial at j
            s = 0.
            for b in range(p):
                if b == a:
                    continue
                t = 1.
                for c in range(p):
                    if c != a and c != b:
                        t *= (j - xs[c]) / (xs[a] - xs[c])
                s += t / (xs[a] - xs[b])
            acc = acc + s * f[xs[a]]
        out[j] = acc / d
    return out


def convolve(x, w, axis, mode):
    """Direct convolution with an odd window, periodic or mirrored"""
    x = np.moveaxis(np.asarray(x, dtype=float), axis, 0)
    m = x.shape[0]
    c = len(w) // 2
    out = np.zeros_like(x)
    idx = np.arange(m)
    for k in range(len(w)):
        src = idx - (k - c)
        if mode == "wrap":
            src = src % m
        else:
            src = src % (2 * m)
            src = np.where(src >= m, 2 * m - 1 - src, src)
        out = out + w[k] * x[src]
    return np.moveaxis(out, 0, axis)
