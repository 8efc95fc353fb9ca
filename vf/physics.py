"""The operations of the package, applied on a planet with its own units of length and time and seen from a rotated or
reflected coordinate system. Used for the properties about units (C33) and symmetries (C34)."""
import numpy as np
from . import build as B
from .core import *
import barotropic as bt

D = bt.diagnostics


class Planet:
    """g: planet in base units, L, T: its units, k: rotation by columns, mirror: reflection across the equator.

    Results are collected by add and brought back to base units and orientation."""

    def __init__(self, g, L=1., T=1., k=0, mirror=False, exact=True):
        self.n = g["n"]
        self.r, self.om = B.rad(g), B.om(g)
        self.g = dict(g, r=self.r * L, om=self.om / T)
        self.grid = B.make_grid(self.g)
        self.L, self.T, self.k, self.mirror, self.exact = L, T, k % (2 * g["n"]), mirror, exact
        self.sign = -1. if mirror else 1.
        self.out = {}

    # Inputs

    def f(self, x, parity=1):
        x = np.roll(x, self.k, axis=1)
        return np.ascontiguousarray(x[::-1] * parity if self.mirror else x)

    def profile(self, x, parity=1):
        return np.ascontiguousarray(x[::-1] * parity if self.mirror else x)

    # Outputs

    def add(self, name, value, unit=1., parity=1, scale=None, tol=1., series=False, rows=False):
        """scale: magnitude (in base units) to which the tolerance applies if larger than that of the value, rows: in
        north to south order even if not on the latitudes of the grid"""
        value = np.asarray(value)
        require(value.dtype.kind in "fiuc", f"{name}: {value.dtype}")
        value = value.astype(complex if value.dtype.kind == "c" else float) / unit
        if series:
            pass
        elif value.ndim == 2 and value.shape[1] == self.grid.nlon:
            value = np.roll(value, -self.k, axis=1)
        elif value.shape == (self.grid.nlon,):
            value = np.roll(value, -self.k)
        if series:
            pass
        elif value.ndim and (rows or value.shape[0] == self.grid.nlat):
            value = value[::-1] * parity if self.mirror else value
        elif value.ndim == 0 and self.mirror:
            value = value * parity
        require(name not in self.out, f"{name} twice")
        self.out[name] = value, scale, tol

    def add_discrete(self, name, value):
        """Results that depend discontinuously on the input, only comparable if the arithmetic is exactly the same"""
        if self.exact:
            value = np.asarray(value)
            self.out[name] = value.astype(complex if value.dtype.kind == "c" else float), None, None


def compare(base, other, eps, what):
    require(base.out.keys() == other.out.keys(), f"{what}: results {sorted(set(base.out) ^ set(other.out))} only once")
    for name, (a, scale, tol) in base.out.items():
        b = other.out[name][0]
        require(a.shape == b.shape, f"{what}: {name} of shape {b.shape} instead of {a.shape}")
        if tol is None:
            differs = ~((a == b) | (np.abs(a - b) <= 1e-5 * (1 + np.abs(a))) | (np.isnan(a) & np.isnan(b)))
            require(np.sum(differs) <= 0.02 * a.size, lambda: f"{what}: {name} {b[differs][:5].tolist()} instead of {a[differs][:5].tolist()}")
        else:
            require(np.all(np.isfinite(a)) == np.all(np.isfinite(b)), f"{what}: {name} not finite")
            if np.all(np.isfinite(a)):
                s = max(np.max(np.abs(a), initial=0.), 0. if scale is None else scale)
                close(b, a, eps * tol * s, f"{what}: {name}", kind="c" if a.dtype.kind == "c" else "f")


def distinct_latitudes(n, x):
    """Whether contours have different equivalent latitudes: values in between are ambiguous if a field jumps past several contours"""
    _, lat = bt.Grid(180. / n).zonalize(x, interpolate=False)
    return np.min(np.abs(np.diff(np.sort(lat)))) > 1e-3 * 180. / n

def grid_operations(P, c):
    grid, L, T, n, r = P.grid, P.L, P.T, P.n, P.r
    x, y = B.field(n, c["a"]) + c["mean"], B.field(n, c["b"])
    if c["generic"]:
        lon, lat = (np.deg2rad(_) for _ in B.mesh(n))
        x = x + 0.137 * np.cos(lat - 0.3) * np.cos(1.7 + lon * 3) + 0.0713 * np.sin(5.1 * lat + 1)
    mx, my = np.max(np.abs(x)), np.max(np.abs(y))
    lat = P.profile(B.lats(n), -1.)
    P.add("gridpoint_area", grid.gridpoint_area, L**2)
    P.add("circumference", grid.circumference(lat), L)
    P.add("coriolis", grid.coriolis(lat), 1 / T, -1)
    P.add("fcor2", grid.fcor2, 1 / T, -1)
    m = max(mx, my)
    vo, di = P.f(x, -1) / T, P.f(y) / T
    u, v = grid.wind(vo, di)
    P.add("u", u, L / T, 1, m * r)
    P.add("v", v, L / T, -1, m * r)
    u, v = P.f(x) * L / T, P.f(y, -1) * L / T
    P.add("vorticity", grid.vorticity(u, v), 1 / T, -1, m * n / r)
    P.add("divergence", grid.divergence(u, v), 1 / T, 1, m * n / r)
    for name, f, parity in zip(("vorticity", "divergence"), grid.vorticity_divergence(u, v), (-1, 1)):
        P.add(name + " (both)", f, 1 / T, parity, m * n / r)
    h = P.f(x)
    gx, gy = grid.gradient(h)
    P.add("zonal gradient", gx, 1 / L, 1, mx * n / r)
    P.add("meridional gradient", gy, 1 / L, -1, mx * n / r)
    P.add("derivative", grid.derivative_meridional(h, c["fd"]), 1., -1, mx * n)
    P.add("laplacian", grid.laplace(h), L**-2, 1, mx * n**2 / r**2)
    P.add("poisson", grid.solve_poisson(h), L**2, 1, mx * r**2)
    P.add("helmholtz", grid.solve_poisson(h, c["add"] / r**2 / L**2), L**2, 1, mx * r**2)
    coeff = c["diff"] * (r**2 / n**2)**c["order"] * L**(2 * c["order"]) / T
    P.add("diffusion", grid.solve_diffusion(h, coeff, 0.5 * T, c["order"]), 1., 1, mx)
    P.add("quad", grid.quad(h), L**2, 1, mx * r**2 * 13)
    P.add("quad_meridional", grid.quad_meridional(h), L, 1, mx * r * 4)
    P.add("domain", grid.quad_meridional(P.f(y), h), L, 1, my * r * 4, tol=1e-4)
    P.add("box counting", grid.quad_meridional(h, method="boxcount"), L, 1, mx * r * 4, tol=1e-4)
    # Boundary of a domain next to a gridpoint
    level = x[c["at"] % (n + 1), c["at"] % (2 * n)]
    z = h - level - c["above"] * mx
    P.add("domain next to a gridpoint", grid.quad_meridional(P.f(y), z), L, 1, my * r * 4, tol=1e-4)
    P.add("box counting of domain", grid.quad_meridional(P.f(y), z, "boxcount"), L, 1, my * r * 4, tol=1e-4)
    if not P.mirror:
        P.add("equivalent latitude", grid.equivalent_latitude(np.asarray(c["areas"]) * 12.5 * r**2 * L**2), 1., 1, 90.)
    if P.exact or c["generic"] and distinct_latitudes(n, x):
        P.add("zonalization", grid.zonalize(P.f(x, -1)), 1., -1, mx, tol=10.)
    P.add("mean", grid.mean(h), 1., 1, mx)
    P.add("zonal mean", grid.mean(h, axis="zonal"), 1., 1, mx)
    P.add("meridional mean", grid.mean(h, axis="meridional"), 1., 1, mx)
    P.add("filter_zonal", grid.filter_zonal(h, "hann", c["width"]), 1., 1, mx)
    P.add("filter_meridional", grid.filter_meridional(h, "hann", c["width"]), 1., 1, mx)


def make_pv(P, c):
    """PV in base units, state on the planet"""
    n = P.n
    flow = B.Flow(dict(P.g, r=P.r, om=P.om), c["s"]["vo"], c["s"]["U"])
    # Flow far beyond the range of single precision
    unit = c["s"]["U"] / P.r
    if flow.scale_vo < 1e-6 * unit:
        flow.pv, flow.u, flow.v = flow.f, 0. * flow.u, 0. * flow.v
    flow.scale_pv = max(flow.scale_pv, 1e-3 * unit)
    flow.scale_u = max(flow.scale_u, 1e-3 * c["s"]["U"])
    pv = flow.pv + B.field(n, c["a"]) * c["rough"] * flow.scale_pv
    if c["generic"]:
        lon, lat = (np.deg2rad(_) for _ in B.mesh(n))
        pv = pv + flow.scale_pv * (0.0137 * np.cos(lat - 0.3) * np.cos(1.7 + lon * 3) + 0.00713 * np.sin(5.1 * lat + 1))
    return flow, pv


def make_state(P, c, pv):
    how = c["how"]
    q = P.f(pv, -1) / P.T
    time = c["t0"] * P.T
    if how == "pv":
        return bt.State(P.grid, time, pv=q)
    if how == "spectral":
        return bt.State(P.grid, time, pv_spectral=P.grid.to_spectral(q))
    if how == "vorticity":
        return bt.State.from_vorticity(P.grid, time, q - P.grid.fcor2)
    tmp = bt.State(P.grid, time, pv=q)
    return bt.State.from_wind(P.grid, time, tmp.u, tmp.v)


def state_fields(P, c):
    grid, L, T, n, r = P.grid, P.L, P.T, P.n, P.r
    flow, pv = make_pv(P, c)
    state = make_state(P, c, pv)
    q = np.max(np.abs(pv)) + flow.scale_pv
    w = q * r
    P.add("time", state.time, T)
    P.add("pv", state.pv, 1 / T, -1, q)
    P.add("vorticity", state.vorticity, 1 / T, -1, q)
    P.add("u", state.u, L / T, 1, w)
    P.add("v", state.v, L / T, -1, w)
    P.add("streamfunction", state.streamfunction, L**2 / T, -1, w * r)
    P.add("energy", state.energy, L**2 / T**2, 1, w**2)
    P.add("enstrophy", state.enstrophy, T**-2, 1, q**2)
    P.add("eddy enstrophy", state.eddy_enstrophy, T**-2, 1, q**2)
    P.add("pv flux", grid.to_grid(state.pv_flux_spectral), T**-2, -1, q * w * n / r)
    P.add("envelope", state.v_envelope_hilbert, L / T, 1, w)
    P.add("envelope of wavenumbers", D.envelope_hilbert(state.v, tuple(c["range"])), L / T, 1, w)
    zonal = np.repeat(np.asarray(state.pv).mean(axis=1)[:, None], 2 * n, axis=1)
    other = state.add_vorticity(-0.5 * (np.asarray(state.pv) - zonal))
    P.add("pv after add_vorticity", other.pv, 1 / T, -1, q)
    other = state.add_wind((0.3 * np.asarray(state.u), 0.3 * np.asarray(state.v)))
    P.add("u after add_wind", other.u, L / T, 1, w)
    if P.exact or c["generic"]:
        field = P.f(pv, -1) / T
        lwa, yy = D.falwa(field, grid, interpolate=False)
        cos = max(np.min(np.cos(np.deg2rad(np.asarray(yy, dtype=float)))), 1e-6)
        for name, x, parity in (("falwa", D.falwa(field, grid), 1), ("fawa", D.fawa(field, grid), 1)):
            P.add(name, x, L / T, parity, w / cos, tol=10.)
        P.add("pv_zonalized", state.pv_zonalized, 1 / T, -1, q, tol=10.)
        # Wave activity of contours close to the extremes, that enclose little area, before it is divided by the cosine
        levels = np.min(field) + (np.max(field) - np.min(field)) * np.array([0.999, 0.99, 0.9, 0.7, 0.5, 0.3, 0.1, 0.01, 0.001])
        lwa, yy = D.falwa(field, grid, levels=levels, interpolate=False)
        cos = np.cos(np.deg2rad(np.asarray(yy, dtype=float)))
        P.add("latitudes of contours", yy, 1., -1, 90., tol=100., rows=True)
        P.add("contours of falwa * cos", np.asarray(lwa, dtype=float) * (cos[:, None] if np.ndim(yy) == 1 else cos), L / T, 1, w, tol=10., rows=True)
    # Stationary wavenumber without its singularities
    wind = P.f(flow.u) * L / T
    mean = wind.mean(axis=1) / (L / T)
    ks2 = np.asarray(D.stationary_wavenumber(wind, grid, order=c["fd"], min_u=1e-6 * flow.scale_u * L / T, kind="squared"))
    safe = np.abs(mean) > 1e-4 * flow.scale_u
    P.add("ks2 * u", np.where(safe, ks2, 0.) * np.where(safe, mean, 0.), 1., 1, q * r * n, tol=10.)
    if P.exact:
        for kind in ("squared", "real", "complex"):
            P.add_discrete(f"stationary wavenumber ({kind})", D.stationary_wavenumber(state, min_u=c["min_u"] * w * L / T, kind=kind))
        ks = D.stationary_wavenumber(state, min_u=c["min_u"] * w * L / T)
        guides = np.asarray(D.extract_ks_waveguides(ks, c["kw"], grid), dtype=float).ravel()
        P.add_discrete("waveguides", guides)
        P.add_discrete("falwa_state", np.asarray(state.falwa) / (L / T) / w)
        # Latitudes with meridional wind beyond rounding errors
        windy = np.max(np.abs(state.v), axis=1) > 1e-5 * w * L / T
        P.add_discrete("dominant wavenumber", np.where(windy, D.dominant_wavenumber_fourier(state.v, grid, smooth=None), 0.))
        P.add_discrete("dominant wavenumber (wavelet)", np.where(windy[:, None], D.dominant_wavenumber_wavelet(state.v, grid, smooth=None), 0.))
        # Smoothing combines latitudes within 5 degrees
        m = int(5 * n / 180) + 1
        windy = np.array([np.all(windy[max(0, j-m):j+m+1]) for j in range(n + 1)])
        P.add_discrete("falwa_filtered", np.where(windy[:, None], np.asarray(state.falwa_filtered) / (L / T) / w, 0.))


def make_forcing(P, c, q):
    """Sum of the forcing terms in c"""
    L, T, n, r = P.L, P.T, P.n, P.r
    terms = []
    for t in c["rhs"]:
        kind = t["k"]
        if kind == "relax":
            terms.append(bt.rhs.LinearRelaxation(t["rate"] / c["tau"] / T, P.f(B.field(n, t["f"]) * q, -1) / T))
            continue
        wind = t["wind"]
        kw = dict(scale_height=t["H"] * L, wind=("sbr", c["speed"] * L / T) if wind == "sbr" else (wind, 0.7))
        if t["fcor"]:
            kw["fcor_ref"] = P.sign * t["fcor"] * q / T
        height = t["h"] * t["H"] * L
        if kind == "gauss":
            lat = t["lat"] * P.sign
            lon = t["i"] * 180. / n + P.k * 180. / n
            term = bt.rhs.GaussianMountain(height, (lon % 360., lat), tuple(t["sd"]), **kw)
        elif kind == "sine":
            term = bt.rhs.ZonalSineMountains(height, t["lat"] * P.sign, t["sd"][0], 2 * n if c["rotated"] else t["m"], **kw)
        else:
            h = P.f(B.field(n, t["f"])) * height
            term = bt.rhs.Orography(np.append(P.grid.lon, 360.), P.grid.lat, np.hstack([h, h[:, :1]]), **kw)
        if t["off"] is not None:
            term = term * bt.rhs.TimedOffSwitch((c["t0"] + t["off"] * c["dt"]) * T)
        terms.append(term)
    total = None
    for term in terms:
        total = term if total is None else total + term
    return total


def integrations(P, c):
    grid, L, T, n, r = P.grid, P.L, P.T, P.n, P.r
    flow, pv = make_pv(P, c)
    q = np.max(np.abs(pv)) + flow.scale_pv
    c = dict(c, tau=1. / q, speed=flow.scale_u, rotated=c.get("view", {}).get("k", 0) % (2 * n) != 0)
    # Time step far below the limit of stability
    dt = c["cfl"] / (q * n)
    c["dt"] = dt
    c["t0"] = c["t0"] * dt
    state = make_state(P, c, pv)
    bg = None if c["bg"] is None else P.f(B.field(n, c["bg"]) * q, -1) / T
    model = bt.BarotropicModel(make_forcing(P, c, q), diffusion_order=c["order"], diffusion_bg=bg,
            diffusion_coeff=c["diff"] / dt * (r**2 / n**2)**c["order"] * L**(2 * c["order"]) / T)
    last, saved = model.run(state, dt * T, (c["t0"] + (c["steps"] - 0.5) * dt) * T, save_every=c["save"] * dt * T)
    P.add("times", np.asarray([s.time for s in saved] + [last.time]), T, 1, dt, series=True)
    for i, s in enumerate([*saved, last]):
        grow = 1. + i
        P.add(f"pv {i}", s.pv, 1 / T, -1, q, tol=grow)
        P.add(f"u {i}", s.u, L / T, 1, q * r, tol=grow)
        P.add(f"v {i}", s.v, L / T, -1, q * r, tol=grow)
    if model.rhs is not None:
        P.add("forcing", model.rhs(state) * np.ones(grid.shape), T**-2, -1, q**2)


def presets(P, c):
    grid, L, T, n, r = P.grid, P.L, P.T, P.n, P.r
    U = c["U"]
    speed = U * L / T
    prof, pvprof = B.field(n, c["a"])[:, 0], B.field(n, c["b"])[:, 0]
    states = {
        "motionless": (bt.init.motionless(grid), 0.),
        "solid_body_rotation": (bt.init.solid_body_rotation(grid, amplitude=speed), U),
        "gaussian_jet": (bt.init.gaussian_jet(grid, amplitude=speed, center_lat=P.sign * c["lat"], stdev_lat=c["sd"]), U),
        "held_1985": (bt.init.held_1985(grid, A=speed, B=c["B"] * speed, C=c["C"] * speed), U * (1 + abs(c["B"]) + abs(c["C"]))),
        "wind profile": (bt.init.zonally_symmetric(grid, u=P.profile(prof) * speed), U * np.max(np.abs(prof))),
        "pv profile": (bt.init.zonally_symmetric(grid, pv=P.profile(pvprof, -1) * U / r / T), U * np.max(np.abs(pvprof))),
    }
    for name, (state, u) in states.items():
        w = u + abs(P.om) * r
        P.add(f"{name} u", state.u, L / T, 1, w)
        P.add(f"{name} v", state.v, L / T, -1, w)
        P.add(f"{name} pv", state.pv, 1 / T, -1, w * n / r)
