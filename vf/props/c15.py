"""C15 Results never depend on access order, and inputs are never modified"""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C15", slow=True)


class Env:
    """Shared objects that the operations of a history act on"""

    def __init__(self, c):
        g = c["g"]
        self.g, self.n = g, g["n"]
        n = self.n
        self.grid = B.make_grid(g)
        self.flows = [B.Flow(g, f["vo"], f["U"]) for f in c["flows"]]
        t = [B.make_time(x) for x in c["times"]]
        a, b = self.flows
        self.args = dict(pv=a.pv.copy(), u=b.u.copy(), v=b.v.copy(), vo=b.vo.copy(), noise=B.field(n, c["noise"]),
            prof=np.cos(np.deg2rad(B.lats(n))) * 20., weights=B.field(n, c["noise"])[:, 0].copy(), levels=np.linspace(np.min(a.pv), np.max(a.pv), 7),
            window=np.array([1., 2., 4., 2., 1.]), k1=np.linspace(1., n / 2. + 1, n + 1), k2=1. + np.abs(B.field(n, c["noise"])) * 5,
            bg=0.5 * b.pv, orog=1000. * np.abs(np.cos(np.deg2rad(np.linspace(0, 360, 13))))[None, :] * np.cos(np.deg2rad(np.linspace(90, -90, 7)))[:, None],
            olon=np.linspace(0, 360, 13), olat=np.linspace(90, -90, 7), x1=np.linspace(80, -75, 5), v1=np.array([1., 3., 2., -1., 0.]))
        build = [lambda: bt.State(self.grid, t[0], pv=self.args["pv"]), lambda: bt.State.from_wind(self.grid, t[1], self.args["u"], self.args["v"])]
        self.states = [f() for f in build]
        self.list = bt.StateList(self.states)
        self.wind = ("act", 0.5)
        self.orography = bt.rhs.Orography(self.args["olon"], self.args["olat"], self.args["orog"], wind=self.wind)
        self.relax = bt.rhs.LinearRelaxation(1e-6, self.args["bg"])
        self.mountain = bt.rhs.GaussianMountain(wind=("zon", 1.))
        self.sum = self.orography + self.relax
        self.models = [bt.BarotropicModel(diffusion_coeff=1e12), bt.BarotropicModel(rhs=self.sum, diffusion_coeff=1e12, diffusion_order=1),
                       bt.BarotropicModel(rhs=self.mountain, diffusion_coeff=1e13, diffusion_bg=self.args["bg"])]
        self.region = self.grid.region[10:170, 20:80]
        # Short enough for stability, only relative to the flow
        rate = max(max(f.scale_u for f in self.flows) * n / B.rad(g), 1e-12)
        import datetime
        self.dt = float("%.3g" % min(0.05 / rate, 1e6))
        self.ds = bt.io.as_dataset([self.states[0]], ["u", "v", "pv"])
        self.fields = {"a": "u", "b": lambda s: s.pv[0, 0]}
        self.names = {"u": "u", "v": "v"}
        self.kw = B.grid_kwargs(self.g)

    def step(self, state):
        import datetime
        return self.dt if not isinstance(state.time, datetime.datetime) else datetime.timedelta(seconds=self.dt)

    def guards(self):
        gr = self.grid
        named = {k: v for k, v in self.args.items()}
        for k in ("lon", "lat", "lam", "phi", "lon2", "lat2", "lam2", "phi2", "fcor", "fcor2", "fcor2_spectral", "gridpoint_area"):
            if isinstance(getattr(gr, k, None), np.ndarray):
                named["grid." + k] = getattr(gr, k)
        for k in self.ds.variables:
            named["dataset " + k] = self.ds[k].values
        return Guard(**named)

    def snapshot(self):
        return [(s.time, id(s.grid)) for s in self.states], list(map(id, self.list)), list(self.fields), dict(self.names), dict(self.kw), \
            [(m.diffusion_order, m.diffusion_coeff, id(m.rhs)) for m in self.models], list(self.ds.variables), list(self.ds.dims)


FIELDS = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vo", "vorticity_spectral", "enstrophy",
    "eddy_enstrophy", "energy", "pv_zonalized", "fawa", "falwa", "falwa_filtered", "v_envelope_hilbert", "stationary_wavenumber"]

D = bt.diagnostics

def _steps(e, s, m):
    return [s.run(m, e.step(s), s.time + 3 * e.step(s))]

def _leap(e, s, m):
    x = m.euler(s, e.step(s))
    return [x, *m.leapfrog(s, x), *m.leapfrog(s, x, 0.05)]

def _plot(name):
    def op(e, s, o, k):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        getattr(s.plot, name)(**({} if name == "waveguides" else {"center_lon": [180, 0, 77][k % 3]}))
        plt.close("all")
        return None
    return op

# e: environment, s/o: the selected and the other state, k: parameter
OPS = {
    **{f: (lambda e, s, o, k, f=f: getattr(s, f)) for f in FIELDS},
    **{"list." + f: (lambda e, s, o, k, f=f: getattr(e.list, f)) for f in ("pv", "u", "streamfunction", "falwa", "time", "fawa", "pv_spectral")},
    "extract_ks_waveguides": lambda e, s, o, k: s.extract_ks_waveguides(k),
    "falwa()": lambda e, s, o, k: D.falwa(s, levels=[None, 5, e.args["levels"]][k % 3], interpolate=bool(k % 2), quad=["sptrapz", "boxcount"][k // 2 % 2]),
    "fawa()": lambda e, s, o, k: D.fawa(s.pv, e.grid, levels=[None, 5, e.args["levels"]][k % 3], interpolate=bool(k % 2)),
    "stationary_wavenumber()": lambda e, s, o, k: D.stationary_wavenumber(s, order=[2, 4][k % 2], kind=["real", "squared", "complex"][k % 3]),
    "stationary_wavenumber(u)": lambda e, s, o, k: D.stationary_wavenumber([e.args["prof"], e.args["u"], s.u][k % 3], e.grid, kind=["real", "squared"][k % 2]),
    "waveguides(ks)": lambda e, s, o, k: D.extract_ks_waveguides(s.stationary_wavenumber, k % 5, e.grid),
    "dominant_fourier": lambda e, s, o, k: D.dominant_wavenumber_fourier([s.v, e.args["noise"]][k % 2], e.grid, smooth=[("boxcar", 40), None][k // 2 % 2], wavenumber_range=(1, 3)),
    "dominant_wavelet": lambda e, s, o, k: D.dominant_wavenumber_wavelet([s.v, e.args["noise"]][k % 2], e.grid, smooth=[("hann", 80, 60), None][k // 2 % 2]),
    "filter_by_wavenumber": lambda e, s, o, k: D.filter_by_wavenumber([s.falwa, s.pv, e.args["noise"]][k % 3], [e.args["k1"], e.args["k2"]][k // 3 % 2]),
    "envelope": lambda e, s, o, k: D.envelope_hilbert([s.v, s.pv, e.args["noise"]][k % 3], (1, 3)),
    "zonalize": lambda e, s, o, k: e.grid.zonalize([s.pv, e.args["noise"]][k % 2], levels=[None, 5, e.args["levels"]][k % 3], interpolate=bool(k // 2 % 2), quad=["sptrapz", "boxcount"][k // 3 % 2]),
    "mean": lambda e, s, o, k: e.grid.mean([s.pv, s.u, e.args["noise"]][k % 3], axis=[None, "zonal", "meridional"][k // 3 % 3], region=[None, e.region][k % 2]),
    "quad": lambda e, s, o, k: e.grid.quad(s.u, z=[None, s.pv, e.args["noise"]][k % 3], method=["sptrapz", "boxcount"][k // 3 % 2]),
    "quad_meridional": lambda e, s, o, k: e.grid.quad_meridional(s.u, z=[None, s.pv, e.args["noise"]][k % 3], method=["sptrapz", "boxcount"][k // 3 % 2]),
    "derivative_meridional": lambda e, s, o, k: e.grid.derivative_meridional([s.pv, e.args["prof"], e.args["noise"]][k % 3], order=[2, 4][k // 3 % 2]),
    "vorticity_divergence": lambda e, s, o, k: [e.grid.vorticity_divergence(s.u, s.v), e.grid.vorticity(e.args["u"], e.args["v"]), e.grid.divergence(s.u, s.v)],
    "wind": lambda e, s, o, k: [e.grid.wind(s.vorticity_spectral, 0 * s.vorticity_spectral), e.grid.wind(s.vorticity, e.args["noise"] * 1e-5)],
    "gradient": lambda e, s, o, k: [e.grid.gradient(s.streamfunction), e.grid.gradient(e.args["noise"])],
    "laplace": lambda e, s, o, k: [e.grid.laplace(s.pv), e.grid.laplace_spectral(s.pv_spectral)],
    "solve_poisson": lambda e, s, o, k: [e.grid.solve_poisson(s.vorticity), e.grid.solve_poisson_spectral(s.vorticity_spectral)],
    "solve_diffusion": lambda e, s, o, k: [e.grid.solve_diffusion(s.pv, 600., 1e5), e.grid.solve_diffusion_spectral(s.pv_spectral, 600., 1e5, order=2)],
    "transforms": lambda e, s, o, k: [e.grid.to_grid(s.pv_spectral), e.grid.to_spectral(s.u), e.grid.to_spectral(e.args["noise"])],
    "filter_zonal": lambda e, s, o, k: e.grid.filter_zonal([s.pv, e.args["noise"]][k % 2], ["hann", "boxcar", e.args["window"]][k % 3], None if k % 3 == 2 else 500. / e.n),
    "filter_meridional": lambda e, s, o, k: e.grid.filter_meridional([s.pv, e.args["prof"]][k % 2], ["hann", "boxcar", e.args["window"]][k % 3], None if k % 3 == 2 else 500. / e.n),
    "interpolate_meridional": lambda e, s, o, k: e.grid.interpolate_meridional(e.args["v1"], e.args["x1"], pole_values=(0., 1.)),
    "region": lambda e, s, o, k: [e.region.extract(s.pv), e.region.mean(s.u), e.region.mask, e.region.lat, e.region.lon],
    "add_wind": lambda e, s, o, k: s.add_wind([o, (e.args["u"], e.args["v"])][k % 2]),
    "add_vorticity": lambda e, s, o, k: s.add_vorticity([o, e.args["vo"]][k % 2]),
    "run": lambda e, s, o, k: _steps(e, s, e.models[k % 3]),
    "steps": lambda e, s, o, k: _leap(e, s, e.models[k % 3]),
    "list.run": lambda e, s, o, k: e.list[:1] and bt.StateList([s]).run(e.models[k % 3], e.step(s), s.time + 2 * e.step(s)),
    "rhs": lambda e, s, o, k: [e.orography, e.relax, e.mountain, e.sum][k % 4](s),
    "orography": lambda e, s, o, k: [e.orography, e.mountain][k % 2].orography(e.grid),
    "as_dataset": lambda e, s, o, k: bt.io.as_dataset([s, s], [e.fields, ["pv", "v", "fawa"], "falwa"][k % 3], concat_dim=["time", "run_number"][k % 2]),
    "roundtrip": lambda e, s, o, k: bt.io.from_dataset(bt.io.as_dataset(s, ["u", "v"]), names=e.names, grid_kwargs=e.kw),
    "from_dataset": lambda e, s, o, k: bt.io.from_dataset(e.ds, grid_kwargs=e.kw),
    "hn2016": lambda e, s, o, k: (lambda f: [f.xlon, f.ylat, f.pv_field, bt.State.from_hn2016(e.grid, 0., f)])(s.as_hn2016()),
    "list ops": lambda e, s, o, k: [e.list + [s], list(e.list), e.list[0], len(e.list), e.list.map(lambda x, y: x.pv + y, 1.)],
    "copy": lambda e, s, o, k: [copy.copy(s), copy.deepcopy(s), pickle.loads(pickle.dumps(s))][k % 3],
    "repr": lambda e, s, o, k: [repr(s), repr(e.grid), repr(e.list), repr(e.models[0]), repr(e.region)],
    "hovmoeller": lambda e, s, o, k: bt.plot.hovmoellerify([s, s], lambda x: x.v[e.n // 3]),
    "levels": lambda e, s, o, k: bt.plot.symmetric_levels(s.v, 5),
    "roll_lon": lambda e, s, o, k: bt.plot.roll_lon(e.grid.lon, 37 * k)[0](s.pv),
    "reduce_vectors": lambda e, s, o, k: bt.plot.reduce_vectors(e.grid.lon2, e.grid.lat2, s.u, s.v, 3),
    "plot.summary": _plot("summary"), "plot.waveguides": _plot("waveguides"), "plot.wave_activity": _plot("wave_activity"),
}
PLOTS = [o for o in OPS if o.startswith("plot.")]
SCALES = {}

def flatten(x, out=None, name=""):
    """List of (name, array or plain value)"""
    out = [] if out is None else out
    if isinstance(x, bt.State):
        out.append((name + "time", x.time))
        out.append((name + "pv", np.asarray(x.pv)))
        out.append((name + "u", np.asarray(x.u)))
    elif isinstance(x, bt.StateList) or isinstance(x, (list, tuple)):
        out.append((name + "len", len(x)))
        for i, y in enumerate(x):
            flatten(y, out, f"{name}{i}.")
    elif hasattr(x, "data_vars"):
        for k in sorted(x.variables):
            out.append((name + k, x[k].values))
            out.append((name + k + ".dims", x[k].dims))
    elif isinstance(x, np.ndarray) or isinstance(x, np.generic):
        out.append((name, x))
    else:
        out.append((name, x))
    return out

def same(got, want, what):
    a, b = flatten(got), flatten(want)
    require([x[0] for x in a] == [x[0] for x in b], f"{what}: structure of the result")
    for (name, x), (_, y) in zip(a, b):
        if isinstance(y, (np.ndarray, np.generic)):
            x, y = np.asarray(x), np.asarray(y)
            require(x.shape == y.shape, f"{what}: shape {x.shape} of {name}")
            if y.dtype.kind in "fciu":
                fin = np.abs(y[np.isfinite(y)]) if y.size else np.zeros(0)
                tol = 1e-5 * max(np.max(fin), 1e-30) if fin.size else 1e-30
                # Same singularities
                bad = ~np.isfinite(y)
                require(np.array_equal(bad, ~np.isfinite(x)), f"{what}: finite values of {name}")
                z = np.where(bad, 0, x)
                close(z, np.where(bad, 0, y), tol, f"{what}", kind="fiubc")
            else:
                require(np.array_equal(x, y), f"{what}: {name}")
        else:
            require(x == y or x is y, f"{what}: {name} is {x!r} instead of {y!r}")

def arrays_of(x):
    return [(name, a) for name, a in flatten(x) if isinstance(a, np.ndarray)]

ops = st.sampled_from(FIELDS + [o for o in OPS if o not in PLOTS])

@st.composite
def histories(draw, plots=False):
    g = draw(G.grids(4, 12))
    nt = G.res_of(g)
    # Integrations read in common units only
    hist = draw(st.lists(st.tuples(ops, st.integers(0, 1), st.integers(0, 11)), min_size=1 if plots else 4, max_size=6 if plots else 14))
    if plots:
        hist.insert(draw(st.integers(0, len(hist))), (draw(st.sampled_from(PLOTS)), 0, draw(st.integers(0, 11))))
    return {"g": g, "flows": [draw(G.flows(nt)), draw(G.flows(nt))], "times": [draw(G.times()), draw(G.times())], "noise": draw(G.any_fields()),
            "ops": [list(h) for h in hist]}

def evaluate(e, op):
    name, i, k = op
    import warnings
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        # Lists of states with numbers and datetimes as time cannot be exported, all others can
        return OPS[name](e, e.states[i], e.states[1 - i], k)

@SUITE.test(histories(True), 40, 800, shards=8, name="plots_in_histories", rule="The same with a plot somewhere in the history.")
@SUITE.test(histories(), 800, 20000)
def histories_against_fresh(c):
    """Sequences of field reads, diagnostics, grid operations, arithmetic, integrations, exports, list operations, copies and plots
    on two shared states, grid, models, forcings and input arrays. Each result has to equal that of the same call on newly built
    objects, results handed out earlier and all inputs must not change, repeated calls give the same. Non-trivial with at least three
    different operations."""
    e = Env(c)
    names = [o[0] for o in c["ops"]]
    trivial(len(set(names)) < 3)
    label(*set(names))
    guard = e.guards()
    before = e.snapshot()
    held, fresh = [], {}
    for op in c["ops"]:
        what = op[0]
        got = evaluate(e, op)
        if tuple(op) not in fresh:
            fresh[tuple(op)] = evaluate(Env(c), op)
        same(got, fresh[tuple(op)], what)
        held.append((what, Guard(**{f"{k} {n}": a for k, (n, a) in enumerate(arrays_of(got))})))
        guard.check(what)
    for what, h in held:
        h.check(f"result of {what} after {names}")
    # Once more, in reverse order
    for op in reversed(c["ops"]):
        same(evaluate(e, op), fresh[tuple(op)], f"{op[0]} again")
    guard.check("repetition")
    require(e.snapshot() == before, "properties of shared objects changed")
    for x, f in zip(e.states, e.flows):
        t = 20 * B.tol(e.n, f.scale_pv)
        close(x.pv, f.pv, t, "pv of state at the end")
