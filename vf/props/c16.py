"""C16 One model step is the documented discretization of the PV equation"""
import datetime
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
from .c13 import construct, HOW
import barotropic as bt

SUITE = Suite("C16")

rhs_spec = G.weighted((2, st.just(None)), (5, st.fixed_dictionaries({"kind": st.sampled_from(["const", "relax", "time", "sum", "switch", "class"]),
    "f": G.any_fields(), "amp": G.logu(0.01, 1.), "on": st.booleans()})))

@st.composite
def cases(draw):
    s = draw(G.states(2, 16, 36))
    nt = G.res_of(s["g"])
    diff = draw(G.weighted((1, st.just("off")), (4, st.just("on")), (1, st.just("default"))))
    return {"s": s, "old": draw(G.flows(nt)), "ratio": draw(st.sampled_from([1., 1., 0.3, 3.])), "how": draw(st.sampled_from(HOW)),
            "cfl": draw(G.logu(0.003, 3.)), "diff": diff, "mu": draw(G.logu(1e-3, 1e3)), "order": draw(st.integers(1, 5)),
            "bg": draw(G.weighted((1, st.just(None)), (1, G.any_fields()))), "bgdtype": draw(G.dtypes), "bglayout": draw(G.layouts),
            "rhs": draw(rhs_spec), "touch": draw(st.booleans()), "kw": draw(st.booleans()), "neg": draw(st.integers(0, 9)),
            "ra": draw(G.weighted((2, st.just(None)), (1, st.just(0.)), (3, G.uni(0.01, 0.5))))}


class Setup:
    def __init__(self, c):
        s = c["s"]
        g = self.g = s["g"]
        n, r = g["n"], B.rad(g)
        self.ref = B.Ref(g)
        self.grid = B.make_grid(g)
        self.f = B.flow_of(s)
        self.o = B.Flow(g, c["old"]["vo"], s["U"] * c["ratio"])
        u = max(np.max(np.hypot(self.f.u, self.f.v)), 1e-30)
        dt = float("%.4g" % (c["cfl"] * r / (n * u)))
        if not dt < 1e8:
            dt = 600.
        self.time = B.make_time(s["time"])
        if isinstance(self.time, datetime.datetime) and dt > 1e-3:
            self.dt = datetime.timedelta(seconds=dt)
            self.dts = self.dt.total_seconds()
        else:
            if isinstance(self.time, datetime.datetime):
                self.time = float(s["time"]["dt"])
            self.dt = int(dt) if dt > 100 and c["neg"] % 2 else dt
            # Smaller steps drown in the time
            if self.dt < 1e-6 * abs(self.time):
                self.time = 0.
            self.dts = float(self.dt)
        # Diffusion
        emax = max(self.ref.eig)
        self.order, self.coeff = c["order"], c["mu"] / self.dts / emax**c["order"] if emax > 0 else 0.
        kw = dict(diffusion_order=self.order, diffusion_coeff=self.coeff)
        if c["diff"] == "off":
            self.coeff = 0.
            kw["diffusion_coeff"] = 0
        elif c["diff"] == "default":
            self.order, self.coeff = 2, 1e15
            kw = {}
        self.qscale = max(self.f.scale_pv, self.o.scale_pv if c["old"]["vo"] else 0.)
        self.bg = None
        if c["bg"] is not None:
            self.bg = B.shape_array(B.field(n, c["bg"]) * self.qscale, c["bgdtype"], c["bglayout"])
            kw["diffusion_bg"] = self.bg
        # Forcing of similar size
        self.seen = []
        self.rhs, self.rfield, self.rscale = None, lambda q, t: 0., 0.
        self.guards = [] if self.bg is None else [self.bg]
        if c["rhs"] is not None:
            k, a = c["rhs"]["kind"], c["rhs"]["amp"] / self.dts
            field = B.field(n, c["rhs"]["f"]) * self.qscale
            self.rscale = (np.max(np.abs(field)) + self.qscale) * a * 2
            self.guards.append(field)
            forced = a * field
            self.guards.append(forced)
            const = lambda state: forced
            relax = bt.rhs.LinearRelaxation(a, field)
            rel = lambda q, t: a * (field - q)
            tnow = self.time
            def bytime(state):
                return forced * (1. if state.time == self.expect else 2.)
            end = self.time + 5 * self.dt if c["rhs"]["on"] else self.time - self.dt
            on = 1. if c["rhs"]["on"] else 0.
            class Term(bt.rhs.RHS):
                def __call__(self, state):
                    return forced - a * state.vorticity
            f2 = B.fcor2(g)
            self.rhs, self.rfield = {
                "const": (const, lambda q, t: forced),
                "relax": (relax, rel),
                "time": (bytime, lambda q, t: forced),
                "sum": (relax + const, lambda q, t: rel(q, t) + forced),
                "switch": (bt.rhs.TimedOffSwitch(end) * relax, lambda q, t: on * rel(q, t)),
                "class": (Term(), lambda q, t: forced - a * (q - f2)),
            }[k]
            label("rhs " + k)
        if self.rhs is not None:
            kw["rhs"] = self.rhs
        if c["kw"] or "diffusion_order" not in kw:
            self.model = bt.BarotropicModel(**kw)
        else:
            self.model = bt.BarotropicModel(kw.get("rhs"), kw["diffusion_order"], kw["diffusion_coeff"], kw.get("diffusion_bg"))

    def make(self, flow, how, time):
        return construct(how, self.grid, time, flow.pv, flow.vo, flow.u, flow.v, np.array)

    def tendency(self, flow, time):
        """Spectral tendency at the state, evaluated with pyspharm"""
        ref = self.ref
        qs = ref.spec(flow.pv)
        q = ref.grid(qs)
        u, v = ref.wind(qs - ref.spec(flow.f))
        flux = ref.vrtdiv(q * u, q * v)[1]
        # Rounding errors of PV create wind, too
        r = B.rad(self.g)
        noise = B.tol(self.g["n"], self.qscale) * r
        self.fscale = np.max(np.abs(q)) * (max(np.max(np.abs(u)), np.max(np.abs(v))) + noise) * self.g["n"] / r
        out = -flux
        self.expect = time
        f = self.rfield(q, time)
        if np.ndim(f):
            out = out + ref.spec(f)
        return qs, out

    def diffuse(self, c, dt):
        bg = 0. if self.bg is None else self.ref.spec(self.bg)
        return (c - bg) / (1. + dt * self.coeff * self.ref.eig**self.order) + bg

    def tol(self, dt):
        s = self.qscale + dt * (self.fscale + self.rscale)
        if self.bg is not None:
            s += np.max(np.abs(self.bg))
        return B.tol(self.g["n"], 2 * s)

def check(x, spec, ref, tol, what):
    require(isinstance(x, bt.State), f"{what}: not a State")
    close(x.pv_spectral, spec, tol, f"pv_spectral ({what})", kind="c")
    close(x.pv, ref.grid(spec), tol, f"pv ({what})")

def check_time(x, want, dts, what):
    if isinstance(want, datetime.datetime):
        require(x.time == want, f"{what}: time {x.time} instead of {want}")
    else:
        close(x.time, want, 1e-9 * (abs(want) + dts) + 1e-12, f"time ({what})")

@SUITE.test(cases(), 800, 20000, fine=(12, FINE))
def euler(c):
    """One Euler step from resolved flows of any strength with any time step, diffusion (orders 1 to 5, with background), forcing and
    kind of time, against the formula evaluated with pyspharm in spectral space."""
    x = Setup(c)
    trivial(not np.any(x.f.vo))
    label("diffusion " + c["diff"], "background" if x.bg is not None else "no background", type(x.time).__name__)
    state = x.make(x.f, c["how"], x.time)
    if c["touch"]:
        state.pv, state.u
    before = np.array(state.pv_spectral)
    guard = Guard(*x.guards)
    qs, ten = x.tendency(x.f, x.time)
    want = x.diffuse(qs + x.dts * ten, x.dts)
    tol = x.tol(x.dts)
    for what in ("euler", "euler again"):
        new = x.model.euler(state, x.dt)
        check(new, want, x.ref, tol, what)
        check_time(new, x.time + x.dt, x.dts, what)
        require(new.grid == x.grid, "grid after step")
    guard.check("euler")
    close(state.pv_spectral, before, 0., "state after euler", kind="c")
    require(state.time == x.time, "time of the initial state after euler")
    close(state.u, x.f.u, B.tol(x.g["n"], x.f.scale_u + x.f.scale_pv * B.rad(x.g)), "wind after euler")

@SUITE.test(cases(), 900, 20000, fine=(12, FINE))
def leapfrog(c):
    """One leapfrog step from two independent flows: tendency at the current state over twice the time difference from the old state,
    diffused over twice the step, and the filtered current state."""
    x = Setup(c)
    trivial(not np.any(x.f.vo) or c["ra"] == 0.)
    label("diffusion " + c["diff"], "filter " + ("default" if c["ra"] is None else "off" if c["ra"] == 0. else "on"), type(x.time).__name__)
    told = x.time
    tnow = x.time + x.dt
    dts = x.dts if isinstance(tnow, datetime.datetime) else tnow - told
    old, now = x.make(x.o, "pv", told), x.make(x.f, c["how"], tnow)
    if c["touch"]:
        old.u, now.pv, now.v
    before = np.array(old.pv_spectral), np.array(now.pv_spectral)
    guard = Guard(*x.guards)
    qs, ten = x.tendency(x.f, tnow)
    if c["rhs"] is not None and c["rhs"]["kind"] == "switch" and not c["rhs"]["on"]:
        label("switched off")
    qo = x.ref.spec(x.o.pv)
    new_s = x.diffuse(qo + 2 * dts * ten, 2 * dts)
    ra = 0.2 if c["ra"] is None else c["ra"]
    fil_s = qs + ra * (qo - 2 * qs + new_s)
    tol = x.tol(2 * dts)
    args = () if c["ra"] is None else (c["ra"],)
    kw = {"filter_parameter": args[0]} if args and c["kw"] else {}
    fil, new = x.model.leapfrog(old, now, **kw) if kw else x.model.leapfrog(old, now, *args)
    check(new, new_s, x.ref, tol, "leapfrog")
    check(fil, fil_s, x.ref, tol, "filter")
    check_time(new, tnow + (tnow - told), dts, "leapfrog")
    check_time(fil, tnow, dts, "filter")
    guard.check("leapfrog")
    for s, b, t in zip((old, now), before, (told, tnow)):
        close(s.pv_spectral, b, 0., "operand after leapfrog", kind="c")
        require(s.time == t, "time of operand after leapfrog")
    if c["ra"] is None:
        fil2, new2 = x.model.leapfrog(old, now, 0.2)
        check(fil2, fil_s, x.ref, tol, "explicit default filter")

@st.composite
def analytic_cases(draw):
    s = draw(G.states(6, 20, 40, trunc=False, max_atoms=3, low=None))
    n = s["g"]["n"]
    s["vo"] = draw(G.flows((n - 1) // 2))["vo"]
    return {"s": s, "cfl": draw(G.logu(0.01, 1.)), "leap": draw(st.booleans()), "old": draw(G.flows(n - 1))}

@SUITE.test(analytic_cases(), 400, fine=(16, FINE))
def analytic_tendency(c):
    """Advection of flows whose products are resolved, against closed-form derivatives (no spectral transforms involved)."""
    s = c["s"]
    g = s["g"]
    n, r = g["n"], B.rad(g)
    f = B.flow_of(s)
    trivial(not np.any(f.vo))
    state = B.make_state(dict(s, time={"t": 0.}))
    dqx, dqy = np.zeros_like(f.pv), np.repeat(2 * B.om(g) * np.cos(np.deg2rad(B.lats(n)))[:, None], 2 * n, axis=1)
    for a in s["vo"]:
        k = -s["U"] * r / a["n"] * a["n"] * (a["n"] + 1) / r**2
        dqx = dqx + k * B.sh_dlon(n, a)
        dqy = dqy + k * B.sh_dlat(n, a)
    ten = -(f.u * dqx + f.v * dqy) / r
    dt = c["cfl"] * r / (n * f.scale_u) if np.any(f.vo) else 600.
    # Rounding errors dominate otherwise
    if f.scale_u < 1e-3 * f.scale_pv * r:
        return trivial()
    dt = float("%.4g" % min(dt, 1e8))
    model = bt.BarotropicModel(diffusion_coeff=0.)
    flux = np.max(np.abs(f.pv)) * f.scale_u * n / r
    # Rounding errors of PV create wind
    flux += np.max(np.abs(f.pv)) * f.scale_pv * n
    if c["leap"]:
        o = B.Flow(g, c["old"]["vo"], s["U"])
        old = bt.State(state.grid, -dt, pv=o.pv)
        fil, new = model.leapfrog(old, state)
        tol = B.tol(n, 2 * (f.scale_pv + o.scale_pv + 2 * dt * flux))
        want = o.pv + 2 * dt * ten
        close(new.pv, want, tol, "leapfrog (analytic)")
        close(fil.pv, f.pv + 0.2 * (o.pv + want - 2 * f.pv), tol, "filter (analytic)")
    else:
        new = model.euler(state, dt)
        close(new.pv, f.pv + dt * ten, B.tol(n, 2 * (f.scale_pv + dt * flux)), "euler (analytic)")

@st.composite
def shared(draw):
    g = draw(G.grids(3, 12, 20))
    others = []
    for _ in range(draw(st.integers(1, 3))):
        others.append(dict(g, **draw(st.fixed_dictionaries({}, optional={"nt": st.one_of(st.none(), st.integers(1, g["n"])),
            "r": st.sampled_from([6371200., 3.4e6, 1e7]), "om": st.sampled_from([7.292e-5, -2e-5, 0., 1.2e-4])}))))
    return {"g": [g] + others, "f": [draw(G.any_fields()) for _ in range(3)], "amp": draw(st.lists(G.logu(0.1, 10.), min_size=4, max_size=4)),
            "bg": draw(G.weighted((1, st.just(None)), (3, G.any_fields()))), "rhs": draw(G.weighted((1, st.just(None)), (2, G.any_fields()))),
            "mu": draw(G.logu(1e-2, 1e2)), "order": draw(st.integers(1, 3)), "dts": draw(st.lists(st.sampled_from([300., 600., 900.]), min_size=2, max_size=3)),
            "ops": draw(st.lists(st.fixed_dictionaries({"k": st.integers(0, 3), "f": st.integers(0, 2), "o": st.integers(0, 2), "dt": st.integers(0, 2),
                "leap": st.booleans(), "ra": st.sampled_from([0.2, 0., 0.1])}), min_size=2, max_size=6)),
            "edit": draw(st.booleans())}

@SUITE.test(shared(), 250)
def shared_model(c):
    """One model takes Euler and leapfrog steps with changing time steps and filter parameters on grids of one shape with different
    truncation, radius and rotation, with changed attributes in between: every step equals that of a new model with the same parameters."""
    om = 7e-5
    specs = c["g"]
    n = specs[0]["n"]
    grids = [B.make_grid(g) for g in specs]
    bg = None if c["bg"] is None else B.field(n, c["bg"]) * om
    rhs = None if c["rhs"] is None else bt.rhs.LinearRelaxation(1e-5, B.field(n, c["rhs"]) * om)
    coeff = c["mu"] * 1e-5 * (6.4e6 / n)**(2 * c["order"]) / (c["order"]**2)
    fields = [B.field(n, f) * om * c["amp"][i] for i, f in enumerate(c["f"])]
    trivial(not any(np.ptp(f) > 0 for f in fields) or len({o["k"] % len(grids) for o in c["ops"]}) < 2)
    label("background" if bg is not None else "no background")
    make = lambda order: bt.BarotropicModel(rhs, order, coeff, bg)
    model, order = make(c["order"]), c["order"]
    for i, o in enumerate(c["ops"]):
        grid = grids[o["k"] % len(grids)]
        dt = c["dts"][o["dt"] % len(c["dts"])]
        old, now = bt.State(grid, 0., pv=fields[o["f"]]), bt.State(grid, dt, pv=fields[o["o"]])
        if c["edit"] and i == 2:
            order = model.diffusion_order = 1 + c["order"] % 3
            coeff = model.diffusion_coeff = coeff * 1e-3
        fresh = make(order)
        if o["leap"]:
            got, want = model.leapfrog(old, now, o["ra"]), fresh.leapfrog(old, now, o["ra"])
        else:
            got, want = (model.euler(old, dt),), (fresh.euler(old, dt),)
        for x, y in zip(got, want):
            close(x.pv_spectral, y.pv_spectral, 1e-6 * np.max(np.abs(y.pv_spectral)) + 1e-30, "step of a used model", kind="c")
            require(x.time == y.time, "time of the step of a used model")
            require(x.grid is grid or x.grid == grid, "grid of the step of a used model")
