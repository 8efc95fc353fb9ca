"""C02 Grid identity: equality and hashing are consistent"""
import numpy as np
from hypothesis import strategies as st
from .. import build as B, gen as G
from ..core import *
import barotropic as bt

SUITE = Suite("C02")

@st.composite
def pairs(draw):
    g = draw(G.grids(2, 14))
    h = dict(g)
    same = True
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(["n", "nt", "ntfull", "r", "om", "eps_r", "eps_om", "sign", "lf", "zero", "slow"]))
        if kind == "n":
            h["n"] = draw(st.integers(2, 14))
            if h["nt"] is not None:
                h["nt"] = min(h["nt"], h["n"])
        elif kind == "nt":
            h["nt"] = draw(st.integers(1, h["n"]))
        elif kind == "ntfull":
            h["nt"] = None if h["nt"] == h["n"] else h["n"]
        elif kind == "r":
            h["r"] = h["r"] * (1 + draw(st.sampled_from([1e-3, -1e-3, 0.1, 1., 1e-4])))
        elif kind == "om":
            h["om"] = h["om"] * (1 + draw(st.sampled_from([1e-3, -1e-3, 0.1, 1., 1e-4])))
        elif kind == "eps_r":
            h["r"] = h["r"] * (1 + draw(st.sampled_from([1e-15, -1e-12, 1e-9])))
        elif kind == "eps_om":
            h["om"] = h["om"] * (1 + draw(st.sampled_from([1e-15, -1e-12, 1e-9])))
        elif kind == "sign":
            h["om"] = -h["om"]
        elif kind == "lf":
            h["lf"] = "computed" if h["lf"] == "stored" else "stored"
        elif kind == "zero":
            h["om"] = 0.
        elif kind == "slow":
            g["om"] = draw(G.logu(1e-10, 1e-7))
            h["om"] = g["om"] * draw(st.sampled_from([1., 1.01, 2., 0.5]))
    return {"g": g, "h": h, "res": draw(st.sampled_from(["exact", "f32"]))}

def same_number(a, b):
    """True, False or None if between rounding and difference"""
    d = 0. if a == b else abs(a - b) / max(abs(a), abs(b))
    return True if d <= 2e-8 else (False if d >= 5e-5 else None)

@SUITE.test(pairs(), 1500)
def equality(c):
    """Pairs of grids differing in none, one or several of shape, truncation, radius, rotation rate (by rounding or
    by at least 1e-4 relative), Legendre mode."""
    g, h = c["g"], c["h"]
    a = B.make_grid(g)
    b = bt.Grid(resolution=np.float32(180. / h["n"]) if c["res"] == "f32" else 180. / h["n"], **B.grid_kwargs(h))
    parts = [g["n"] == h["n"], B.nt(g) == B.nt(h), same_number(g["r"], h["r"]), same_number(g["om"], h["om"])]
    want = False if False in parts else (None if None in parts else True)
    if want is None:
        # Left open, but has to be consistent
        trivial()
        require((a == b) == (b == a) and (a == b) != (a != b), "symmetry of ==")
        require(not (a == b) or hash(a) == hash(b), "equal grids with different hashes")
        return
    label("equal" if want else "different", "differ in legfunc" if g["lf"] != h["lf"] else "same legfunc")
    for x, y in ((a, b), (b, a)):
        require(bool(x == y) == want, lambda: f"== gives {x == y} for {g} and {h}")
        require(bool(x != y) == (not want), "!= is not the negation of ==")
    require(bool(a == a) and hash(a) == hash(a), "grid equals itself")
    twin = B.make_grid(g)
    require(bool(twin == a) and hash(twin) == hash(a), "identically constructed grid is equal with equal hash")
    if want:
        require(hash(a) == hash(b), lambda: f"equal grids with different hashes: {g} and {h}")
    require((b in {a: 1}) == want and len({a, b}) == (1 if want else 2), "use in dictionaries and sets")
    require(([a, twin].index(twin)) == 0, "use in lists")


@SUITE.test(st.fixed_dictionaries({"g": G.grids(2, 6), "x": st.sampled_from(["int", "none", "str", "tuple", "state", "obj"])}), 60)
def other_types(c):
    """Comparison with objects that are not grids."""
    a = B.make_grid(c["g"])
    x = {"int": 5, "none": None, "str": "grid", "tuple": a.shape, "obj": object(),
         "state": bt.init.motionless(a)}[c["x"]]
    require((a == x) is False or bool(a == x) is False, "equal to another type")
    require(bool(a != x), "not unequal to another type")


OPS = ["wind", "laplace", "poisson", "diffusion", "gradient", "area", "mean", "quad", "zonalize", "eqlat",
       "orography", "region", "window", "fcor", "deriv", "roundtrip", "falwa", "ks", "state"]

@st.composite
def histories(draw):
    n = draw(st.integers(4, 9))
    g0 = draw(G.grids(n, n))
    grids = [g0]
    for _ in range(draw(st.integers(1, 3))):
        h = dict(draw(st.sampled_from(grids)))
        for kind in draw(st.lists(st.sampled_from(["r", "om", "nt", "lf", "n"]), min_size=1, max_size=2)):
            if kind == "r":
                h["r"] = draw(G.radius)
            elif kind == "om":
                h["om"] = draw(G.omega)
            elif kind == "nt":
                h["nt"] = draw(st.integers(2, h["n"]))
            elif kind == "lf":
                h["lf"] = draw(st.sampled_from(["stored", "computed"]))
            else:
                h["n"] = draw(st.integers(4, 9))
                h["nt"] = None
        grids.append(h)
    deg = draw(st.integers(1, 3))
    atom = {"t": "sh", "n": deg, "m": draw(st.integers(0, deg)), "a": 1., "p": draw(st.integers(0, 23)) * 15}
    steps = draw(st.lists(st.tuples(st.integers(0, len(grids) - 1), st.sampled_from(OPS)), min_size=3, max_size=14))
    return {"grids": grids, "atom": atom, "steps": [list(s) for s in steps], "late": draw(st.booleans())}

@SUITE.test(histories(), 500)
def no_leakage(c):
    """2-4 grids that share some parameters, operations interleaved between them in random order, every result
    against its closed form for that grid alone (shared caches would surface)."""
    made = {}
    gm = bt.rhs.GaussianMountain(1000., (90., 30.), (20., 20.), wind=("sbr", 10.))
    def grid_of(i):
        if i not in made:
            made[i] = B.make_grid(c["grids"][i])
        return made[i]
    if not c["late"]:
        for i in range(len(c["grids"])):
            grid_of(i)
    trivial(len({i for i, _ in c["steps"]}) < 2)
    for i, op in c["steps"]:
        g = c["grids"][i]
        grid = grid_of(i)
        n, r, om = g["n"], g["r"], g["om"]
        atom = dict(c["atom"])
        atom["n"] = min(atom["n"], B.res(g))
        atom["m"] = min(atom["m"], atom["n"])
        one_operation(g, grid, op, atom, gm)

def one_operation(g, grid, op, atom, gm):
    n, r, om = g["n"], g["r"], g["om"]
    d = atom["n"]
    f = B.sh(n, atom)
    t = B.tol(n)
    ev = -d * (d + 1) / r**2
    what = f"{op} [grid {g}]"
    if op == "wind":
        flow = B.Flow(g, [atom], 10.)
        u, v = grid.wind(flow.vo, np.zeros_like(flow.vo))
        close(u, flow.u, t * flow.scale_u, what)
        close(v, flow.v, t * flow.scale_u, what)
        close(grid.vorticity(flow.u, flow.v), flow.vo, t * max(flow.scale_vo, flow.scale_u * n / r), what)
    elif op == "laplace":
        close(grid.laplace(f), ev * f, t * n**2 / r**2, what)
    elif op == "poisson":
        close(grid.solve_poisson(f), f / ev, t / abs(ev), what)
        close(grid.solve_poisson(f, 3. / r**2), f / (ev - 3. / r**2), t / abs(ev), what)
    elif op == "diffusion":
        close(grid.solve_diffusion(f, coeff=r**2, dt=1.), f / (1 + d * (d + 1)), t, what)
        close(grid.solve_diffusion(f, coeff=0.1 * r**4, dt=2., order=2), f / (1 + 0.2 * (d * (d + 1))**2), t, what)
    elif op == "gradient":
        gx, gy = grid.gradient(f)
        close(gx, B.sh_dlon(n, atom) / r, t * n / r, what)
        close(gy, B.sh_dlat(n, atom) / r, t * n / r, what)
    elif op == "area":
        close(grid.gridpoint_area, B.cell_area(g), 1e-9 * r**2, what)
    elif op == "mean":
        w = B.cell_area(g)[:, None]
        close(grid.mean(f), np.sum(w * f) / np.sum(w) / (2 * n), 1e-9, what)
    elif op == "quad":
        close(grid.quad(f), np.sum(B.line_integral(g, f)) * r * np.pi / n, 1e-9 * r**2, what)
        close(grid.quad(f, f, "boxcount"), np.sum(B.line_integral(g, f, f, "boxcount")) * r * np.pi / n, 1e-9 * r**2, what)
    elif op == "zonalize":
        lat = B.mesh(n)[1]
        q, y = grid.zonalize(lat, levels=np.asarray([30., 0., -45.]), interpolate=False)
        close(y, [30., 0., -45.], 1e-6, what)
    elif op == "eqlat":
        close(grid.equivalent_latitude(np.asarray([1., 2.]) * np.pi * r**2), [30., 0.], 1e-6, what)
    elif op == "orography":
        lon, lat = B.mesh(n)
        h = 1000. * np.exp(-0.5 * (((lon - 90 + 180) % 360 - 180)**2 + (lat - 30)**2) / 400.)
        ref = B.Ref(g)
        gx, gy = ref.grad(h)
        state = bt.init.motionless(grid)
        want = -B.fcor2(g) / 10000. * 10. * np.cos(np.deg2rad(lat)) * gx
        close(gm(state), want, t * max(np.max(np.abs(want)), abs(om) / 1000. * 1000. / r * 10 * 1e-3) + 1e-30, what)
    elif op == "region":
        reg = grid.region[90:200, "N"]
        lon, lat = B.lons(n), B.lats(n)
        close(reg.lon, lon[(lon >= 90) & (lon <= 200)], 1e-9, what)
        close(reg.lat, lat[lat >= -1e-9], 1e-9, what)
    elif op == "window":
        w = arr(grid.get_filter_window("boxcar", 5.2 * 180. / n), what)
        close(w, np.full(5, 0.2), 1e-12, what)
    elif op == "fcor":
        close(grid.fcor2, B.fcor2(g), 1e-12 * abs(om) + 1e-300, what)
        close(grid.to_grid(grid.fcor2_spectral), B.fcor2(g), t * abs(2 * om) + 1e-300, what)
    elif op == "deriv":
        close(grid.derivative_meridional(np.sin(grid.phi)), B.deriv(n, np.sin(np.deg2rad(B.lats(n))), 4, False), 1e-9, what)
    elif op == "roundtrip":
        hi = {"t": "sh", "n": n - 1, "m": 1, "a": 1., "p": 0}
        want = f + (B.sh(n, hi) if B.nt(g) >= n - 1 else 0.)
        close(grid.to_grid(grid.to_spectral(f + B.sh(n, hi))), want, t, what)
    elif op == "falwa":
        lat = B.mesh(n)[1]
        close(bt.diagnostics.falwa(lat, grid), np.zeros_like(lat), 1e-5 * r, what)
    elif op == "ks":
        u = 10. * np.cos(np.deg2rad(B.lats(n))) + 5.
        cos = np.cos(np.deg2rad(B.lats(n)))
        pv = B.fcor(g) - B.deriv(n, u * cos, 4, False) / r / cos
        want = cos**2 * r * B.deriv(n, pv, 4, False) / u
        close(bt.diagnostics.stationary_wavenumber(u, grid, kind="squared"), want,
              1e-9 * max(np.max(np.abs(want)), 1.), what)
    elif op == "state":
        flow = B.Flow(g, [atom], 10.)
        s = bt.State.from_vorticity(grid, 0., flow.vo)
        close(s.pv, flow.pv, t * flow.scale_pv, what)
        # Rounding of PV leaves rounding in wind
        close(s.u, flow.u, t * (flow.scale_u + flow.scale_pv * r), what)
        close(s.streamfunction, flow.psi, t * (flow.scale_psi + flow.scale_pv * r**2), what)

@SUITE.test(st.fixed_dictionaries({"grids": st.lists(G.grids(3, 9), min_size=12, max_size=60), "same": st.booleans(), "ops": st.lists(st.sampled_from(OPS), min_size=1, max_size=3),
        "back": st.integers(0, 59)}), 20)
def many_grids(c):
    """12 to 60 grids which exist at the same time; operations on each in turn, and then on some of the first ones and new equal ones again."""
    specs = [dict(g, n=7, nt=None if g.get("nt") is None else min(g["nt"], 7)) if c["same"] else g for g in c["grids"]]
    made = [B.make_grid(g) for g in specs]
    gm = bt.rhs.GaussianMountain(1000., (90., 30.), (20., 20.), wind=("sbr", 10.))
    def visit(g, grid, op):
        if g["n"] < 4 and op in ("deriv", "falwa", "ks", "state", "roundtrip"):
            return
        d = min(2, B.res(g))
        one_operation(g, grid, op, {"t": "sh", "n": d, "m": min(1, d), "a": 1., "p": 0}, gm)
    for op in c["ops"]:
        for g, grid in zip(specs, made):
            visit(g, grid, op)
    k = c["back"] % len(made)
    for g, grid in [*zip(specs[:3], made[:3]), *zip(specs[k:k+2], made[k:k+2])]:
        for op in c["ops"]:
            visit(g, grid, op)
            visit(g, B.make_grid(g), op)
    require(all((a == b) == (b == a) for a in made[:8] for b in made[-8:]), "symmetry of ==")
