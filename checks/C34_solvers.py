"""The spectral solvers compute the tendencies of the equations they state."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C34"
TECHNIQUE = "runtime monitoring: the real solvers run on random band-limited states while the monitor recomputes velocity, vorticity, divergence and every tendency pointwise from analytic derivatives on a finer reference grid, and watches trajectories for the conserved quantities"
NOTE = "ShallowWaterSolver and SphereSolver on all grids, truncations, radii, rotation rates; velocities, tendencies, steady states, time steps, conserved means, integrals; PdeDataset samples."
RULE = "distinct (what was compared, grid, truncation, sizes) situations"
LEVEL = "exploration"
ASSUMPTIONS = ["states are band-limited so that every product is resolved by the solver's grid", "the multistep weights of the second time step are not judged (they follow the solver the example was derived from)"]
ROUNDS = 4
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]
REQUIRED_EVENTS = ["velocity", "vrtdiv", "tendency", "gethuv", "solid-body", "steady", "euler", "mean-conserved", "inputs-kept", "integral", "pv", "random-ic", "galewsky", "sphere-tendency", "sphere-fixed", "dataset", "unknown-pde"]


def cases(rng, tier):
    for i in range(50 if tier == "quick" else 900):
        for kind in ("swe", "sphere"):
            big = 44 if tier == "quick" else 70
            nlat = gen.ri(rng, 14, big)
            L = gen.ri(rng, 3, max(4, nlat // 2 - 3))
            if kind == "swe":
                B = min(L, (nlat - 2 - L) // 2)  # degrees < B
            else:
                B = min(L, (nlat - L) // 3)
            M = gen.choice(rng, [L, L, max(2, L - 1), gen.ri(rng, 2, L)])
            nlon = max(gen.ri(rng, nlat, 2 * nlat), 3 * B + M + 2, 2 * M)
            if B < 2:
                continue
            yield {"k": kind, "nlat": nlat, "nlon": nlon, "L": L, "M": M, "B": min(B, M), "grid": gen.choice(rng, GRIDS), "radius": gen.choice(rng, [1.0, 6.37122e6, 2.5]), "omega": gen.choice(rng, [0.0, 7.292e-5, 0.7]), "dt": gen.choice(rng, [1.0, 60.0, 0.01]),
                   "coeff": gen.choice(rng, [0.001, 0.1, 1.0]), "pde": gen.choice(rng, ["allen-cahn", "ginzburg-landau"]), "u": int(rng.integers(10**6))}
    for i in range(12 if tier == "quick" else 80):
        yield {"k": "dataset", "nlat": gen.ri(rng, 12, 24), "nlon": 2 * gen.ri(rng, 12, 24), "grid": gen.choice(rng, GRIDS), "nsteps": gen.ri(rng, 1, 4), "n": gen.ri(rng, 1, 5), "norm": bool(i % 2), "ic": gen.choice(rng, ["random", "galewsky"]), "switch": rng.random() < 0.3, "u": int(rng.integers(10**6))}


class Grid:
    """reference grid with harmonics and their derivatives (unit sphere, no Condon-Shortley phase)"""

    def __init__(self, nlat, nlon, L, M, grid="legendre-gauss"):
        t, w = ref.colat(nlat, grid)
        self.t, self.w = t, w
        self.P, self.D, self.S = (x.astype(np.float64) for x in ref.alp(M, L, t, deriv=True))
        self.c, self.s = (x.astype(np.float64) for x in ref.dft_basis(nlon, M))
        self.m = np.arange(M)
        self.two = np.where(self.m == 0, 1.0, 2.0)
        self.q = np.repeat(np.asarray(w, np.float64)[:, None] * 2 * np.pi / nlon, nlon, 1)

    def _syn(self, a, T):
        g = np.einsum("lm,mlk->km", a, T) * self.two
        return g.real @ self.c - g.imag @ self.s

    def value(self, a):
        return self._syn(a, self.P)

    def grad(self, a):
        """(eastward, northward) derivative"""
        return self._syn(1j * a, self.S), -self._syn(a, self.D)

    def spec(self, f):
        g = (f * self.q) @ self.c.T - 1j * ((f * self.q) @ self.s.T)
        return np.einsum("km,mlk->lm", g, self.P)


def state(rng, L, M, B, scale=1.0):
    a = np.zeros((L, M), complex)
    for l in range(min(B, L)):
        for m in range(min(l + 1, M)):
            a[l, m] = (rng.standard_normal() + 1j * rng.standard_normal() * (m > 0)) / (1 + l)
    return a * scale


def T(a):
    return torch.tensor(a, dtype=torch.complex128)


def run(case, mon):
    if case["k"] == "dataset":
        return dataset(case, mon)
    return {"swe": swe, "sphere": sphere}[case["k"]](case, mon)


def swe(case, mon):
    from torch_harmonics.examples import ShallowWaterSolver

    rng = np.random.default_rng(case["u"])
    nlat, nlon, L, M, B, R, om = (case[k] for k in ("nlat", "nlon", "L", "M", "B", "radius", "omega"))
    sv = ShallowWaterSolver(nlat, nlon, case["dt"], lmax=L, mmax=M, grid=case["grid"], radius=R, omega=om).double()
    L = M = min(L, M)  # truncation is triangular
    mon.check(tuple(sv.lap.shape) == (L, M), "truncation", f"solver works at {tuple(sv.lap.shape)}, asked for {(L, M)}")
    tol = 1e-11
    l = np.arange(L)[:, None] * np.ones((1, M))
    lap = -l * (l + 1) / R**2
    V = 1.0  # velocity scale
    # streamfunction and potential: velocity is k x grad(psi) + grad(chi)
    psi, chi = state(rng, L, M, B, V * R), state(rng, L, M, B, V * R)
    psi[0], chi[0] = 0, 0
    phi = state(rng, L, M, B)
    phi[0, 0] += 10
    vrt, div = lap * psi, lap * chi
    st = (case["grid"], nlat, nlon, L, M, B)
    own = Grid(nlat, nlon, L, M, case["grid"])
    fine = Grid(3 * L + 4, 4 * (L + M) + 2, L, M)

    def vel(g):
        px, py = g.grad(psi)
        cx, cy = g.grad(chi)
        return np.stack([(-py + cx) / R, (px + cy) / R])

    uspec = np.stack([phi, vrt, div])
    U = T(uspec)
    keep = U.clone()
    uv = vel(own)
    mon.close(sv.getuv(U[1:]), torch.tensor(uv), tol, 0, "velocity", scale=np.abs(uv).max())
    mon.close(sv.vrtdivspec(torch.tensor(uv)), T(uspec[1:]), tol, 0, "vrtdiv", scale=np.abs(uspec[1:]).max())
    h = sv.gethuv(U)
    mon.close(h, torch.tensor(np.concatenate([own.value(phi)[None], uv])), tol, 0, "gethuv", scale=10 + np.abs(uv).max())
    # solid body rotation
    u0 = 3.0
    flow = np.stack([u0 * np.sin(np.asarray(own.t, np.float64))[:, None] * np.ones((1, nlon)), np.zeros((nlat, nlon))])
    z = sv.spec2grid(sv.vrtdivspec(torch.tensor(flow)))
    want = np.stack([2 * u0 / R * np.cos(np.asarray(own.t, np.float64))[:, None] * np.ones((1, nlon)), np.zeros((nlat, nlon))])
    mon.close(z, torch.tensor(want), tol, 0, "solid-body", scale=2 * u0 / R)
    # tendencies, pointwise on the fine grid
    g = fine
    cor = 2 * om * np.cos(np.asarray(g.t, np.float64))[:, None]
    u, v = vel(g)
    zeta, delta, ph = g.value(vrt), g.value(div), g.value(phi)
    qx, qy = (x / R for x in g.grad(vrt))
    qy = qy + 2 * om * np.sin(np.asarray(g.t, np.float64))[:, None] / R
    px, py = (x / R for x in g.grad(phi))
    q = zeta + cor
    dphi = g.spec(-(ph * delta + u * px + v * py))
    dvrt = g.spec(-(q * delta + u * qx + v * qy))
    ddiv = g.spec(q * zeta + qx * v - qy * u) - lap * g.spec(ph + 0.5 * (u * u + v * v))
    want = np.tril(np.stack([dphi, dvrt, ddiv]))
    got = sv.dudtspec(U)
    vm = np.hypot(u, v).max()
    size = [np.abs(ph).max() * vm / R, np.abs(q).max() * vm / R, (np.abs(q).max() * vm / R + L * L / R**2 * (np.abs(ph).max() + vm * vm))]
    for i, name in enumerate(("geopotential", "vorticity", "divergence")):
        mon.close(torch.tril(got[i]), T(want[i]), tol * L, 0, "tendency", key="tendency:" + name, scale=size[i])
    # the means of all three prognostic fields are conserved
    mon.check(float(got[:, 0, 0].abs().max()) <= 1e-12 * max(size), "mean-conserved", f"the global means drift: {got[:, 0, 0]}")
    mon.check(torch.equal(U, keep), "inputs-kept", "an evaluation modified the state")
    # one step: forward Euler followed by the damping of vorticity and divergence
    one = sv.timestep(U, 1)
    damp = np.exp(-case["dt"] / 7200.0 * (l * (l + 1) / (L * (L - 1.0))) ** 4)
    for i in range(3):
        w1 = uspec[i] + case["dt"] * want[i]
        if i:
            w1 = w1 * damp
        mon.close(torch.tril(one[i]), T(w1), tol * L, 0, "euler", key=f"euler:{i}", scale=np.abs(uspec[i]).max() + case["dt"] * size[i])
    mon.check(torch.equal(sv.timestep(U, 0), keep), "zero-steps", "zero steps changed the state")
    # an exact steady state of the nonlinear equations: solid body rotation in geostrophic balance
    if L >= 4:
        mu = np.cos(np.asarray(own.t, np.float64))[:, None] * np.ones((1, nlon))
        u0 = 0.3 * R
        gh = 1e3 * R * R - (R * om * u0 + u0 * u0 / 2) * mu**2
        W = np.stack([2 * u0 / R * mu, 0 * mu])
        S = torch.cat([sv.grid2spec(torch.tensor(gh)[None]), sv.grid2spec(torch.tensor(W))])
        d = sv.dudtspec(S)
        rate = u0 / R
        for i, sc in enumerate((1e3 * R * R * rate, rate * (rate + om), (1e3 + 1) * rate**2 * L * L + 1e3 * L * L)):
            mon.check(float(d[i].abs().max()) <= 1e-10 * sc, "steady", f"balanced rotation is not steady in field {i}: {float(d[i].abs().max())} (scale {sc})")
        dt = 0.01 / (rate * L * 100)  # well below the gravity wave limit
        s5 = ShallowWaterSolver(nlat, nlon, dt, lmax=L, mmax=M, grid=case["grid"], radius=R, omega=om).double()
        E = s5.timestep(S, 5)
        mon.close(E[0], S[0], 1e-9, 0, "steady", key="steady:run", scale=float(S[0].abs().max()))
        mon.check(abs(complex(E[0, 0, 0] - S[0, 0, 0])) <= 1e-12 * abs(complex(S[0, 0, 0])), "mean-conserved", "mass drifts along a trajectory")
    # a longer trajectory conserves mass and keeps the caller's state
    for _ in range(1):
        sub = ShallowWaterSolver(nlat, nlon, 1e-3 * R / (vm + 10), lmax=L, mmax=M, grid=case["grid"], radius=R, omega=om).double()
        E = sub.timestep(U, 4)
        mon.check(abs(complex(E[0, 0, 0] - U[0, 0, 0])) <= 1e-12 * abs(complex(U[0, 0, 0])), "mean-conserved", "mass drifts along a trajectory")
        mon.check(torch.equal(U, keep), "inputs-kept", "a time step modified the caller's state")
    # integrals and potential vorticity
    f = rng.standard_normal((2, nlat, nlon))
    for po in (0, 1, 2):
        for dl in (False, True):
            sl = slice(po, nlat - po)
            w = (f[:, sl] * own.q[sl]).sum((-2, -1)) * (1 if dl else R * R)
            mon.close(sv.integrate_grid(torch.tensor(f), dimensionless=dl, polar_opt=po), torch.tensor(w), 1e-11, 0, "integral", scale=20 * (1 if dl else R * R))
    if om > 0:
        pos = phi.copy()
        pos[0, 0] += 40 + 10 * np.abs(own.value(phi)).max()
        X = np.stack([pos, vrt, div])
        cor = 2 * om * np.cos(np.asarray(own.t, np.float64))[:, None]
        pv = 0.5 * 10.0e3 * 9.80616 / om * (own.value(vrt) + cor) / own.value(pos)
        mon.close(sv.potential_vorticity(T(X)), torch.tensor(pv), 1e-10, 0, "pv", scale=np.abs(pv).max())
    # initial conditions are states of the solver
    torch.manual_seed(case["u"])
    ic = sv.random_initial_condition(mach=0.2)
    ok = ic.shape == (3, L, M) and torch.isfinite(torch.view_as_real(ic)).all() and torch.equal(ic, torch.tril(ic)) and bool((torch.tril(ic).abs() > 0)[:, :, 0].all())
    mon.check(bool(ok), "random-ic", "the random state is not a full triangular spectrum")
    mon.check(abs(float(ic[0, 0, 0].real) - np.sqrt(4 * np.pi) * 9.80616e4) < 0.05 * np.sqrt(4 * np.pi) * 9.80616e4, "random-ic", f"the mean geopotential of the random state is {float(ic[0, 0, 0].real)}")
    if R > 1e3 and om > 0 and nlat >= 20:
        gc = sv.galewsky_initial_condition()
        uvg = sv.getuv(gc[1:])
        mon.check(bool(torch.isfinite(torch.view_as_real(gc)).all()), "galewsky", "non-finite initial state")
        mon.check(float(gc[2].abs().max()) <= 1e-9 * float(gc[1].abs().max()), "galewsky", "the jet is not free of divergence")
        mon.check(float(gc[1][:, 1:].abs().max()) <= 1e-9 * float(gc[1].abs().max()) if M > 1 else True, "galewsky", "the jet is not zonal")
        mon.check(float(uvg[1].abs().max()) <= 1e-8 * 80, "galewsky", "the jet has a meridional velocity")
        lat = 90 - np.degrees(np.asarray(own.t, np.float64))
        k = int(uvg[0, :, 0].abs().argmax())
        if L >= 16:
            mon.check(25 < lat[k] < 65 and float(uvg[0, k, 0]) > 40, "galewsky", f"the jet peaks at latitude {lat[k]:.1f} with {float(uvg[0, k, 0]):.1f} m/s")
    for name in ("swe",):
        mon.state(name, *st)


def sphere(case, mon):
    from torch_harmonics.examples import SphereSolver

    rng = np.random.default_rng(case["u"])
    nlat, nlon, L, M, B, R = (case[k] for k in ("nlat", "nlon", "L", "M", "B", "radius"))
    sv = SphereSolver(nlat, nlon, case["dt"], lmax=L, mmax=M, grid=case["grid"], radius=R, coeff=case["coeff"])
    L = M = min(L, M)  # truncation is triangular
    l = np.arange(L)[:, None] * np.ones((1, M))
    lap = -l * (l + 1) / R**2
    a = state(rng, L, M, B)
    g = Grid(2 * L + B + 4, 4 * (L + B) + 2, L, M)
    cube = g.spec(g.value(a) ** 3)
    A = T(a)
    keep = A.clone()
    if case["pde"] == "allen-cahn":
        want = case["coeff"] * lap * a + a - cube
    else:
        want = a + (1 + 2j) * (case["coeff"] * lap * a - cube)
    got = sv.dudtspec(A, pde=case["pde"])
    size = np.abs(a).max() * (1 + case["coeff"] * L * L / R**2) + np.abs(cube).max()
    mon.close(torch.tril(got), T(np.tril(want)), 1e-10, 0, "sphere-tendency", key="sphere:" + case["pde"], scale=size)
    mon.check(torch.equal(A, keep), "inputs-kept", "an evaluation modified the state")
    for c in (0.0, 1.0, -1.0):
        S = torch.zeros(L, M, dtype=torch.complex128)
        S[0, 0] = c * np.sqrt(4 * np.pi)
        d = sv.dudtspec(S, pde="allen-cahn")
        mon.check(float(d.abs().max()) < 1e-11, "sphere-fixed", f"the constant state {c} is not a fixed point of the Allen-Cahn equation: {float(d.abs().max())}")
    torch.manual_seed(1)
    r = sv.randspec()
    mon.check(tuple(r.shape) == (L, M) and r.is_complex(), "randspec", f"random spectrum of shape {tuple(r.shape)}")
    try:
        sv.dudtspec(A, pde="heat")
        mon.fail("unknown-pde", "an unknown equation was accepted")
    except Exception as e:
        mon.event("unknown-pde")
    mon.state("sphere", case["grid"], nlat, nlon, L, M, case["pde"])


def dataset(case, mon):
    from torch_harmonics.examples import PdeDataset

    torch.manual_seed(case["u"])
    ds = PdeDataset(dt=60.0 * case["nsteps"], nsteps=case["nsteps"], dims=(case["nlat"], case["nlon"]), grid=case["grid"], initial_condition="random" if case["switch"] else case["ic"], num_examples=1 if case["switch"] else case["n"], normalize=case["norm"])
    if case["switch"]:
        ds.set_initial_condition(case["ic"])
        ds.set_num_examples(case["n"])
    n = case["n"] if case["ic"] == "random" else 1
    mon.check(len(ds) == n, "dataset", f"length {len(ds)}, {n} asked for")
    for i in range(min(n, 2)):
        inp, tar = ds[i]
        flat = [c for c in range(3) if case["norm"] and case["ic"] == "galewsky" and not case["switch"] and inp.shape[0] == 3 and float(ds.inp_var[c]) == 0 and not bool(torch.isfinite(inp[c]).any())]
        if flat:  # a channel without variance: the known finding, judged on the other channels
            mon.defer(f"normalisation turns channel {flat} into NaN", "normalised-zero-variance")
            kept = [c for c in range(3) if c not in flat]
            mon.check(bool(torch.isfinite(inp[kept]).all() and torch.isfinite(tar[kept]).all()), "dataset", "a channel with variance is not finite")
            continue
        mon.check(tuple(inp.shape) == (3, case["nlat"], case["nlon"]) == tuple(tar.shape) and bool(torch.isfinite(inp).all() and torch.isfinite(tar).all()), "dataset", f"sample of shape {tuple(inp.shape)}/{tuple(tar.shape)}")
        if case["norm"]:
            inp, tar = (x.double() * ds.inp_var.double().sqrt() + ds.inp_mean.double() for x in (inp, tar))
        # the target is the state reached from the input after the requested time
        from torch_harmonics.examples import ShallowWaterSolver

        L = int(ds.solver.lmax)
        ref_sv = ShallowWaterSolver(case["nlat"], case["nlon"], 60.0, lmax=L, mmax=int(ds.solver.mmax), grid=case["grid"]).double()
        want = ref_sv.spec2grid(ref_sv.timestep(ref_sv.grid2spec(inp.double()), case["nsteps"]))
        for c in range(3):
            mon.close(tar[c].double(), want[c], 2e-3, 0, "dataset", key=f"dataset:{c}", scale=float((want[c] - want[c].mean()).abs().max()) + 1e-5 * float(want[c].abs().max()))
    mon.state("dataset", case["grid"], case["nlat"], case["nlon"], case["nsteps"], case["ic"], case["norm"])
