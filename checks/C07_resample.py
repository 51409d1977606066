"""C07: resampling between grids."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C07"
TECHNIQUE = "runtime monitor: every output point compared with the interpolant evaluated point by point by the harness; node-reproduction, partition-of-unity, seam, pole and adjoint-gradient monitors"
NOTE = "Held on every pair of grids and field executed; interpolation weights are single precision by design, so agreement is to about 1e-6 of the local value range."
RULE = "a case is (input grid/size, output grid/size, mode, leading shape, field kind); distinct by that tuple; non-trivial when at least one output point lies strictly between nodes or at a pole"
LEVEL = "exploration"
ASSUMPTIONS = ["spherical mode: pairs whose sine of the difference is within a factor 4 of the 1e-4 switch-over are not compared"]
ROUNDS = 4
REQUIRED_EVENTS = ["interpolant", "constant", "coinciding", "partition", "grad", "mirror", "finite_grad"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


def cases(rng, tier):
    n = 420 if tier == "quick" else 5000
    for i in range(n):
        g1, g2 = gen.choice(rng, GRIDS), gen.choice(rng, GRIDS)
        a, b = gen.grid_size(rng)
        c, d = gen.grid_size(rng)
        u = rng.random()
        if u < 0.2:
            c, d = 2 * a, 2 * b
        elif u < 0.3:
            c, d = 2 * a - 1, b
        elif u < 0.4:
            c, d, g2 = a, b, g1
        elif u < 0.5 and a % 2 == 0 and b % 2 == 0:
            c, d = max(2, a // 2), max(1, b // 2)
        elif u < 0.55:
            c, d = a, b
        elif u < 0.6:
            c, d = a, 3 * b
        if i % 84 == 5:
            a, b, c, d = [gen.choice(rng, [60, 91, 128, 181, 257]) for _ in range(4)]
        yield {"in": [a, b, g1], "out": [c, d, g2], "mode": "bilinear" if rng.random() < 0.6 else "bilinear-spherical", "lead": gen.leading(rng), "dtype": "float32" if rng.random() < 0.2 else "float64",
               "field": ["random", "random", "ramp", "spike", "const", "steps"][int(rng.integers(6))], "u": i}


def bracket(nodes, pts, tol=1e-12):
    """index of the left node and the fraction, with nodes covering pts"""
    i = np.searchsorted(nodes, pts, side="right") - 1
    i = np.clip(i, 0, len(nodes) - 2)
    fr = (pts - nodes[i]) / (nodes[i + 1] - nodes[i])
    return i, np.clip(fr, 0, 1)


def mix(a, b, w, mode):
    """returns value and a validity mask"""
    if mode == "bilinear":
        return (1 - w) * a + w * b, np.ones(np.broadcast(a, b).shape, bool)
    om = b - a
    so = np.sin(om)
    use = np.abs(so) > 1e-4
    safe = np.where(use, so, 1)
    v = np.where(use, (np.sin((1 - w) * om) * a + np.sin(w * om) * b) / safe, (1 - w) * a + w * b)
    return v, ~((np.abs(so) > 2.5e-5) & (np.abs(so) < 4e-4))


def interp(x, cin, cout, mode):
    nlat, nlon, g = cin
    t, _ = ref.colat(nlat, g)
    to, _ = ref.colat(cout[0], cout[2])
    if g == "legendre-gauss":
        t = np.concatenate([[ref.LD(0)], t, [ref.PI]])
        north = np.broadcast_to(x[..., :1, :].mean(-1, keepdims=True), x[..., :1, :].shape)
        south = np.broadcast_to(x[..., -1:, :].mean(-1, keepdims=True), x[..., -1:, :].shape)
        x = np.concatenate([north, x, south], -2)
    i, w = bracket(t, to)
    y, ok1 = mix(x[..., i, :], x[..., i + 1, :], w[:, None], mode)
    lo = ref.lons(cout[1]) * nlon / (2 * ref.PI)
    # exact rational bracket
    num = np.arange(cout[1]) * nlon
    j = num // cout[1]
    fr = ((num % cout[1]).astype(ref.LD)) / cout[1]
    y2, ok2 = mix(y[..., j % nlon], y[..., (j + 1) % nlon], fr, mode)
    return y2, ok2 & ok1[..., j % nlon] & ok1[..., (j + 1) % nlon]


def run(case, mon):
    import torch_harmonics as th

    a, b, g1 = case["in"]
    c, d, g2 = case["out"]
    dt = getattr(torch, case["dtype"])
    mode, lead = case["mode"], case["lead"]
    r = th.ResampleS2(a, b, c, d, grid_in=g1, grid_out=g2, mode=mode)
    k = case["field"]
    x = torch.rand(*lead, a, b, dtype=torch.float64) * 1.4 - 0.7
    if k == "ramp":
        x = torch.linspace(-1, 1, a, dtype=torch.float64)[:, None] * 0.5 + 0.3 * torch.cos(torch.arange(b) * 6.2831853 / b) + torch.zeros(*lead, a, b, dtype=torch.float64)
    elif k == "spike":
        x = torch.zeros(*lead, a, b, dtype=torch.float64)
        x[..., int(torch.randint(a, ())), int(torch.randint(b, ()))] = 0.9
    elif k == "const":
        x = torch.full((*lead, a, b), 0.37, dtype=torch.float64)
    elif k == "steps":
        x = torch.round(x * 2) / 2
    if g1 != "legendre-gauss":  # a pole is one point: single valued
        x[..., 0, :] = x[..., 0, :1]
        x[..., -1, :] = x[..., -1, :1]
    x = x.to(dt)
    x0 = x.clone()
    xr = x.clone().requires_grad_(True)
    y = r(xr)
    mon.check(tuple(y.shape) == tuple(lead) + (c, d), "shape", f"{tuple(y.shape)}")
    mon.check(y.dtype == dt, "dtype", f"{y.dtype}")
    want, ok = interp(x.double().numpy().astype(ref.LD), case["in"], case["out"], mode)
    tol = 6e-7 if dt == torch.float64 else 3e-6
    got = y.detach().double()
    okt = torch.from_numpy(np.broadcast_to(ok, want.shape).copy())
    mon.event("skipped_points", int((~okt).sum()))
    mon.close(torch.where(okt, got, torch.zeros_like(got)), torch.where(okt, ref.tens(want), torch.zeros_like(got)), 0, tol, "interpolant")
    mon.state(a, b, g1, c, d, g2, mode, len(lead), k, case["dtype"])
    # constants
    kc = torch.full((a, b), -0.81, dtype=dt)
    mon.close(r(kc), torch.full((c, d), -0.81, dtype=dt), 0, 3e-7, "constant")
    # values at coinciding nodes
    to, _ = ref.colat(c, g2)
    ti, _ = ref.colat(a, g1)
    hits = 0
    for p in range(c):
        q = int(np.argmin(np.abs(ti - to[p])))
        if abs(ti[q] - to[p]) < 1e-13:
            for s in range(d):
                if (s * b) % d == 0:
                    hits += 1
                    e = (y[..., p, s].detach().double() - x0[..., q, s * b // d].double()).abs().max()
                    if not float(e) <= 3e-6:
                        mon.fail(f"output node ({p},{s}) coincides with input node ({q},{s * b // d}) but differs by {float(e):.2e}", "coinciding")
    if hits:
        mon.event("coinciding", hits)
    up = torch.randn(*lead, c, d, dtype=torch.float64)
    (gx,) = torch.autograd.grad(y, xr, up.to(dt))
    mon.check(bool(torch.isfinite(gx).all()), "finite_grad", "gradient is not finite")
    if mode == "bilinear":
        # matrix of the operator, column by column, from basis fields
        if a * b <= 220:
            I = torch.eye(a * b, dtype=torch.float64).reshape(a * b, a, b)
            Mx = r(I).reshape(a * b, c * d)
            mon.check(float(Mx.min()) >= -1e-7, "partition", f"negative interpolation weight {float(Mx.min())}")
            mon.close(Mx.sum(0), torch.ones(c * d, dtype=torch.float64), 0, 1e-6, "partition")
            mon.close(gx.double().reshape(*lead, a * b), up.reshape(*lead, c * d) @ Mx.T, 1e-6 if dt == torch.float64 else 1e-5, 1e-6, "grad")
    elif dt == torch.float64 and k in ("random", "ramp"):
        v = torch.randn_like(x)
        h = 1e-5
        fp, fm = r(x + h * v), r(x - h * v)
        num = ((fp - fm) / (2 * h) * up).sum()
        if bool(okt.all()):
            mon.close((gx * v).sum(), num, 0, 1e-5 * (1 + float((gx * v).abs().sum())), "grad")
    # north-south and east-west mirror images commute with resampling
    mon.close(r(torch.flip(x, (-2,))), torch.flip(y, (-2,)), 0, 2 * tol, "mirror")
    xm = torch.roll(torch.flip(x, (-1,)), 1, -1)
    mon.close(r(xm), torch.roll(torch.flip(y.detach(), (-1,)), 1, -1), 0, 2 * tol, "mirror")
