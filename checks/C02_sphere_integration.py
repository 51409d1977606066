"""C02: integration over the sphere."""
import math
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C02"
TECHNIQUE = "runtime monitor comparing the module's outputs and gradients with an independently computed weighted sum, plus exactness, rotation and linearity monitors"
NOTE = "Held on every configuration and field executed; weights are single precision by design, so agreement is to 2e-7 relative to the absolute weighted sum."
RULE = "a case is (grid, size, normalisation, leading shape, dtype, field kind); distinct by (grid, nlat parity/size class, nlon, normalisation, dims, field kind)"
LEVEL = "exploration"
ASSUMPTIONS = ["single-precision weights are documented behaviour of the module"]
ROUNDS = 4
REQUIRED_EVENTS = ["weighted_sum", "exact_harmonics", "rotation", "gradient", "shape", "undefined"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


def cases(rng, tier):
    n = 260 if tier == "quick" else 3000
    for i in range(n):
        nlat, nlon = gen.grid_size(rng, big=(i % 29 == 0))
        if i % 52 == 7:
            nlat, nlon = gen.choice(rng, [(181, 360), (257, 511), (360, 720), (721, 1440), (300, 7), (5, 900)])
        yield {"grid": GRIDS[i % 4], "nlat": nlat, "nlon": nlon, "norm": bool(rng.integers(2)), "lead": [[], [3], [2, 3], [2, 1, 2], [1, 1, 2, 2]][i % 5],
               "dtype": ["float64", "float32"][int(rng.random() < 0.3)], "u": i, "sx": gen.choice(rng, gen.SPECIAL)}


def weights(grid, nlat, nlon, norm):
    _, w = ref.colat(nlat, grid)
    W = np.repeat(w[:, None] * 2 * ref.PI / nlon, nlon, 1)
    return W / (4 * ref.PI) if norm else W


def run(case, mon):
    import torch_harmonics as th

    g, nlat, nlon, lead = case["grid"], case["nlat"], case["nlon"], case["lead"]
    dt = getattr(torch, case["dtype"])
    q = th.QuadratureS2((nlat, nlon), grid=g, normalize=case["norm"])
    W = ref.tens(weights(g, nlat, nlon, case["norm"]))
    x = torch.randn(*lead, nlat, nlon, dtype=torch.float64)
    if case["u"] % 7 == 0:
        x = x * 10 ** torch.empty(nlat, nlon, dtype=torch.float64).uniform_(-6, 6)
    if case["u"] % 11 == 0 and lead:  # one hot entries: every weight seen individually
        x = torch.zeros_like(x)
        x.view(-1)[torch.randint(x.numel(), (5,))] = 1.0
    x = gen.special(x, case.get("sx"), case["u"]).to(dt).requires_grad_(True)
    y = q(x)
    mon.check(tuple(y.shape) == tuple(lead), "shape", f"integral of a field {tuple(x.shape)} has shape {tuple(y.shape)}, expected {tuple(lead)}", key="shape")
    mon.check(y.dtype == dt, "dtype", f"{y.dtype} for input {dt}")
    tol = 2e-7 if dt == torch.float64 else 4e-7 + 2e-7 * math.sqrt(nlat * nlon)
    want = (x.detach().double() * W).sum((-2, -1))
    scale = (x.detach().double() * W).abs().sum((-2, -1))
    err = (y.detach().double() - want).abs() / (scale + 1e-300)
    mon.event("weighted_sum", max(1, y.numel()))
    mon.worst["weighted_sum"] = max(mon.worst.get("weighted_sum", 0), float(err.max()) / tol)
    if not bool((err <= tol).all()):
        mon.fail(f"integral differs from the weighted sum by {float(err.max()):.3e} relative", "weighted_sum")
    # gradient is the weight field
    up = torch.randn(lead, dtype=torch.float64).to(dt)
    (gx,) = torch.autograd.grad(y, x, up)
    mon.close(gx, (up.double()[..., None, None] * W), 3e-7, 0, "gradient")
    # undefined and infinite values are part of the sum of their own field and of no other
    for bad in (float("nan"), float("inf"), -float("inf")):
        z = x.detach().clone().reshape(-1, nlat, nlon)
        b, i, j = int(torch.randint(z.shape[0], ())), int(torch.randint(nlat, ())), int(torch.randint(nlon, ()))
        z[b, i, j] = bad
        p = q(z)
        if bad == bad and abs(float(W[i, j])) < 1e-9:  # 0 * inf
            continue
        wsum = bad * float(W[i, j])
        mon.check(bool(p[b].isnan()) if wsum != wsum else float(p[b]) == wsum, "undefined", f"a field with {bad} integrates to {float(p[b])}")
        rest = torch.arange(z.shape[0]) != b
        mon.close(p[rest], y.detach().reshape(-1)[rest], 0, 4 * tol * float(scale.max()) + 1e-30, "undefined")
    # rotation
    s = int(torch.randint(0, nlon, ()))
    mon.close(q(torch.roll(x.detach(), s, -1)), y, 0, 4 * tol * float(scale.max()), "rotation")
    # exactness on harmonics the grid resolves
    if g != "equiangular-trapezoidal" and nlat <= 64:
        deg = {"legendre-gauss": 2 * nlat - 1, "lobatto": 2 * nlat - 3, "equiangular": nlat - 1}[g]
        t, _ = ref.colat(nlat, g)
        L = min(deg, 40) + 1
        P = ref.alp(min(3, L), L, t)
        lam = ref.lons(nlon)
        for m in range(P.shape[0]):
            if m >= nlon:
                break
            F = ref.tens(P[m][:, :, None] * np.cos(m * lam)[None, None, :])  # (L, nlat, nlon)
            v = q(F).double()
            wantv = torch.zeros(L, dtype=torch.float64)
            if m == 0:
                wantv[0] = math.sqrt(4 * math.pi) / (4 * math.pi if case["norm"] else 1)
            elif m % nlon == 0:
                continue
            mon.close(v.reshape(-1), wantv, 0, 1e-5, "exact_harmonics")
    one = q(torch.ones(nlat, nlon, dtype=torch.float64))
    mon.close(one.reshape(-1), torch.tensor([1.0 if case["norm"] else 4 * math.pi], dtype=torch.float64), 3e-7, 0, "constant")
    mon.state(g, nlat, nlon, case["norm"], len(lead), case["dtype"])
