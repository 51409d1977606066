"""C08: spectral convolution."""
import math
import numpy as np
import torch
from vlib import ref, gen
from checks.C03_inverse_sht import series
from checks.C04_forward_sht import analyse

PROPERTY = "C08"
TECHNIQUE = "runtime monitor: outputs and parameter/input gradients compared with an independent analyse-multiply-synthesise evaluation; group-isolation, rotation and linearity monitors"
NOTE = "Held on every configuration executed; the layer computes in single precision by design, agreement is to about 1e-5 relative."
RULE = "a case is (grids, sizes, channels, groups, bias, batch); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["single-precision computation is documented behaviour of the layer"]
ROUNDS = 4
REQUIRED_EVENTS = ["output", "grad_x", "grad_w", "grad_b", "groups", "rotation", "linear"]


def cases(rng, tier):
    for i in range(200 if tier == "quick" else 2500):
        while True:
            a, b = gen.grid_size(rng)
            if a >= 2 and b >= 2:
                break
        c, d = (a, b) if rng.random() < 0.4 else gen.grid_size(rng)
        G = gen.choice(rng, [1, 1, 2, 3])
        if i % 40 == 3:
            a, b, c, d = [gen.choice(rng, [48, 60, 91, 128]) for _ in range(4)]
        ch = [G * gen.ri(rng, 1, 3), G * gen.ri(rng, 1, 3)]
        if i % 20 == 7:
            G = gen.choice(rng, [1, 2, 4, 8])
            ch = [G * gen.ri(rng, 2, 8), G * gen.ri(rng, 2, 8)]
        yield {"in": [a, b], "out": [c, d], "gi": gen.choice(rng, gen.SHT_GRIDS), "go": gen.choice(rng, gen.SHT_GRIDS), "G": G, "ci": ch[0], "co": ch[1],
               "bias": bool(rng.integers(2)), "B": gen.batch(rng, [1, 2, 3]), "dtype": "float64" if rng.random() < 0.3 else "float32", "u": i}


def run(case, mon):
    import torch_harmonics as th

    (a, b), (c, d), G, ci, co, B = case["in"], case["out"], case["G"], case["ci"], case["co"], case["B"]
    conv = th.SpectralConvS2((a, b), (c, d), ci, co, num_groups=G, grid_in=case["gi"], grid_out=case["go"], bias=case["bias"])
    L = min(gen.trunc(a, b, None, None, case["gi"])[0], gen.trunc(c, d, None, None, case["go"])[0])
    names = dict(conv.named_parameters())
    W = conv.weight
    mon.check(tuple(W.shape) == (G, ci // G, co // G, L), "weight_shape", f"weight of shape {tuple(W.shape)}, expected {(G, ci // G, co // G, L)}")
    mon.check(len(names) == (2 if case["bias"] else 1), "params", f"{list(names)}")
    mon.check(bool(torch.isfinite(torch.view_as_real(W)).all()), "init", "initial weight not finite")
    bias = None
    if case["bias"]:
        (bias,) = [q for q in names.values() if q is not W]
        mon.check(tuple(bias.shape) == (1, ci, L, L), "bias_shape", f"{tuple(bias.shape)}")
        mon.check(float(bias.abs().max()) == 0.0, "bias_init", "spectral bias must start at zero")
        with torch.no_grad():
            bias.copy_(torch.randn_like(bias) * 0.3)
    dt = getattr(torch, case["dtype"])
    x = gen.shaped(torch.randn(B, ci, a, b), case, "x").to(dt).requires_grad_(True)
    y = conv(x)
    mon.check(tuple(y.shape) == (B, co, c, d) and y.dtype == dt, "shape", f"{tuple(y.shape)} {y.dtype}")
    # reference, in double precision, differentiable through torch
    ti, wi = ref.colat(a, case["gi"])
    to, _ = ref.colat(c, case["go"])
    Pi, Po = ref.alp(L, L, ti), ref.alp(L, L, to)
    ph = ref.phase(L, True)
    A = ref.tens(Pi * ph[:, None, None] * wi)
    Bs = ref.tens(Po * ph[:, None, None])
    Ci, Si = [ref.tens(v) for v in ref.dft_basis(b, L)]
    Co, So = [ref.tens(v) for v in ref.dft_basis(d, L)]
    live = (torch.arange(L) * 2 <= b).double()
    mre, mim = torch.full((L,), 2.0, dtype=torch.float64), torch.full((L,), 2.0, dtype=torch.float64)
    mre[0], mim[0] = 1, 0
    for m in range(L):
        if 2 * m == d:
            mre[m], mim[m] = 1, 0
        if 2 * m > d:
            mre[m] = mim[m] = 0
    wq = ref.tens(wi)[:, None] * 2 * math.pi / b

    def reference(x, W, bias):
        k = 2 * math.pi / b
        hr = torch.einsum("bckj,mj->bcmk", x, Ci * live[:, None]) * k
        hi = -torch.einsum("bckj,mj->bcmk", x, Si * live[:, None]) * k
        s = torch.complex(torch.einsum("bcmk,mlk->bclm", hr, A), torch.einsum("bcmk,mlk->bclm", hi, A))
        if bias is not None:
            s = s + (x * wq).sum((-2, -1))[..., None, None] * bias
        out = []
        for g in range(G):
            out.append(torch.einsum("bilm,iol->bolm", s[:, g * (ci // G):(g + 1) * (ci // G)], W[g]))
        s = torch.cat(out, 1)
        gr = torch.einsum("bclm,mlk->bcmk", s.real, Bs) * mre[:, None]
        gi = torch.einsum("bclm,mlk->bcmk", s.imag, Bs) * mim[:, None]
        return torch.einsum("bcmk,mj->bckj", gr, Co) - torch.einsum("bcmk,mj->bckj", gi, So)

    xd = x.detach().double().requires_grad_(True)
    Wd = W.detach().to(torch.complex128).requires_grad_(True)
    bd = bias.detach().to(torch.complex128).requires_grad_(True) if bias is not None else None
    yr = reference(xd, Wd, bd)
    tol = 2e-5
    mon.close(y, yr, tol, 1e-6, "output")
    up = gen.shaped(torch.randn(B, co, c, d, dtype=torch.float64), case, "g")
    gs = torch.autograd.grad(y, [x, W] + ([bias] if bias is not None else []), up.to(dt))
    gr = torch.autograd.grad(yr, [xd, Wd] + ([bd] if bd is not None else []), up)
    mon.close(gs[0], gr[0], tol, 1e-6, "grad_x")
    mon.close(gs[1], gr[1], tol, 1e-6, "grad_w")
    if bias is not None:
        mon.close(gs[2], gr[2], tol, 1e-6, "grad_b")
    # groups never mix: poisoning one group's input leaves the others bitwise unchanged
    if G > 1:
        x2 = x.detach().clone()
        x2[:, : ci // G] = torch.randn_like(x2[:, : ci // G]) * 100
        mon.close(conv(x2)[:, co // G:], y[:, co // G:], 1e-6, 1e-6, "groups")
    # rotation in longitude by a common angle
    import math as _m
    g = _m.gcd(b, d)
    if g > 1 and not case["bias"] and 2 * (L - 1) < min(b, d):
        k = int(torch.randint(1, g, ()))
        r = conv(torch.roll(x.detach(), k * (b // g), -1))
        mon.close(r, torch.roll(y.detach(), k * (d // g), -1), tol, 1e-5, "rotation")
    z = torch.randn(B, ci, a, b).to(dt)
    mon.close(conv(x.detach() * 0.5 - 2 * z), 0.5 * y - 2 * conv(z), tol, 1e-5, "linear")
    mon.state(a, b, c, d, case["gi"], case["go"], G, ci, co, case["bias"], B)
