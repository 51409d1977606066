"""C09: Gaussian random fields."""
import copy, math
import numpy as np
import torch
from vlib import ref, gen
from checks.C03_inverse_sht import series

PROPERTY = "C09"
TECHNIQUE = "runtime monitors: fields generated from known noise compared with the defining series; noise recovered from sampled fields by independent analysis and tested for moments and independence with explicit error bounds"
NOTE = "Held on every parameter set executed. The distributional part is a statistical monitor with false-alarm probability below 1e-9 per run (fixed seeds make it deterministic)."
RULE = "a case is (nlat, alpha, tau, sigma, radius, grid, dtype); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["the noise generator is torch's standard normal generator; only its use is monitored"]
ROUNDS = 4
REQUIRED_EVENTS = ["series", "default_amplitude", "reproducible", "independent", "moments", "mean_free", "rejects"]


def cases(rng, tier):
    for i in range(150 if tier == "quick" else 1500):
        yield {"nlat": gen.ri(rng, 3, 30) if i % 25 != 4 else gen.choice(rng, [48, 64, 65, 90, 128]), "alpha": round(float(rng.uniform(1.05, 4)), 3), "tau": round(float(rng.uniform(0.3, 12)), 3), "sigma": None if rng.random() < 0.5 else round(float(rng.uniform(0.05, 20)), 3),
               "radius": 1.0 if rng.random() < 0.5 else round(float(rng.uniform(0.2, 50)), 3), "grid": gen.choice(rng, gen.SHT_GRIDS), "dtype": "float64" if rng.random() < 0.6 else "float32", "conv": bool(rng.random() < 0.4), "u": i}


def run(case, mon):
    from torch_harmonics.random_fields import GaussianRandomFieldS2

    n, al, tau, sg, R, g = case["nlat"], case["alpha"], case["tau"], case["sigma"], case["radius"], case["grid"]
    dt = getattr(torch, case["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    grf = GaussianRandomFieldS2(n, alpha=al, tau=tau, sigma=sg, radius=R, grid=g, dtype=dt)
    L, M = gen.trunc(n, 2 * n, None, None, g)
    s = sg if sg is not None else tau ** (al - 1.0)
    if sg is None:
        mon.event("default_amplitude")
    l = np.arange(L).astype(ref.LD)
    eig = ref.LD(s) * (l * (l + 1) / ref.LD(R) ** 2 + ref.LD(tau) ** 2) ** (-ref.LD(al) / 2)
    eig[0] = 0
    t, w = ref.colat(n, g)
    P = ref.alp(M, L, t)
    fi, ph = ref.norm_scale(L, "unnorm", True), ref.phase(M, True)
    xi = torch.randn(3, L, M, dtype=cdt)
    u = grf(3, xi=xi)
    mon.check(tuple(u.shape) == (3, n, 2 * n) and not u.is_complex(), "shape", f"{tuple(u.shape)} {u.dtype}")
    c = xi.to(torch.complex128).numpy() * eig[:, None]
    want, ab = series(c, P, fi, ph, 2 * n)
    mon.close(u, ref.tens(want), 5e-6, 0, "series", scale=float(ab.max()) + 1e-30)
    mon.check(u.dtype == dt or dt == torch.float32, "dtype", f"{u.dtype} requested {dt}")
    for N in (1, int(torch.randint(5, 40, ()))):  # any number of samples, precise in the requested type
        xn = torch.randn(N, L, M, dtype=cdt)
        un = grf(N, xi=xn)
        mon.check(tuple(un.shape) == (N, n, 2 * n) and un.dtype == u.dtype, "shape", f"{tuple(un.shape)} {un.dtype}")
        j = int(torch.randint(N, ()))
        mon.close(un[j:j + 1], grf(1, xi=xn[j:j + 1]), 1e-12 if un.dtype == torch.float64 else 2e-6, 0, "series", scale=float(ab.max()) * 3 + 1e-30)
        torch.manual_seed(4321 + case["u"])
        s1 = grf(N)
        torch.manual_seed(4321 + case["u"])
        mon.equal(grf(N), s1, "reproducible")
        mon.check(tuple(s1.shape) == (N, n, 2 * n) and s1.dtype == u.dtype, "shape", f"sampled {tuple(s1.shape)} {s1.dtype}")
    # one mode at a time: the prescribed amplitude of every degree, however small
    for _ in range(4):
        ll = int(torch.randint(1, L, ())) if L > 1 else 0
        m = int(torch.randint(min(ll, M - 1) + 1, ()))
        e = torch.zeros(1, L, M, dtype=cdt)
        e[0, ll, m] = 1.0 + 0.5j
        we, ae = series(e.to(torch.complex128).numpy() * eig[:, None], P, fi, ph, 2 * n)
        mon.close(grf(1, xi=e), ref.tens(we), 5e-6, 1e-30, "series", scale=max(float(ae.max()), 1e-3 * float(eig[ll] * fi[ll])))
    # sampling
    torch.manual_seed(1234 + case["u"])
    u1 = grf(4)
    torch.manual_seed(1234 + case["u"])
    u2 = grf(4)
    mon.equal(u1, u2, "reproducible")
    u3 = grf(4)
    mon.check(tuple(u1.shape) == (4, n, 2 * n), "shape", f"{tuple(u1.shape)}")
    if L > 1:
        for a in range(4):
            for b in range(a):
                mon.check(not torch.equal(u1[a], u1[b]), "independent", "two samples of one batch are identical")
            mon.check(not torch.equal(u1[a], u3[a]), "independent", "two consecutive draws are identical")
    W2 = ref.tens(w)[:, None] / (2 * n) / 2
    mon.close((u1.double() * W2).sum((-2, -1)), torch.zeros(4, dtype=torch.float64), 0, 1e-5 * (float(u1.abs().max()) + 1e-30), "mean_free")
    if case["conv"]:
        for other in (copy.deepcopy(grf), grf.to("cpu")):
            torch.manual_seed(99)
            p = other(2)
            torch.manual_seed(99)
            q = grf(2)
            mon.close(p, q, 1e-6, 0, "reproducible")
    # recover the noise of many samples and look at its moments
    if 3 <= L <= 12 and dt == torch.float64:
        N = 600
        torch.manual_seed(7 + case["u"])
        U = grf(N).double()
        A = ref.tens(P * ref.norm_scale(L, "unnorm", False)[None, :, None] * ph[:, None, None] * w)
        C, S = [ref.tens(v) for v in ref.dft_basis(2 * n, M)]
        k = 2 * math.pi / (2 * n)
        hr = torch.einsum("bkj,mj->bmk", U, C) * k
        hi = -torch.einsum("bkj,mj->bmk", U, S) * k
        cr, cim = torch.einsum("bmk,mlk->blm", hr, A), torch.einsum("bmk,mlk->blm", hi, A)
        ev = ref.tens(eig)[:, None]
        zr, zi = cr / ev.clamp(min=1e-300), cim / ev.clamp(min=1e-300)
        cols = []
        for ll in range(1, L):
            for m in range(min(ll, M - 1) + 1):
                cols.append(zr[:, ll, m])
                if m > 0:
                    cols.append(zi[:, ll, m])
        Z = torch.stack(cols, 1)
        D = Z.shape[1]
        lim = 7.5 / math.sqrt(N)
        mon.check(float(Z.mean(0).abs().max()) < lim, "moments", f"mean of a coefficient {float(Z.mean(0).abs().max()):.3f} beyond {lim:.3f}")
        v = (Z**2).mean(0)
        mon.check(float((v - 1).abs().max()) < lim * 2.2, "moments", f"variance of a standardised coefficient off by {float((v - 1).abs().max()):.3f}")
        K = (Z.T @ Z) / N - torch.diag(v)
        mon.check(float(K.abs().max()) < lim * 1.5, "independent", f"correlation between coefficients {float(K.abs().max()):.3f}")
        mon.check(float(((Z**4).mean(0) - 3).abs().max()) < 12.0, "moments", "fourth moment not Gaussian")
    try:
        GaussianRandomFieldS2(n, alpha=1.0, tau=tau)
        bad = True
    except ValueError:
        bad = False
    mon.check(not bad, "rejects", "alpha<=1 without sigma must be rejected")
    mon.state(n, al, tau, sg, R, g, case["dtype"])
