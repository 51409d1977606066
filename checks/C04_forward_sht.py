"""C04: the forward scalar transform: exact analysis, round trips, energy, gradients."""
import math
import numpy as np
import torch
from vlib import ref, gen
from checks.C03_inverse_sht import series

PROPERTY = "C04"
TECHNIQUE = "runtime monitors: analysis compared with the defining quadrature sum and with the coefficients of independently synthesised fields; round-trip, projection, Parseval and adjoint-gradient monitors"
NOTE = "Held on every configuration and field executed; exact up to double-precision rounding. Trusts the harness's quadrature nodes and Legendre functions (extended precision)."
RULE = "a case is (grid, size, truncation, norm, phase, leading shape, dtype); distinct by that tuple; non-trivial when analysis was compared with the definition and with known coefficients"
LEVEL = "exploration"
ASSUMPTIONS = ["the Nyquist order of an even longitude grid carries only a real part"]
ROUNDS = 4
REQUIRED_EVENTS = ["definition", "recovers", "roundtrip", "projection", "parseval", "grad_forward", "grad_inverse", "low_modes", "triangle"]


def cases(rng, tier):
    n = 360 if tier == "quick" else 4500
    for i in range(n):
        nlat, nlon = gen.grid_size(rng)
        lmax, mmax = gen.limits(rng, nlat, nlon)
        yield {"grid": gen.choice(rng, gen.SHT_GRIDS), "nlat": nlat, "nlon": nlon, "lmax": lmax, "mmax": mmax, "norm": gen.choice(rng, gen.NORMS), "cs": bool(rng.integers(2)),
               "lead": gen.leading(rng), "dtype": "float32" if rng.random() < 0.15 else "float64", "u": i, "sx": gen.choice(rng, gen.SPECIAL), "sc": gen.choice(rng, gen.SPECIAL)}
    for j, n in enumerate(gen.wide(rng)):
        full = j < 4 or j % 2
        yield {"grid": "legendre-gauss" if full else gen.choice(rng, gen.SHT_GRIDS), "nlat": n, "nlon": 2 * n, "lmax": n if full else None, "mmax": n if full else None, "norm": gen.NORMS[j % 3], "cs": bool(j % 2), "lead": [], "dtype": "float64", "u": -1}
    for j, (nlat, nlon) in enumerate([(64, 128), (91, 180), (128, 256)] + ([(181, 360), (256, 512)] if tier != "quick" else [(192, 384)])):
        for k, g in enumerate(gen.SHT_GRIDS):
            yield {"grid": g, "nlat": nlat, "nlon": nlon, "lmax": None, "mmax": None, "norm": gen.NORMS[(j + k) % 3], "cs": bool((j + k) % 2), "lead": [], "dtype": "float64", "u": -1}


def analyse(f, w, P, fac, ph, nlon):
    """defining sum: 2*pi/nlon sum_j sum_k f w P e^{-i m lambda}"""
    M, L, K = P.shape
    C, S = ref.dft_basis(nlon, M)
    f = f.astype(ref.LD)
    a = np.einsum("...kj,mj->...mk", f, C) * 2 * ref.PI / nlon
    b = -np.einsum("...kj,mj->...mk", f, S) * 2 * ref.PI / nlon
    dead = np.arange(M) * 2 > nlon
    a[..., dead, :] = 0
    b[..., dead, :] = 0
    A = P * fac[None, :, None] * ph[:, None, None] * w
    return np.einsum("...mk,mlk->...lm", a, A) + 1j * np.einsum("...mk,mlk->...lm", b, A)


def band_coeffs(lead, L, M, nlon, real_nyquist=True):
    c = torch.randn(*lead, L, M, dtype=torch.complex128)
    c = torch.tril(c)
    c[..., :, 0].imag.zero_()
    for m in range(M):
        if 2 * m == nlon:
            c[..., :, m].imag.zero_()
            if not real_nyquist:
                c[..., :, m] = 0
        if 2 * m > nlon:
            c[..., :, m] = 0
    return c


def run(case, mon):
    import torch_harmonics as th

    g, nlat, nlon, norm, cs, lead = case["grid"], case["nlat"], case["nlon"], case["norm"], case["cs"], case["lead"]
    L, M = gen.trunc(nlat, nlon, case["lmax"], case["mmax"], g)
    sht = th.RealSHT(nlat, nlon, lmax=case["lmax"], mmax=case["mmax"], grid=g, norm=norm, csphase=cs)
    mon.check((sht.lmax, sht.mmax) == (L, M), "limits", f"truncation {(sht.lmax, sht.mmax)} expected {(L, M)}")
    dt = getattr(torch, case["dtype"])
    t, w = ref.colat(nlat, g)
    P = ref.alp(M, L, t)
    ff, fi, ph = ref.norm_scale(L, norm, False), ref.norm_scale(L, norm, True), ref.phase(M, cs)
    tol = (2e-12 if nlat < 100 else 1e-11) if dt == torch.float64 else 2e-5
    # 1. definition, on an arbitrary field
    x = gen.special(torch.randn(*lead, nlat, nlon, dtype=torch.float64), case.get("sx"), case["u"]).to(dt).requires_grad_(True)
    y = sht(x)
    mon.check(tuple(y.shape) == tuple(lead) + (L, M), "shape", f"{tuple(y.shape)}")
    mon.check(y.dtype == (torch.complex128 if dt == torch.float64 else torch.complex64), "dtype", f"{y.dtype}")
    want = analyse(x.detach().double().numpy(), w, P, ff, ph, nlon)
    per_l = torch.tensor(ff.astype(float))[:, None]  # compare in orthonormal units
    mon.close(y / per_l, ref.tens(want) / per_l, tol, tol, "definition")
    iu = torch.triu_indices(L, M, 1)
    mon.check(bool((y.detach()[..., iu[0], iu[1]].abs() <= 1e-300).all()), "triangle", "orders above the degree are not zero")
    # gradient of the forward transform
    G = torch.randn(*lead, L, M, dtype=torch.complex128)
    yr = torch.view_as_real(y)
    (gx,) = torch.autograd.grad(yr, x, torch.view_as_real(G).to(yr.dtype))
    A = P * ff[None, :, None] * ph[:, None, None] * w
    C, S = ref.dft_basis(nlon, M)
    dead = np.arange(M) * 2 > nlon
    C[dead] = 0
    S[dead] = 0
    Gn = G.numpy()
    hr = np.einsum("...lm,mlk->...mk", Gn.real.astype(ref.LD), A)
    hi = np.einsum("...lm,mlk->...mk", Gn.imag.astype(ref.LD), A)
    wg = (np.einsum("...mk,mj->...kj", hr, C) - np.einsum("...mk,mj->...kj", hi, S)) * 2 * ref.PI / nlon
    mon.close(gx, ref.tens(wg), 5 * tol, 1e-14, "grad_forward")
    mon.state(g, nlat, nlon, L, M, norm, cs, len(lead), case["dtype"])

    # 2. exact recovery within the default truncation
    Ld, Md = gen.trunc(nlat, nlon, None, None, g)
    Lb = min(L, Ld)
    c = band_coeffs(lead, L, M, nlon)
    c[..., Lb:, :] = 0
    c[..., :, Lb:] = 0
    f, _ = series(c.numpy(), P, fi, ph, nlon)
    xf = ref.tens(f).to(dt)
    c2 = sht(xf)
    mon.close((c2 / per_l)[..., :Lb, :Lb], (c / per_l)[..., :Lb, :Lb], 20 * tol, 20 * tol, "recovers")
    isht = th.InverseRealSHT(nlat, nlon, lmax=case["lmax"], mmax=case["mmax"], grid=g, norm=norm, csphase=cs)
    if L <= Ld:
        mon.close(isht(c2), xf, 20 * tol, 20 * tol, "roundtrip")
        c3 = c.to(y.dtype)
        mon.close(sht(isht(c3)) / per_l, c / per_l, 20 * tol, 20 * tol, "roundtrip")
        # projection: analysing twice changes nothing
        p1 = isht(y.detach())
        mon.close(isht(sht(p1)), p1, 20 * tol, 20 * tol, "projection")
        if norm == "ortho":
            e = c.abs() ** 2
            dbl = torch.full((M,), 2.0, dtype=torch.float64)
            dbl[0] = 1
            for m in range(M):
                if 2 * m == nlon:
                    dbl[m] = 1
            wf = ref.tens(w)[:, None] * 2 * math.pi / nlon
            spec = (c2.detach().abs().double() ** 2 * dbl).sum((-2, -1))
            quad = (xf.double() ** 2 * wf).sum((-2, -1))
            if nlon % 2 == 1 or M <= nlon // 2:
                mon.close(spec, quad, 50 * tol, 1e-12, "parseval")
    # 3. a lower truncation keeps exactly the low modes of a richer field
    if Ld > 2 and L < Ld:
        cb = band_coeffs([], Ld, Md, nlon)
        Pd = ref.alp(Md, Ld, t)
        fd, _ = series(cb.numpy(), Pd, ref.norm_scale(Ld, norm, True), ref.phase(Md, cs), nlon)
        cc = sht(ref.tens(fd).to(dt))
        mon.close(cc / per_l, cb[:L, :M] / per_l, 20 * tol, 20 * tol, "low_modes")
    # 4. gradient of the inverse transform
    ci = gen.special(torch.randn(*lead, L, M, dtype=torch.complex128), case.get("sc"), case["u"]).to(y.dtype).requires_grad_(True)
    up = torch.randn(*lead, nlat, nlon, dtype=torch.float64)
    yi = isht(ci)
    (gc,) = torch.autograd.grad(yi, ci, up.to(dt))
    B = P * fi[None, :, None] * ph[:, None, None]
    C, S = ref.dft_basis(nlon, M)
    mult = np.full(M, ref.LD(2))
    mult[0] = 1
    imz = np.ones(M, ref.LD)
    imz[0] = 0
    for m in range(M):
        if 2 * m == nlon:
            mult[m], imz[m] = 1, 0
        if 2 * m > nlon:
            mult[m] = 0
    u = up.numpy().astype(ref.LD)
    hr = np.einsum("...kj,mj->...mk", u, C)
    hi = -np.einsum("...kj,mj->...mk", u, S)
    wr = np.einsum("...mk,mlk->...lm", hr, B) * mult
    wi = np.einsum("...mk,mlk->...lm", hi, B) * mult * imz
    il = torch.tensor(fi.astype(float))[:, None]
    mon.close(gc / il, ref.tens(wr + 1j * wi) / il, 5 * tol, 1e-14, "grad_inverse")
