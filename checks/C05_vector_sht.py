"""C05: vector spherical harmonic transforms."""
import numpy as np
import torch
from vlib import ref, gen
from checks.C04_forward_sht import band_coeffs

PROPERTY = "C05"
TECHNIQUE = "runtime monitors: synthesised vector fields compared point by point with gradients of an independently evaluated harmonic series; analysis compared with the defining quadrature sum and with known coefficients; adjoint-gradient monitors"
NOTE = "Held on every configuration and field executed; exact up to double-precision rounding. Trusts the harness's extended-precision Legendre functions and derivatives."
RULE = "a case is (grid, size, truncation, norm, phase, leading shape, dtype); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["the Nyquist order of an even longitude grid carries only a real part per component"]
ROUNDS = 4
REQUIRED_EVENTS = ["synthesis", "definition", "recovers", "roundtrip", "gradient_has_no_toroidal", "curl_has_no_spheroidal", "grad_forward", "grad_inverse"]


def cases(rng, tier):
    n = 300 if tier == "quick" else 4000
    for i in range(n):
        nlat, nlon = gen.grid_size(rng)
        lmax, mmax = gen.limits(rng, nlat, nlon)
        yield {"grid": gen.choice(rng, gen.SHT_GRIDS), "nlat": nlat, "nlon": nlon, "lmax": lmax, "mmax": mmax, "norm": gen.choice(rng, gen.NORMS), "cs": bool(rng.integers(2)),
               "lead": gen.leading(rng), "dtype": "float32" if rng.random() < 0.12 else "float64", "u": i, "sc": gen.choice(rng, gen.SPECIAL), "sx": gen.choice(rng, gen.SPECIAL)}
    for j, n in enumerate(gen.wide(rng, 2)):
        yield {"grid": "legendre-gauss" if j < 4 else gen.choice(rng, gen.SHT_GRIDS), "nlat": n, "nlon": 2 * n, "lmax": n, "mmax": n, "norm": gen.NORMS[j % 3], "cs": bool(j % 2), "lead": [], "dtype": "float64", "u": -1}
    for j, (nlat, nlon) in enumerate([(64, 128), (91, 180)] + ([(128, 256), (181, 360), (256, 512)] if tier != "quick" else [(128, 256), (192, 384)])):
        for k, g in enumerate(gen.SHT_GRIDS):
            yield {"grid": g, "nlat": nlat, "nlon": nlon, "lmax": None, "mmax": None, "norm": gen.NORMS[(j + k) % 3], "cs": bool((j + k) % 2), "lead": [], "dtype": "float64", "u": -1}


def synth(hr, hi, nlon):
    """half-complex modes (..., m, k) -> field (..., k, nlon)"""
    M = hr.shape[-2]
    C, S = ref.dft_basis(nlon, M)
    a = np.full(M, ref.LD(2))
    b = np.full(M, ref.LD(2))
    a[0], b[0] = 1, 0
    for m in range(M):
        if 2 * m == nlon:
            a[m], b[m] = 1, 0
        if 2 * m > nlon:
            a[m] = b[m] = 0
    return np.einsum("...mk,mj->...kj", hr * a[:, None], C) - np.einsum("...mk,mj->...kj", hi * b[:, None], S)


def fourier(f, M, nlon):
    C, S = ref.dft_basis(nlon, M)
    dead = np.arange(M) * 2 > nlon
    C[dead] = 0
    S[dead] = 0
    f = f.astype(ref.LD)
    k = 2 * ref.PI / nlon
    return np.einsum("...kj,mj->...mk", f, C) * k - 1j * np.einsum("...kj,mj->...mk", f, S) * k


def run(case, mon):
    import torch_harmonics as th

    g, nlat, nlon, norm, cs, lead = case["grid"], case["nlat"], case["nlon"], case["norm"], case["cs"], case["lead"]
    L, M = gen.trunc(nlat, nlon, case["lmax"], case["mmax"], g)
    kw = dict(lmax=case["lmax"], mmax=case["mmax"], grid=g, norm=norm, csphase=cs)
    fwd, inv = th.RealVectorSHT(nlat, nlon, **kw), th.InverseRealVectorSHT(nlat, nlon, **kw)
    mon.check((fwd.lmax, fwd.mmax) == (L, M) and (inv.lmax, inv.mmax) == (L, M), "limits", f"truncations {(fwd.lmax, fwd.mmax)} {(inv.lmax, inv.mmax)} expected {(L, M)}")
    dt = getattr(torch, case["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    t, w = ref.colat(nlat, g)
    P, D, S = ref.alp(M, L, t, deriv=True)
    ff, fi, ph = ref.norm_scale(L, norm, False), ref.norm_scale(L, norm, True), ref.phase(M, cs)
    tol = (4e-12 if nlat < 100 else 2e-11) if dt == torch.float64 else 3e-5
    Di, Si = [A * fi[None, :, None] * ph[:, None, None] for A in (D, S)]
    il = torch.tensor(fi.astype(float))[:, None]
    fl = torch.tensor(ff.astype(float))[:, None]

    def inverse_ref(c):  # (..., 2, L, M) -> (..., 2, nlat, nlon)
        s, tt = c[..., 0, :, :].astype(np.clongdouble), c[..., 1, :, :].astype(np.clongdouble)
        E = lambda a, T: np.einsum("...lm,mlk->...mk", a, T)
        v0 = E(s, Di) + 1j * E(tt, Si)
        v1 = 1j * E(s, Si) - E(tt, Di)
        return np.stack([synth(v0.real, v0.imag, nlon), synth(v1.real, v1.imag, nlon)], -3)

    ll = np.arange(L).astype(ref.LD)
    lw = np.where(ll > 0, 1 / np.maximum(ll * (ll + 1), 1), 1)
    Df, Sf = [A * (ff * lw)[None, :, None] * ph[:, None, None] * w for A in (D, S)]

    def forward_ref(x):
        a, b = fourier(x[..., 0, :, :], M, nlon), fourier(x[..., 1, :, :], M, nlon)
        E = lambda h, T: np.einsum("...mk,mlk->...lm", h, T)
        s = E(a, Df) - 1j * E(b, Sf)
        tt = -1j * E(a, Sf) - E(b, Df)
        return np.stack([s, tt], -3)

    # synthesis
    c = gen.special(torch.randn(*lead, 2, L, M, dtype=torch.complex128) / (1 + torch.arange(L)[:, None]), case.get("sc"), case["u"]).to(cdt).requires_grad_(True)
    v = inv(c)
    mon.check(tuple(v.shape) == tuple(lead) + (2, nlat, nlon), "shape", f"{tuple(v.shape)}")
    mon.check(v.dtype == dt, "dtype", f"{v.dtype}")
    want = inverse_ref(c.detach().to(torch.complex128).numpy())
    fsc = float(fi.max())
    mon.close(v, ref.tens(want), tol, tol * fsc, "synthesis")
    for _ in range(3):  # single modes
        l = int(torch.randint(L, ()))
        m = int(torch.randint(min(l, M - 1) + 1, ()))
        e = torch.zeros(2, L, M, dtype=cdt)
        e[int(torch.randint(2, ())), l, m] = 0.4 - 1.1j
        mon.close(inv(e), ref.tens(inverse_ref(e.to(torch.complex128).numpy())), 10 * tol, tol * float(fi[l]), "synthesis")
    up = torch.randn(*lead, 2, nlat, nlon, dtype=torch.float64)
    (gc,) = torch.autograd.grad(v, c, up.to(dt))
    # adjoint of the synthesis, by the real inner product
    k = ref.LD(nlon) / (2 * ref.PI)
    fz = lambda f: fourier(f, M, nlon) * k
    U0, U1 = fz(up[..., 0, :, :].numpy()), fz(up[..., 1, :, :].numpy())
    ra, rb = np.full(M, ref.LD(2)), np.full(M, ref.LD(2))
    ra[0], rb[0] = 1, 0
    for m in range(M):
        if 2 * m == nlon:
            ra[m], rb[m] = 1, 0
    W0 = U0.real * ra[:, None] + 1j * U0.imag * rb[:, None]
    W1 = U1.real * ra[:, None] + 1j * U1.imag * rb[:, None]
    E = lambda h, T: np.einsum("...mk,mlk->...lm", h, T)
    gs = E(W0, Di) - 1j * E(W1, Si)
    gt = -1j * E(W0, Si) - E(W1, Di)
    mon.close(gc / il, ref.tens(np.stack([gs, gt], -3)) / il, 5 * tol, 1e-13, "grad_inverse")

    # analysis of an arbitrary field
    x = gen.special(torch.randn(*lead, 2, nlat, nlon, dtype=torch.float64), case.get("sx"), case["u"]).to(dt).requires_grad_(True)
    y = fwd(x)
    mon.check(tuple(y.shape) == tuple(lead) + (2, L, M) and y.dtype == cdt, "shape", f"{tuple(y.shape)} {y.dtype}")
    wy = forward_ref(x.detach().double().numpy())
    mon.close(y / fl, ref.tens(wy) / fl, tol, tol, "definition")
    G = torch.randn(*lead, 2, L, M, dtype=torch.complex128)
    yr = torch.view_as_real(y)
    (gx,) = torch.autograd.grad(yr, x, torch.view_as_real(G).to(yr.dtype))
    Gs, Gt = G[..., 0, :, :].numpy().astype(np.clongdouble), G[..., 1, :, :].numpy().astype(np.clongdouble)
    E2 = lambda a, T: np.einsum("...lm,mlk->...mk", a, T)
    h0 = E2(Gs, Df) + 1j * E2(Gt, Sf)
    h1 = 1j * E2(Gs, Sf) - E2(Gt, Df)
    C, Sn = ref.dft_basis(nlon, M)
    dead = np.arange(M) * 2 > nlon
    C[dead] = 0
    Sn[dead] = 0
    bk = lambda h: (np.einsum("...mk,mj->...kj", h.real, C) - np.einsum("...mk,mj->...kj", h.imag, Sn)) * 2 * ref.PI / nlon
    mon.close(gx, ref.tens(np.stack([bk(h0), bk(h1)], -3)), 5 * tol, 1e-13, "grad_forward")
    mon.state(g, nlat, nlon, L, M, norm, cs, len(lead), case["dtype"])

    # exact recovery
    Ld, _ = gen.trunc(nlat, nlon, None, None, g)
    Lb = min(L, Ld)
    b = torch.stack([band_coeffs(lead, L, M, nlon, False), band_coeffs(lead, L, M, nlon, False)], -3)
    b[..., Lb:, :] = 0
    b[..., :, Lb:] = 0
    b[..., 0, :] = 0
    f = ref.tens(inverse_ref(b.numpy())).to(dt)
    r = fwd(f)
    mon.close((r / fl)[..., :Lb, :Lb], (b / fl)[..., :Lb, :Lb], 20 * tol, 20 * tol, "recovers")
    if L <= Ld:
        mon.close(inv(r), f, 20 * tol, 20 * tol * fsc, "roundtrip")
    for part, name in ((0, "gradient_has_no_toroidal"), (1, "curl_has_no_spheroidal")):
        bb = b.clone()
        bb[..., 1 - part, :, :] = 0
        rr = fwd(ref.tens(inverse_ref(bb.numpy())).to(dt))
        mon.close((rr / fl)[..., 1 - part, :Lb, :Lb], torch.zeros(*lead, Lb, min(M, Lb), dtype=cdt), 0, 40 * tol * max(1.0, float((b / fl).abs().max())), name)
