"""C03: the inverse scalar transform is the pointwise harmonic series."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C03"
TECHNIQUE = "runtime monitor: every output of the inverse transform compared point by point with a harmonic series evaluated independently in extended precision"
NOTE = "Held on every configuration executed (all grids, conventions, truncations at mixed parities, sizes up to 181x360). Trusts the harness's extended-precision Legendre functions."
RULE = "a case is (grid, size, truncation, norm, phase, leading shape, dtype); distinct by that tuple; non-trivial when at least one non-zero coefficient is synthesised"
LEVEL = "exploration"
ASSUMPTIONS = ["orders at or above the Nyquist order of the longitude grid: the Nyquist order counts once with its real part, higher orders are dropped"]
ROUNDS = 4
REQUIRED_EVENTS = ["series", "single_mode", "ignored_parts", "legendre_table", "shape"]


def cases(rng, tier):
    n = 420 if tier == "quick" else 5000
    for i in range(n):
        nlat, nlon = gen.grid_size(rng)
        lmax, mmax = gen.limits(rng, nlat, nlon)
        g = gen.choice(rng, gen.SHT_GRIDS)
        if g == "equiangular" and rng.random() < 0.5:
            lmax = lmax or nlat  # beyond the default truncation, still a valid synthesis
        yield {"grid": g, "nlat": nlat, "nlon": nlon, "lmax": lmax, "mmax": mmax, "norm": gen.choice(rng, gen.NORMS), "cs": bool(rng.integers(2)),
               "lead": gen.leading(rng), "dtype": "float32" if rng.random() < 0.15 else "float64", "u": i, "sc": gen.choice(rng, gen.SPECIAL)}
    for j, n in enumerate(gen.wide(rng)):
        yield {"grid": "legendre-gauss" if j < 4 else gen.choice(rng, gen.SHT_GRIDS), "nlat": n, "nlon": 2 * n, "lmax": n, "mmax": n, "norm": gen.NORMS[j % 3], "cs": bool(j % 2), "lead": [], "dtype": "float64", "u": -1}
    for (nlat, nlon) in [(64, 128), (91, 180), (128, 256)] + [(181, 360), (256, 512)] + ([(361, 720)] if tier != "quick" else []):
        for j, g in enumerate(gen.SHT_GRIDS):
            yield {"grid": g, "nlat": nlat, "nlon": nlon, "lmax": nlat if j else None, "mmax": None, "norm": gen.NORMS[(j + nlat) % 3], "cs": bool((nlat + j) % 2), "lead": [], "dtype": "float64", "u": -1}
    for i in range(40 if tier == "quick" else 300):
        m, l = gen.ri(rng, 1, 40), gen.ri(rng, 1, 40)
        yield {"kind": "table", "mmax": m, "lmax": l, "norm": gen.choice(rng, gen.NORMS), "cs": bool(rng.integers(2)), "inverse": bool(rng.integers(2)), "npts": gen.ri(rng, 1, 30), "u": i}


def series(coef, P, fac, ph, nlon):
    """coef (..., L, M) complex128 -> field (..., K, nlon), and the sum of absolute terms (for scaling)"""
    L, M = coef.shape[-2:]
    c = coef.astype(np.clongdouble)
    A = P * fac[None, :, None] * ph[:, None, None]  # (M, L, K)
    ny = nlon // 2 if nlon % 2 == 0 else None
    K = A.shape[-1]
    out = np.zeros(coef.shape[:-2] + (K, nlon), ref.LD)
    absum = np.zeros(coef.shape[:-2] + (K,), ref.LD)
    C, S = ref.dft_basis(nlon, M)
    for m in range(M):
        if 2 * m > nlon:
            continue
        h = np.einsum("...l,lk->...k", c[..., m], A[m])
        absum += 2 * np.einsum("...l,lk->...k", np.abs(c[..., m]), np.abs(A[m]))
        if m == 0:
            out += h.real[..., None] * C[0]
        elif ny is not None and m == ny:
            out += h.real[..., None] * C[m]
        else:
            out += 2 * (h.real[..., None] * C[m] - h.imag[..., None] * S[m])
    return out, absum


def run(case, mon):
    import torch_harmonics as th

    if case.get("kind") == "table":
        from torch_harmonics.legendre import legpoly

        x = torch.cos(torch.rand(case["npts"], dtype=torch.float64) * 3.14159)
        if case["u"] % 4 == 0:
            x[0] = 1.0
            x[-1] = -1.0
        V = legpoly(case["mmax"], case["lmax"], x, norm=case["norm"], inverse=case["inverse"], csphase=case["cs"])
        xs = x.numpy().astype(ref.LD)
        P = ref.alp(case["mmax"], case["lmax"], np.arccos(xs))
        W = P * ref.norm_scale(case["lmax"], case["norm"], case["inverse"])[None, :, None] * ref.phase(case["mmax"], case["cs"])[:, None, None]
        mon.close(V, ref.tens(W), 1e-12, 1e-13, "legendre_table")
        mon.state("table", case["mmax"], case["lmax"], case["norm"], case["cs"], case["inverse"])
        return
    g, nlat, nlon = case["grid"], case["nlat"], case["nlon"]
    isht = th.InverseRealSHT(nlat, nlon, lmax=case["lmax"], mmax=case["mmax"], grid=g, norm=case["norm"], csphase=case["cs"])
    L, M = gen.trunc(nlat, nlon, case["lmax"], case["mmax"], g)
    mon.check((isht.lmax, isht.mmax) == (L, M), "limits", f"truncation {(isht.lmax, isht.mmax)} expected {(L, M)}")
    t, _ = ref.colat(nlat, g)
    P = ref.alp(M, L, t)
    fac, ph = ref.norm_scale(L, case["norm"], True), ref.phase(M, case["cs"])
    dt = getattr(torch, case["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    c = torch.randn(*case["lead"], L, M, dtype=torch.complex128)
    if case["u"] % 3 == 0:
        c = c * (10 ** torch.empty(L, 1, dtype=torch.float64).uniform_(-4, 2))
    c = gen.special(c, case.get("sc"), case["u"]).to(cdt)
    y = isht(c)
    mon.check(tuple(y.shape) == tuple(case["lead"]) + (nlat, nlon), "shape", f"{tuple(y.shape)}")
    mon.check(y.dtype == dt, "dtype", f"{y.dtype}")
    want, absum = series(c.to(torch.complex128).numpy(), P, fac, ph, nlon)
    # rounding is relative to the harmonics that are added up; one that vanishes on
    # the grid (a single coefficient of odd degree on the equator) leaves noise only
    sc = max(float(absum.max()), 1e-2 * float(fac.max()) * float(c.abs().max()))
    tol = (1e-12 if nlat < 100 else 5e-12) if dt == torch.float64 else 3e-6
    mon.close(y, ref.tens(want), tol, 0, "series", scale=sc)
    # one mode at a time, so that small terms are not hidden behind large ones
    for _ in range(3 if L < 60 else 6):
        l = int(torch.randint(L, ()))
        m = int(torch.randint(min(l, M - 1) + 1, ()))
        e = torch.zeros(L, M, dtype=cdt)
        e[l, m] = 0.7 - 1.3j
        w, a = series(e.to(torch.complex128).numpy(), P, fac, ph, nlon)
        mon.close(isht(e), ref.tens(w), 50 * tol if dt == torch.float64 else 1e-5, 1e-300, "single_mode", scale=max(float(a.max()), 1e-2 * float(fac[l])))
    # upper triangle and the imaginary part of order zero contribute nothing
    c2 = c.clone()
    iu = torch.triu_indices(L, M, 1)
    c2[..., iu[0], iu[1]] = torch.randn(iu.shape[1], dtype=cdt) * 1e3
    c2[..., :, 0] = torch.complex(c2[..., :, 0].real, torch.randn_like(c2[..., :, 0].real) * 1e3)
    mon.close(isht(c2), y, tol, 0, "ignored_parts", scale=sc)
    mon.state(g, nlat, nlon, L, M, case["norm"], case["cs"], len(case["lead"]), case["dtype"])
