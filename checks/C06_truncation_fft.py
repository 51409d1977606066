"""C06: truncation limits and the Fourier helpers."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C06"
TECHNIQUE = "runtime monitor: limits compared with the documented table for swept sizes; Fourier helpers compared with an explicit DFT for every parity, mode count, dimension and normalisation, with adjoint-gradient monitor"
NOTE = "Held on every size, limit and tensor executed (dense sweep at small sizes)."
RULE = "a case is a truncation query or a Fourier helper call; distinct by (kind, sizes, limits, dimension, normalisation)"
LEVEL = "exploration"
ASSUMPTIONS = []
ROUNDS = 4
REQUIRED_EVENTS = ["limits", "module_shapes", "rfft", "irfft", "rfft_grad", "irfft_grad", "roundtrip", "defaults"]


def cases(rng, tier):
    q = tier == "quick"
    grids = gen.SHT_GRIDS + ["equiangular-trapezoidal"]
    for i in range(60 if q else 600):
        yield {"kind": "trunc", "grid": grids[i % 4], "lo": 2 + (i // 4) * (7 if q else 2), "u": i}
    for i in range(120 if q else 1000):
        nlat, nlon = gen.grid_size(rng)
        lmax, mmax = gen.limits(rng, nlat, nlon)
        yield {"kind": "mod", "grid": gen.choice(rng, gen.SHT_GRIDS), "nlat": nlat, "nlon": nlon, "lmax": lmax, "mmax": mmax}
    for n in list(range(1, 24 if q else 60)) + [32, 33, 48, 63, 64, 65, 72, 90, 91, 100, 127, 128, 129, 144, 180, 181, 240, 256, 257, 360, 361, 512, 720, 721]:
        for k in range(4 if q else 8):
            nd = gen.ri(rng, 1, 4)
            yield {"kind": "fft", "n": n, "nd": nd, "dim": gen.ri(rng, -nd, nd - 1), "modes": [None, n // 2 + 1, n // 2, n // 2 + 2, gen.ri(rng, 1, n + 3), 1][gen.ri(rng, 0, 5)] or None,
                   "norm": gen.choice(rng, ["forward", "backward", "ortho"]), "dtype": "float32" if rng.random() < 0.2 else "float64", "call": gen.ri(rng, 0, 2), "u": k}
            yield {"kind": "ifft", "n": gen.choice(rng, [n, n, None, gen.ri(rng, 1, 50)]), "modes": gen.choice(rng, [n // 2 + 1, gen.ri(rng, 2, n + 4), max(2, n // 2)]), "nd": nd, "dim": gen.ri(rng, -nd, nd - 1),
                   "norm": gen.choice(rng, ["forward", "backward", "ortho"]), "dtype": "float32" if rng.random() < 0.2 else "float64", "call": gen.ri(rng, 0, 2), "u": k}


def dft(x, K, norm, n):
    """x (..., n) real -> (..., K) complex, K arbitrary (zero above n//2)"""
    C, S = ref.dft_basis(n, K)
    y = np.einsum("...j,kj->...k", x.astype(ref.LD), C) - 1j * np.einsum("...j,kj->...k", x.astype(ref.LD), S)
    y[..., np.arange(K) * 2 > n] = 0
    return y * {"forward": 1 / ref.LD(n), "backward": ref.LD(1), "ortho": 1 / np.sqrt(ref.LD(n))}[norm]


def idft(c, n, norm):
    K = c.shape[-1]
    C, S = ref.dft_basis(n, K)
    a, b = np.full(K, ref.LD(2)), np.full(K, ref.LD(2))
    a[0], b[0] = 1, 0
    for k in range(K):
        if 2 * k == n:
            a[k], b[k] = 1, 0
        if 2 * k > n:
            a[k] = b[k] = 0
    a[0], b[0] = 1, 0
    c = c.astype(np.clongdouble)
    y = np.einsum("...k,kj->...j", c.real * a, C) - np.einsum("...k,kj->...j", c.imag * b, S)
    return y * {"forward": ref.LD(1), "backward": 1 / ref.LD(n), "ortho": 1 / np.sqrt(ref.LD(n))}[norm], a, b


def run(case, mon):
    import torch_harmonics as th
    from torch_harmonics import fft as F

    if case["kind"] == "trunc":
        g, lo = case["grid"], case["lo"]
        rng = np.random.default_rng(case["u"])
        for nlat in range(lo, lo + 7):
            for nlon in [1, 2, 3, nlat - 1, nlat, nlat + 1, 2 * nlat - 3, 2 * nlat - 2, 2 * nlat - 1, 2 * nlat, 2 * nlat + 1, 4 * nlat + 3]:
                if nlon < 1:
                    continue
                l0, m0 = ref.lmax_default(nlat, g), nlon // 2 + 1
                for lm, mm in [(None, None), (gen.ri(rng, 1, 3 * nlat), None), (None, gen.ri(rng, 1, 3 * nlon)), (gen.ri(rng, 1, 3 * nlat), gen.ri(rng, 1, 3 * nlon))]:
                    w = min(lm or l0, mm or m0)
                    got = th.truncate_sht(nlat, nlon, lm, mm, g)
                    mon.check(tuple(got) == (w, w), "limits", f"truncate_sht({nlat},{nlon},{lm},{mm},{g}) = {tuple(got)}, documented {(w, w)}")
                    mon.state(g, nlat, nlon, lm is None, mm is None)
        return
    if case["kind"] == "mod":
        nlat, nlon, g = case["nlat"], case["nlon"], case["grid"]
        L, M = gen.trunc(nlat, nlon, case["lmax"], case["mmax"], g)
        for cls, inp in ((th.RealSHT, (nlat, nlon)), (th.RealVectorSHT, (2, nlat, nlon))):
            m = cls(nlat, nlon, lmax=case["lmax"], mmax=case["mmax"], grid=g)
            y = m(torch.randn(2, *inp))
            mon.check((m.lmax, m.mmax) == (L, M) and tuple(y.shape[-2:]) == (L, M), "module_shapes", f"{cls.__name__}: limits {(m.lmax, m.mmax)} output {tuple(y.shape)} expected {(L, M)}")
        for cls, inp in ((th.InverseRealSHT, (L, M)), (th.InverseRealVectorSHT, (2, L, M))):
            m = cls(nlat, nlon, lmax=case["lmax"], mmax=case["mmax"], grid=g)
            y = m(torch.randn(2, *inp, dtype=torch.complex64))
            mon.check((m.lmax, m.mmax) == (L, M) and tuple(y.shape[-2:]) == (nlat, nlon), "module_shapes", f"{cls.__name__}: limits {(m.lmax, m.mmax)} output {tuple(y.shape)}")
        mon.state("mod", g, nlat, nlon, L)
        return
    dt = getattr(torch, case["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    tol = 1e-13 if dt == torch.float64 else 1e-5
    nd, dim, norm = case["nd"], case["dim"], case["norm"]
    shape = [2, 3, 4, 2][:nd]
    mv = lambda a: np.moveaxis(a, dim, -1)
    dim = dim - nd if case["call"] and dim == nd - 1 else dim

    def call(f, x, name, val):
        """the same request in the spellings the signature allows: omitted defaults, positional arguments"""
        if case["call"] == 0:
            return f(x, dim=dim, norm=norm) if val is None else f(x, dim=dim, norm=norm, **{name: val})
        if case["call"] == 1:
            kw = {} if val is None else {name: val}
            kw.update({} if dim == -1 else {"dim": dim})
            kw.update({} if norm == "backward" else {"norm": norm})
            if dim == -1 and norm == "backward":
                mon.event("defaults")
            return f(x, **kw)
        return f(x, val, dim, norm=norm)
    if case["kind"] == "fft":
        n, K = case["n"], case["modes"]
        shape[dim] = n
        x = torch.randn(*shape, dtype=torch.float64).to(dt)
        if case["u"] % 2 and nd > 1:
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        x.requires_grad_(True)
        y = call(F.rfft, x, "nmodes", K)
        Kw = K if K is not None else n // 2 + 1
        sw = list(shape)
        sw[dim] = Kw
        mon.check(tuple(y.shape) == tuple(sw), "shape", f"rfft of {tuple(shape)} modes {K} dim {dim}: {tuple(y.shape)}")
        want = dft(mv(x.detach().double().numpy()), Kw, norm, n)
        mon.close(torch.movedim(y, dim, -1), ref.tens(want), tol, tol, "rfft")
        G = torch.randn(*sw, dtype=torch.complex128)
        yr = torch.view_as_real(y)
        (gx,) = torch.autograd.grad(yr, x, torch.view_as_real(G).to(yr.dtype))
        C, S = ref.dft_basis(n, Kw)
        live = np.arange(Kw) * 2 <= n
        Gm = mv(G.numpy()) * live
        sc = {"forward": 1 / ref.LD(n), "backward": ref.LD(1), "ortho": 1 / np.sqrt(ref.LD(n))}[norm]
        wg = (np.einsum("...k,kj->...j", Gm.real.astype(ref.LD), C) - np.einsum("...k,kj->...j", Gm.imag.astype(ref.LD), S)) * sc
        mon.close(torch.movedim(gx, dim, -1), ref.tens(wg), 10 * tol, tol, "rfft_grad")
        if Kw >= n // 2 + 1:
            mon.close(F.irfft(y, n=n, dim=dim, norm=norm), x, 10 * tol, tol, "roundtrip")
        mon.state("rfft", n, Kw, nd, dim, norm)
    else:
        K, n = case["modes"], case["n"]
        if n is None:  # one mode alone does not tell a length
            K = max(2, K)
        N = n if n is not None else 2 * (K - 1)
        shape[dim] = K
        c = torch.randn(*shape, dtype=torch.complex128).to(cdt).requires_grad_(True)
        y = call(F.irfft, c, "n", n)
        sw = list(shape)
        sw[dim] = N
        mon.check(tuple(y.shape) == tuple(sw), "shape", f"irfft of {tuple(shape)} to {n}: {tuple(y.shape)}")
        want, a, b = idft(mv(c.detach().to(torch.complex128).numpy()), N, norm)
        mon.close(torch.movedim(y, dim, -1), ref.tens(want), tol, tol, "irfft")
        up = torch.randn(*sw, dtype=torch.float64)
        (gc,) = torch.autograd.grad(y, c, up.to(dt))
        C, S = ref.dft_basis(N, K)
        u = mv(up.numpy()).astype(ref.LD)
        sc = {"forward": ref.LD(1), "backward": 1 / ref.LD(N), "ortho": 1 / np.sqrt(ref.LD(N))}[norm]
        wg = (np.einsum("...j,kj->...k", u, C) * a - 1j * np.einsum("...j,kj->...k", u, S) * b) * sc
        mon.close(torch.movedim(gc, dim, -1), ref.tens(wg), 10 * tol, tol, "irfft_grad")
        mon.state("irfft", N, K, nd, dim, norm)
