"""C10: filter bases."""
import math
import numpy as np
import torch
from vlib import basis, gen

PROPERTY = "C10"
TECHNIQUE = "runtime monitor on the sparse evaluation: duplicates, support and values compared with analytic basis functions evaluated by the harness on adversarial point sets; partition-of-unity, normalisation and isotropy monitors"
NOTE = "Held on every basis, shape and point set executed. Trusts scipy's Bessel functions and the harness's formulas."
RULE = "a case is (family, shape, cutoff, point-set kind, dtype); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["angles are given in [-pi, 2*pi), the range every caller uses"]
ROUNDS = 4
REQUIRED_EVENTS = ["size", "values", "no_duplicates", "support", "partition", "isotropic", "normalised", "period", "three-dimensional"]


def shapes(rng, kind):
    if rng.random() < 0.08:  # large families
        if kind == "piecewise linear":
            return gen.choice(rng, [[gen.ri(rng, 8, 20)], [gen.ri(rng, 2, 12), gen.ri(rng, 8, 20)], [gen.ri(rng, 8, 12), 1]])
        if kind in ("harmonic", "morlet"):
            return [gen.ri(rng, 3, 9), gen.ri(rng, 3, 9)]
        return gen.ri(rng, 7, 12) if kind == "zernike" else [gen.ri(rng, 3, 6), gen.ri(rng, 4, 9)]
    if kind == "piecewise linear":
        return gen.choice(rng, [[gen.ri(rng, 1, 7)], [gen.ri(rng, 1, 7), 1], [gen.ri(rng, 1, 7), gen.ri(rng, 2, 7)], gen.ri(rng, 1, 6)])
    if kind in ("harmonic", "morlet"):
        return gen.choice(rng, [gen.ri(rng, 1, 4), [gen.ri(rng, 1, 5), gen.ri(rng, 1, 5)]])
    if kind == "zernike":
        return gen.choice(rng, [gen.ri(rng, 1, 8), [gen.ri(rng, 1, 6)]])
    return gen.choice(rng, [gen.ri(rng, 1, 4), [gen.ri(rng, 1, 4)], [gen.ri(rng, 1, 4), gen.ri(rng, 0, 5)]])


KINDS = ["piecewise linear", "harmonic", "zernike", "fourier-bessel", "morlet"]


def cases(rng, tier):
    for i in range(400 if tier == "quick" else 5000):
        k = KINDS[i % 5] if i % 10 != 9 else "piecewise linear"
        yield {"kind": k, "shape": shapes(rng, k), "rc": round(float(10 ** rng.uniform(-2, 0.4)), 5), "pts": gen.choice(rng, ["random", "edges", "polar", "far"]), "dtype": "float32" if rng.random() < 0.25 else "float64", "u": i}


def points(case, K):
    rc, kind = case["rc"], case["pts"]
    sh = (3 + case["u"] % 4, 5 + case["u"] % 7)
    r = torch.rand(*sh, dtype=torch.float64) * rc * 1.3
    phi = torch.rand(*sh, dtype=torch.float64) * 2 * math.pi - (math.pi if case["u"] % 2 else 0)
    if kind == "edges":
        s = basis.canon("piecewise linear", case["shape"]) if case["kind"] == "piecewise linear" else (5, 4)
        dr = 2 * rc / (s[0] + 1)
        r = torch.randint(0, 2 * s[0] + 3, sh).double() * dr / 2
        n2 = 2 * max(1, s[1])
        phi = torch.randint(0, n2, sh).double() * 2 * math.pi / n2 - (math.pi if case["u"] % 2 else 0)
        r[0, 0] = 0.0
        r[0, 1] = rc
    elif kind == "polar":
        r = torch.linspace(0, 1.1, sh[0], dtype=torch.float64)[:, None].expand(sh).contiguous() * rc
        phi = (torch.arange(sh[1], dtype=torch.float64) * 2 * math.pi / sh[1])[None].expand(sh).contiguous()
    elif kind == "far":
        r = r + rc
        r[-1, -1] = 0.5 * rc
    return r, phi


def dense(fb, r, phi, rc, mon, lift=False):
    if lift:  # this family documents a leading dimension of one as well
        iidx, vals = fb.compute_support_vals(r[None], phi[None], r_cutoff=rc)
        mon.event("three-dimensional")
    else:
        iidx, vals = fb.compute_support_vals(r, phi, r_cutoff=rc)
    mon.check(iidx.dim() == 2 and iidx.shape[1] == 3 and vals.shape == (iidx.shape[0],), "layout", f"{tuple(iidx.shape)} {tuple(vals.shape)}")
    D = torch.zeros(fb.kernel_size, *r.shape, dtype=torch.float64)
    cnt = torch.zeros_like(D)
    D.index_put_(tuple(iidx.t()), vals.double(), accumulate=True)
    cnt.index_put_(tuple(iidx.t()), torch.ones(len(vals), dtype=torch.float64), accumulate=True)
    mon.check(float(cnt.max()) <= 1 if cnt.numel() else True, "no_duplicates", "a (function, point) pair is listed more than once")
    mon.check(bool((r[iidx[:, 1], iidx[:, 2]] <= rc).all()), "support", "a listed point lies beyond the cutoff")
    mon.check(vals.dtype == r.dtype, "dtype", f"{vals.dtype} for {r.dtype} points")
    return D, cnt


def run(case, mon):
    from torch_harmonics.filter_basis import get_filter_basis

    kind, rc = case["kind"], case["rc"]
    shape = tuple(case["shape"]) if isinstance(case["shape"], list) else case["shape"]
    fb = get_filter_basis(shape, kind)
    K = basis.size(kind, shape)
    mon.check(fb.kernel_size == K, "size", f"{kind} {shape}: {fb.kernel_size} functions, expected {K}")
    mon.check(list(fb.isotropic_mask) == basis.isotropic(kind, shape), "isotropic", f"{kind} {shape}: isotropic mask {list(fb.isotropic_mask)}")
    dt = getattr(torch, case["dtype"])
    r, phi = points(case, K)
    r, phi = r.to(dt), phi.to(dt)
    if dt == torch.float32:  # keep the cutoff test unambiguous
        r = torch.where((r.double() / rc - 1).abs() < 1e-5, r * 0.999, r)
    D, cnt = dense(fb, r, phi, rc, mon)
    want = basis.evaluate(kind, shape, r.double().numpy(), phi.double().numpy(), rc)
    # within rounding of the cutoff either answer is right for functions that vanish there
    tol = 2e-9 if dt == torch.float64 else 2e-4
    mon.close(D, torch.from_numpy(want), tol, tol, "values")
    if kind not in ("piecewise linear",):
        inside = (r <= rc)[None].expand_as(D)
        mon.check(bool((cnt[inside] == 1).all()), "support", "a point inside the cutoff is missing")
    mon.state(kind, shape, case["pts"], case["dtype"], rc > 1)
    # angle only matters modulo 2*pi
    ph2 = torch.where(phi < math.pi, phi, phi - 2 * math.pi) if case["u"] % 2 == 0 else torch.where(phi < 0, phi + 2 * math.pi, phi)
    D2, _ = dense(fb, r, ph2, rc, mon, lift=case["kind"] == "fourier-bessel" and case["u"] % 3 == 0)
    mon.close(D2, D, 100 * tol, 100 * tol, "period")
    if kind == "piecewise linear":
        s = basis.canon(kind, shape)
        dr = 2 * rc / (s[0] + 1)
        last = (s[0] // 2) * dr if s[0] % 2 else (s[0] // 2 - 0.5) * dr
        lo = 0.0 if (s[0] % 2 or s[1] > 1) else 0.5 * dr
        ok = (r.double() <= last) & (r.double() >= lo)
        mon.event("partition")
        t = D.sum(0)[ok]
        if t.numel() and not float((t - 1).abs().max()) <= 10 * tol:
            mon.fail(f"{kind} {shape}: basis sums to {float(t.min())}..{float(t.max())} inside the outermost ring", "partition")
    elif kind != "morlet" and dt == torch.float64 and case["u"] % 3 == 0:
        # unit L2 norm on the unit disk
        n = 120
        x, w = np.polynomial.legendre.leggauss(n)
        rr = torch.from_numpy((x + 1) / 2)
        ww = torch.from_numpy(w / 2)
        pp = torch.arange(64, dtype=torch.float64) * 2 * math.pi / 64
        R, Ph = torch.meshgrid(rr, pp, indexing="ij")
        V, _ = dense(fb, R, Ph, 1.0, mon)
        nrm = ((V**2) * (R * ww[:, None]) * 2 * math.pi / 64).sum((-2, -1)).sqrt()
        mon.close(nrm, torch.ones(K, dtype=torch.float64), 3e-3, 0, "normalised")
