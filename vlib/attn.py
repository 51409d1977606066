"""Dense double-precision spherical attention evaluated by the harness."""
import math
import numpy as np
import torch
from . import ref, gen

GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


class Ambiguous(Exception):
    pass


def quad(nlat, nlon, grid):
    _, w = ref.colat(nlat, grid)
    return torch.from_numpy(np.asarray(w, dtype=np.float64) * (2 * math.pi / nlon))


def mask(in_shape, out_shape, grid_in, grid_out, cutoff):
    """(nlat_out*nlon_out, nlat_in*nlon_in) bool: input point within 1.001*cutoff geodesic distance of the output point"""
    to = np.asarray(ref.colat(out_shape[0], grid_out)[0])
    ti = np.asarray(ref.colat(in_shape[0], grid_in)[0])
    lo, li = ref.lons(out_shape[1]), ref.lons(in_shape[1])
    a = to[:, None, None, None]
    g = ti[None, None, :, None]
    b = (np.asarray(li)[None, :] - np.asarray(lo)[:, None])[None, :, None, :]
    x = np.cos(a) * np.cos(b) * np.sin(g) - np.cos(g) * np.sin(a)
    y = np.sin(b) * np.sin(g) + 0 * a
    z = np.cos(b) * np.sin(a) * np.sin(g) + np.cos(a) * np.cos(g)
    r = np.arctan2(np.hypot(x, y), z).astype(np.float64)
    rc = 1.001 * cutoff
    if np.any(np.abs(r - rc) < 1e-9) or (rc > math.pi - 1e-7 and rc < math.pi + 1e-7):
        raise Ambiguous("a point lies on the cutoff")
    m = r <= rc
    return torch.from_numpy(m.reshape(out_shape[0] * out_shape[1], -1))


def logits(q, k, heads, scale):
    """q (B,Ck,Ho,Wo), k (B,Ck,Hi,Wi) -> (B,heads,No,Ni)"""
    B, C = q.shape[:2]
    Q = q.reshape(B, heads, C // heads, -1)
    K = k.reshape(B, heads, C // heads, -1)
    return torch.einsum("bhcn,bhcm->bhnm", Q, K) * scale


def rms(t, heads, w, eps):
    B, C, H, W = t.shape
    u = t.reshape(B, heads, C // heads, H, W)
    u = u / torch.sqrt((u * u).mean(2, keepdim=True) + eps)
    return (u * (1 + w).reshape(1, 1, -1, 1, 1)).reshape(B, C, H, W)


def forward(P, query, key, value, heads, scale, qw, msk=None, eps=float(torch.finfo(torch.float32).eps), info=None):
    """P: dict of double parameters (missing/None allowed)."""
    lin = lambda t, w, b: torch.einsum("oi,bihw->bohw", w.reshape(w.shape[0], -1), t) + (0 if b is None else b.reshape(1, -1, 1, 1))
    q = lin(query, P["q_weights"], P.get("q_bias"))
    k = lin(key, P["k_weights"], P.get("k_bias"))
    v = lin(value, P["v_weights"], P.get("v_bias"))
    amp = 1.0
    if P.get("q_norm_weights") is not None:
        if info is not None:  # how much the normalisation amplifies the rounding of the projections
            for t, src, n in ((q, query, "q"), (k, key, "k")):
                ab = lin(src.detach().abs(), P[n + "_weights"].detach().abs(), None if P.get(n + "_bias") is None else P[n + "_bias"].detach().abs())
                B, C, H, W = t.shape
                r = torch.sqrt((t.detach().reshape(B, heads, -1, H, W) ** 2).mean(2) + eps)
                amp += float((ab.reshape(B, heads, -1, H, W).amax(2) / r).max())
        q = rms(q, heads, P["q_norm_weights"], eps)
        k = rms(k, heads, P["k_norm_weights"], eps)
    L = logits(q, k, heads, P.get("scale", scale))
    M = (L if msk is None else L.masked_fill(~msk, float("-inf"))).detach().amax(-1, keepdim=True)
    full = (L - M) + torch.log(qw.repeat_interleave(key.shape[-1])).reshape(1, 1, 1, -1)
    if msk is not None:
        full = full.masked_fill(~msk, float("-inf"))
    A = torch.softmax(full, -1)
    B = q.shape[0]
    V = v.reshape(B, heads, v.shape[1] // heads, -1)
    o = torch.einsum("bhnm,bhcm->bhcn", A, V).reshape(B, v.shape[1], query.shape[2], query.shape[3])
    if info is not None:
        info.update(amp=amp, L=L.detach(), A=A.detach(), v=v.detach(), q=q.detach(), k=k.detach(), o=o.detach())
    return lin(o, P["proj_weights"], P.get("proj_bias"))


def params(mod):
    return {n: p.detach().double().clone() for n, p in mod.named_parameters()}


def shapes(rng, kind, small=False):
    """(in_shape, out_shape) for kind in down/self/up"""
    if small:
        n, m = gen.ri(rng, 2, 5), gen.ri(rng, 1, 5)
        f = gen.choice(rng, [2, 3])
    else:
        u = rng.random()
        if u < 0.08:
            n, m = gen.ri(rng, 2, 5), gen.choice(rng, [65, 66, 70, 96, 128, 130])
        else:
            n, m = gen.ri(rng, 2, 12), gen.choice(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24])
        f = (gen.choice(rng, [2, 2, 3, 4, 5, 6, 7]) if m < 11 else gen.choice(rng, [2, 2, 3, 4])) if m < 40 else 2
    n2 = gen.choice(rng, [n, n, 2 * n, 2 * n - 1, n + 1, max(2, n - 1)])
    if small:
        n2 = min(n2, 7)
    if kind == "self":
        return [n, m], [n if rng.random() < 0.6 else n2, m]
    return ([n2, m * f], [n, m]) if kind == "down" else ([n, m], [n2, m * f])
