"""Dense evaluation of the discrete-continuous convolution stencil by the harness (numpy, extended-precision geometry)."""
import math
import numpy as np
import torch
from . import ref, basis

MODES = ["none", "nodal", "modal", "mean", "support", "geometric"]
EPS = 1e-9


class Ambiguous(Exception):
    """the stencil is decided by rounding (a point sits on the cutoff): outside what an independent evaluation can judge"""


def geometry(nlat_o, grid_o, nlat_i, nlon_i, grid_i):
    """distance and direction of every input point seen from output point (j, longitude 0): arrays (nlat_o, nlat_i, nlon_i)"""
    to, _ = ref.colat(nlat_o, grid_o)
    ti, wi = ref.colat(nlat_i, grid_i)
    b = ref.lons(nlon_i)[None, None, :]
    a = np.asarray(to)[:, None, None]
    g = np.asarray(ti)[None, :, None]
    x = np.cos(a) * np.cos(b) * np.sin(g) - np.cos(g) * np.sin(a)
    y = np.sin(b) * np.sin(g) + 0 * a
    z = np.cos(b) * np.sin(a) * np.sin(g) + np.cos(a) * np.cos(g)
    r = np.arctan2(np.hypot(x, y), z)
    phi = np.arctan2(y, x)
    phi = np.where(phi < 0, phi + 2 * ref.PI, phi)
    return r.astype(np.float64), np.mod(phi.astype(np.float64), 2 * math.pi)


def cdist(a, b):
    d = np.mod(a - b, 2 * math.pi)
    return np.minimum(d, 2 * math.pi - d)


def support(kind, shape, r, phi, rc):
    """which (function, point) pairs count as support; second result: pairs on the very edge"""
    s = basis.canon(kind, shape)
    K = basis.size(kind, shape)
    disk = r <= rc
    if kind != "piecewise linear":
        m = np.broadcast_to(disk, (K,) + r.shape)
        return m, np.zeros_like(m)
    nr, nphi = s
    dr = 2 * rc / (nr + 1)
    rows = []
    tol = 1e-9

    def one(dist_r, dist_p, angular=True):
        c = (r < 1e-6) & angular  # direction undefined at the centre
        inside = (dist_r <= dr + tol) & ((dist_p <= dphi + tol) | c) & disk
        edge = inside & ((dist_r > dr - tol) & (r > 1e-6) | (dist_p > dphi - tol) | c)
        return inside, edge

    dphi = 2 * math.pi / nphi if nphi > 1 else 1e9
    zero = np.zeros_like(r)
    if nphi == 1:
        for k in range(K):
            c = k * dr if nr % 2 else (k + 0.5) * dr
            rows.append(one(np.abs(r - c), zero, False))
    else:
        if nr % 2:
            rows.append(one(np.abs(r), zero, False))
        for i in range(nr // 2):
            for j in range(nphi):
                a = j * dphi - math.pi
                if nr % 2:
                    rows.append(one(np.abs(r - (i + 1) * dr), cdist(phi, a)))
                else:
                    c = (i + 0.5) * dr
                    i1, e1 = one(np.abs(r - c), cdist(phi, a))
                    i2, e2 = one(np.abs(r + c), cdist(phi + math.pi, a))
                    rows.append((i1 | i2, (e1 | e2) & ~((i1 & ~e1) | (i2 & ~e2))))
    return np.stack([x[0] for x in rows]), np.stack([x[1] for x in rows])


def _normalise(V, S, q, iso, mode, rc_nominal, axes):
    """V, S: (K, nlat_o, nlat_i, nlon_i); q broadcastable weights; axes: summed axes of one normalisation group"""
    K = V.shape[0]
    V = np.where(S, V, 0.0)
    Q = np.where(S, q, 0.0)
    sup = Q.sum(axes, keepdims=True)
    bias = np.zeros_like(sup)
    if mode == "modal":
        aniso = np.array([0.0 if i else 1.0 for i in iso]).reshape(-1, 1, 1, 1)
        bias = (V * Q).sum(axes, keepdims=True) * aniso / np.maximum(sup, EPS)
    scale = (np.abs(V - bias) * Q).sum(axes, keepdims=True)
    if mode in ("nodal", "modal"):
        N = (V - bias) / np.maximum(scale, EPS)
    elif mode == "mean":
        N = V / np.maximum(scale.mean((1, 2, 3), keepdims=True), EPS)
    elif mode == "support":
        N = V / np.maximum(sup, EPS)
    elif mode == "geometric":
        N = V / max((1 - math.cos(rc_nominal)) / 4, EPS)
    else:
        N = V
    return np.where(S, N, 0.0), scale, sup


class Stencil:
    """psi[k, j, i, p]: weight of input ring i, longitude offset p, for output ring j (transpose: j is the coarse/input ring)"""

    def __init__(self, in_shape, out_shape, grid_in, grid_out, kind, shape, cutoff, mode, transpose=False):
        # fine grid: where psi's columns live; coarse grid: where the filter is centred
        fine, coarse = (out_shape, in_shape) if transpose else (in_shape, out_shape)
        gf, gc = (grid_out, grid_in) if transpose else (grid_in, grid_out)
        self.cutoff = cutoff if cutoff is not None else math.pi / (coarse[0] - 1)
        rc = 1.001 * self.cutoff
        r, phi = geometry(coarse[0], gc, fine[0], fine[1], gf)
        if np.any(np.abs(r - rc) < 1e-9):
            raise Ambiguous("a point lies on the cutoff")
        if np.any((r > math.pi - 1e-6) & (r <= rc)):
            raise Ambiguous("the direction of an antipodal point is undefined")
        s = basis.canon(kind, shape)
        centre = r < 1e-6
        if kind == "piecewise linear" and s[1] > 1 and s[0] % 2 == 0:
            to, _ = ref.colat(coarse[0], gc)
            pole = (np.abs(np.sin(np.asarray(to, dtype=np.float64))) < 1e-9)[:, None, None]
            if np.any(centre & pole):
                raise Ambiguous("direction at the pole is undefined for a basis that is discontinuous at its centre")
            phi = np.where(centre, 0.0, phi)
        S, E = support(kind, shape, r, phi, rc)
        self.edge, self.S = E, S
        self.ambiguous_support = bool(E.any()) and mode in ("support", "modal")
        _, wc = ref.colat(coarse[0], gc)
        _, wf = ref.colat(fine[0], gf)
        if transpose:
            q = np.asarray(wc, dtype=np.float64)[None, :, None, None] / (2 * fine[1])
            axes = (1, 3)
            out_q = q * fine[1] / coarse[1]
        else:
            q = np.asarray(wf, dtype=np.float64)[None, None, :, None] / (2 * fine[1])
            axes = (2, 3)
            out_q = q
        self.q, self.out_q, self.axes = q, out_q, axes
        iso = basis.isotropic(kind, shape)

        def build(r0):
            rr = np.where(centre, r0, r)
            V = basis.evaluate(kind, shape, rr, phi, rc)
            self.V = V
            return _normalise(V, S, q, iso, mode, self.cutoff, axes)

        N2, _, _ = build(2.2e-8)
        N1, self.scale, self.sup = build(0.0)
        self.N = N1
        self.psi = N1 * out_q
        self.noise = np.abs(N2 - N1) * out_q  # what rounding of the angle at coinciding points can do
        if mode in ("nodal", "modal", "mean"):  # rounding of values that vanish on the whole grid is amplified by 1/scale
            sc = self.scale if mode != "mean" else self.scale.mean((1, 2, 3), keepdims=True)
            self.noise = self.noise + 3e-15 * np.abs(self.V).max(initial=1.0) / np.maximum(sc, EPS) * out_q * S
        self.transpose, self.fine, self.coarse = transpose, fine, coarse
        if mode in ("nodal", "modal", "mean"):
            sc = self.scale if mode != "mean" else self.scale.mean((1, 2, 3), keepdims=True)
            if np.any((sc > 1e-16) & (sc < 1e-7)) :
                raise Ambiguous("a filter whose norm on the grid is at rounding level")
        self.K = N1.shape[0]

    def tensor(self):
        return torch.from_numpy(np.ascontiguousarray(self.psi))

    def apply(self, x, w, groups, bias=None, psi=None):
        """double-precision, differentiable reference; x (B,C,nlat,nlon), w (O, C/G, K)"""
        psi = self.tensor() if psi is None else psi
        B, C = x.shape[:2]
        O = w.shape[0]
        outs = []
        f, c = self.fine, self.coarse
        s = f[1] // c[1]
        Cg, Og = C // groups, O // groups
        if not self.transpose:
            X = torch.stack([torch.roll(x, -q * s, -1) for q in range(c[1])], -1)  # B C i p q
            y = torch.einsum("kjip,bcipq->bckjq", psi, X)
            for g in range(groups):
                outs.append(torch.einsum("bckjq,ock->bojq", y[:, g * Cg:(g + 1) * Cg], w[g * Og:(g + 1) * Og]))
            out = torch.cat(outs, 1)
        else:
            ws = []
            for g in range(groups):
                ws.append(torch.einsum("bcjq,ock->bokjq", x[:, g * Cg:(g + 1) * Cg], w[g * Og:(g + 1) * Og]))
            z = torch.cat(ws, 1)
            P = torch.stack([torch.roll(psi, q * s, -1) for q in range(c[1])], -1)  # k j i p q
            out = torch.einsum("bokjq,kjipq->boip", z, P)
        if bias is not None:
            out = out + bias.reshape(1, -1, 1, 1)
        return out

    def tol(self, x, w, groups):
        """bound on the effect of the rounding noise for |x|, |w|"""
        n = torch.from_numpy(np.ascontiguousarray(self.noise))
        return float(self.apply(x.detach().double().abs(), w.detach().double().abs(), groups, psi=n).max())
