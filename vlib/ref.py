"""Independent reference mathematics (numpy, extended precision where it matters). Nothing here imports the project."""
import functools, math
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


def _legendre(n, x):
    """P_n, P_{n-1} at x (any float type)."""
    p0, p1 = np.ones_like(x), x.copy()
    if n == 0:
        return p0, np.zeros_like(x)
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
    return p1, p0


@functools.lru_cache(None)
def gauss(n):
    """ascending nodes in [-1,1] and weights"""
    if n == 1:
        return np.zeros(1, LD), np.full(1, 2, LD)
    k = np.arange(1, n)
    b = k / np.sqrt(4.0 * k * k - 1)
    x = np.linalg.eigvalsh(np.diag(b, 1) + np.diag(b, -1)).astype(LD)
    for _ in range(6):
        p, q = _legendre(n, x)
        dp = n * (q - x * p) / (1 - x * x)
        x = x - p / dp
    p, q = _legendre(n, x)
    dp = n * (q - x * p) / (1 - x * x)
    w = 2 / ((1 - x * x) * dp * dp)
    return x, w


@functools.lru_cache(None)
def lobatto(n):
    if n == 2:
        return np.array([-1, 1], LD), np.array([1, 1], LD)
    # interior nodes: zeros of P'_{n-1}, i.e. of the Jacobi(1,1) polynomial of degree n-2
    k = np.arange(1, n - 2)
    b = np.sqrt(k * (k + 2.0) / ((2 * k + 1) * (2.0 * k + 3)))
    x = np.linalg.eigvalsh(np.diag(b, 1) + np.diag(b, -1)).astype(LD) if n > 3 else np.zeros(1, LD)
    m = n - 1
    for _ in range(6):
        p, q = _legendre(m, x)
        d1 = m * (q - x * p) / (1 - x * x)
        d2 = (2 * x * d1 - m * (m + 1) * p) / (1 - x * x)
        x = x - d1 / d2
    x = np.concatenate([np.array([-1], LD), x, np.array([1], LD)])
    p, _ = _legendre(m, x)
    return x, 2 / (n * (n - 1) * p * p)


@functools.lru_cache(None)
def clenshaw(n):
    m = n - 1
    k = np.arange(n).astype(LD)
    th = k * PI / m
    x = -np.cos(th)
    w = np.ones(n, LD)
    for j in range(1, m // 2 + 1):
        bj = LD(1 if 2 * j == m else 2)
        w = w - bj / (4 * j * j - 1) * np.cos(2 * j * th)
    w = w * 2 / m
    w[0] /= 2
    w[-1] /= 2
    return x, w


@functools.lru_cache(None)
def trapez(n):
    x = np.linspace(LD(-1), LD(1), n)
    w = np.full(n, LD(2) / (n - 1))
    w[0] /= 2
    w[-1] /= 2
    return x, w


RULES = {"legendre-gauss": gauss, "lobatto": lobatto, "equiangular": clenshaw, "equiangular-trapezoidal": trapez}


@functools.lru_cache(None)
def colat(nlat, grid):
    """colatitudes (north to south) and weights in cos(theta)"""
    x, w = RULES[grid](nlat)
    if grid == "equiangular":
        t = np.arange(nlat).astype(LD) * PI / (nlat - 1)
    else:
        t = np.arccos(np.clip(x[::-1], LD(-1), LD(1)))
    return t, w[::-1].copy()


def lons(nlon):
    return np.arange(nlon).astype(LD) * 2 * PI / nlon


def lmax_default(nlat, grid):
    return {"legendre-gauss": nlat, "lobatto": nlat - 1}.get(grid, (nlat + 1) // 2)


def alp(mmax, lmax, theta, deriv=False):
    """Orthonormal associated Legendre functions P[m,l,k] without Condon-Shortley phase,
    written as sin^m * q_lm(cos); with deriv also d/dtheta and m*P/sin(theta)."""
    theta = np.asarray(theta, LD)
    c, s = np.cos(theta), np.sin(theta)
    # exact poles
    s = np.where(np.abs(s) < 1e-17, LD(0), s)
    K = len(theta)
    P = np.zeros((mmax, lmax, K), LD)
    D = np.zeros((mmax, lmax, K), LD) if deriv else None
    S = np.zeros((mmax, lmax, K), LD) if deriv else None
    qmm = 1 / np.sqrt(4 * PI)
    for m in range(min(mmax, lmax)):
        if m > 0:
            qmm = qmm * np.sqrt(LD(2 * m + 1) / LD(2 * m))
        q = np.zeros((lmax, K), LD)
        dq = np.zeros((lmax, K), LD)  # derivative with respect to x=cos
        q[m] = qmm
        if m + 1 < lmax:
            f = np.sqrt(LD(2 * m + 3))
            q[m + 1] = f * c * qmm
            dq[m + 1] = f * qmm
        for l in range(m + 2, lmax):
            a = np.sqrt(LD(4 * l * l - 1) / LD(l * l - m * m))
            b = np.sqrt(LD((l - 1) ** 2 - m * m) / LD(4 * (l - 1) ** 2 - 1))
            q[l] = a * (c * q[l - 1] - b * q[l - 2])
            dq[l] = a * (q[l - 1] + c * dq[l - 1] - b * dq[l - 2])
        sm = s**m if m > 0 else np.ones(K, LD)
        P[m] = sm * q
        if deriv:
            if m == 0:
                D[m] = -s * dq
            else:
                sm1 = s ** (m - 1) if m > 1 else np.ones(K, LD)
                D[m] = m * sm1 * c * q - sm * s * dq
                S[m] = m * sm1 * q
    return (P, D, S) if deriv else P


def norm_scale(lmax, norm, inverse):
    """factor per degree that multiplies the orthonormal functions"""
    l = np.arange(lmax).astype(LD)
    if norm == "ortho":
        f = np.ones(lmax, LD)
    elif norm == "schmidt":
        f = np.sqrt(4 * PI) / np.sqrt(2 * l + 1)
    else:
        f = np.full(lmax, np.sqrt(4 * PI))
    return 1 / f if inverse else f


def phase(mmax, csphase):
    s = np.ones(mmax, LD)
    if csphase:
        s[1::2] = -1
    return s


def unit(theta, lam):
    theta, lam = np.asarray(theta, LD), np.asarray(lam, LD)
    return np.stack([np.sin(theta) * np.cos(lam), np.sin(theta) * np.sin(lam), np.cos(theta) * np.ones_like(lam)], -1)


def dft_basis(nlon, mmax):
    """cos/sin of m*lambda_j with exact argument reduction: arrays (mmax, nlon)"""
    k = (np.arange(mmax)[:, None] * np.arange(nlon)[None, :]) % nlon
    a = k.astype(LD) * 2 * PI / nlon
    return np.cos(a), np.sin(a)


def tens(x):
    import torch

    x = np.asarray(x)
    if np.iscomplexobj(x):
        return torch.from_numpy(np.ascontiguousarray(x.astype(np.complex128)))
    return torch.from_numpy(np.ascontiguousarray(x.astype(np.float64)))
