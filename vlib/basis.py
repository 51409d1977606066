"""Analytic filter bases, evaluated densely by the harness in double precision (numpy/scipy only)."""
import math
import numpy as np
from scipy import special, optimize


def _hat(d, h):
    return np.maximum(0.0, 1.0 - np.abs(d) / h)


def _cdist(a, b):
    d = np.mod(a - b, 2 * math.pi)
    return np.minimum(d, 2 * math.pi - d)


def piecewise(shape, r, phi, rc):
    nr, nphi = shape
    dr = 2 * rc / (nr + 1)
    out = []
    if nphi == 1:
        K = nr // 2 + nr % 2
        for k in range(K):
            c = k * dr if nr % 2 else (k + 0.5) * dr
            out.append(_hat(r - c, dr))
    else:
        dphi = 2 * math.pi / nphi
        if nr % 2:
            out.append(_hat(r, dr))
        for i in range(nr // 2):
            for j in range(nphi):
                a = j * dphi - math.pi
                if nr % 2:
                    out.append(_hat(r - (i + 1) * dr, dr) * _hat(_cdist(phi, a), dphi))
                else:
                    c = (i + 0.5) * dr
                    out.append(_hat(r - c, dr) * _hat(_cdist(phi, a), dphi) + _hat(-r - c, dr) * _hat(_cdist(phi + math.pi, a), dphi))
    return np.stack(out)


def harmonic(shape, r, phi, rc, normalize=True):
    def raw(rn, ph):
        x, y = rn * np.sin(ph), rn * np.cos(ph)
        win = np.cos(0.5 * math.pi * rn) ** 2
        f = []
        for m in range(shape[0]):
            for n in range(shape[1]):
                fx, fy = math.ceil(n / 2) * math.pi, math.ceil(m / 2) * math.pi
                hx = np.sin(fx * x) if n % 2 else np.cos(fx * x)
                hy = np.sin(fy * y) if m % 2 else np.cos(fy * y)
                f.append(win * hx * hy)
        return np.stack(f)

    v = raw(r / rc, phi)
    if normalize:
        # midpoint rule, 50 radii x 200 angles: the documented numerical normalisation
        rr = (np.arange(50) + 0.5) / 50
        pp = np.arange(200) * 2 * math.pi / 200
        R, Ph = np.meshgrid(rr, pp, indexing="ij")
        nrm = np.sqrt((raw(R, Ph) ** 2 * R / 50 * 2 * math.pi / 200).sum((-2, -1)))
        v = v / np.maximum(nrm, 1e-12).reshape(-1, *([1] * r.ndim))
    return v


def zernike(nmax, r, phi, rc):
    u = r / rc
    out = []
    for n in range(nmax):
        for l in range(n + 1):
            m = 2 * l - n
            am = abs(m)
            R = np.zeros_like(u)
            for k in range((n - am) // 2 + 1):
                c = (-1) ** k * math.factorial(n - k) // (math.factorial(k) * math.factorial((n + am) // 2 - k) * math.factorial((n - am) // 2 - k))
                R = R + c * u ** (n - 2 * k)
            ang = np.sin(m * phi) if m < 0 else np.cos(m * phi)
            out.append(R * ang / math.sqrt(math.pi * (2 if m == 0 else 1) / (2 * (n + 1))))
    return np.stack(out)


def bessel_index(shape):
    nmax, mmax = shape
    amax = special.jn_zeros(0, nmax)[-1]
    e = []
    for m in range(mmax + 1):
        for a in special.jn_zeros(m, nmax):
            if a > amax * (1 + 1e-12):
                break
            e.append((a, m, True))
            if m > 0:
                e.append((a, m, False))
    e.sort(key=lambda q: q[0])
    return e


def bessel(shape, r, phi, rc):
    out = []
    for a, m, c in bessel_index(shape):
        nrm = abs(special.jv(m + 1, a)) / math.sqrt(2) * math.sqrt(2 * math.pi if m == 0 else math.pi)
        out.append(special.jv(m, a * r / rc) * (np.cos(m * phi) if c else np.sin(m * phi)) / nrm)
    return np.stack(out)


def canon(kind, shape):
    if kind == "piecewise linear":
        s = [shape] if isinstance(shape, int) else list(shape)
        return (s[0], 1) if len(s) == 1 else tuple(s)
    if kind in ("harmonic", "morlet"):
        return (shape, shape) if isinstance(shape, int) else tuple(shape)
    if kind == "zernike":
        return shape if isinstance(shape, int) else shape[0]
    s = [shape, shape] if isinstance(shape, int) else list(shape)
    return (s[0], s[0]) if len(s) == 1 else tuple(s)


def evaluate(kind, shape, r, phi, rc):
    """dense values (K, *r.shape), zero beyond the cutoff"""
    s = canon(kind, shape)
    if kind == "piecewise linear":
        v = piecewise(s, r, phi, rc)
    elif kind in ("harmonic", "morlet"):
        v = harmonic(s, r, phi, rc, normalize=kind == "harmonic")
    elif kind == "zernike":
        v = zernike(s, r, phi, rc)
    else:
        v = bessel(s, r, phi, rc)
    return np.where(r <= rc, v, 0.0)


def size(kind, shape):
    s = canon(kind, shape)
    if kind == "piecewise linear":
        return (s[0] // 2) * s[1] + s[0] % 2
    if kind in ("harmonic", "morlet"):
        return s[0] * s[1]
    if kind == "zernike":
        return s * (s + 1) // 2
    return len(bessel_index(s))


def isotropic(kind, shape):
    s = canon(kind, shape)
    K = size(kind, shape)
    if kind == "piecewise linear":
        return [True] * K if s[1] == 1 else [s[0] % 2 == 1 and k == 0 for k in range(K)]
    if kind in ("harmonic", "morlet"):
        return [k == 0 for k in range(K)]
    if kind == "zernike":
        return [2 * l - n == 0 for n in range(s) for l in range(n + 1)]
    return [m == 0 for _, m, _ in bessel_index(s)]
