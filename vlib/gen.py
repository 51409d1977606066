"""Workload generators shared by the checks (all driven by the numpy Generator handed in)."""
import json
import zlib
import numpy as np

SHT_GRIDS = ["equiangular", "legendre-gauss", "lobatto"]
NORMS = ["ortho", "schmidt", "unnorm"]


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def ri(rng, a, b):
    """integer in [a, b]"""
    return int(rng.integers(a, b + 1))


def leading(rng):
    if rng.random() < 0.04:
        return choice(rng, [[5], [9], [17], [33], [4, 5], [2, 2, 1, 3]])
    return choice(rng, [[], [], [1], [3], [2, 2], [2, 1, 3]])


def batch(rng, usual, cost=0):
    """a batch size: usually small, now and then beyond the small powers of two where chunking would start"""
    if rng.random() < 0.06 and cost < 20000:
        return choice(rng, [4, 5, 8, 9, 16, 17, 33])
    return choice(rng, usual)


def grid_size(rng, big=False, hard=False):
    """(nlat, nlon): small sizes of all parities, thin and wide grids, occasionally large ones"""
    if big:
        return choice(rng, [(64, 128), (91, 180), (96, 192), (121, 240), (128, 256)])
    u = rng.random()
    if u < 0.15:
        return ri(rng, 2, 5), ri(rng, 1, 8)
    if u < 0.3:
        return ri(rng, 12, 24), ri(rng, 2, 9)
    if u < 0.45:
        return ri(rng, 3, 8), ri(rng, 20, 50)
    n = ri(rng, 5, 26)
    return n, choice(rng, [2 * n, 2 * n - 1, 2 * n - 2, 2 * n + 1, n, n + 1])


def limits(rng, nlat, nlon):
    """explicit lmax/mmax: None (default) or a value"""
    u = rng.random()
    if u < 0.45:
        return None, None
    if u < 0.6:
        return ri(rng, 1, nlat), None
    if u < 0.75:
        return None, ri(rng, 1, nlon // 2 + 1)
    return ri(rng, 1, nlat + 3), ri(rng, 1, nlon // 2 + 4)


def trunc(nlat, nlon, lmax, mmax, grid):
    from . import ref

    lmax = lmax or ref.lmax_default(nlat, grid)
    mmax = mmax or nlon // 2 + 1
    n = min(lmax, mmax)
    return n, n


SPECIAL = [None] * 8 + ["zero", "real", "imag", "one", "const", "zonal", "row", "lead"]


def special(t, mode, u=0):
    """the tensor t (..., rows, columns) or a structured version of it: many shortcuts apply only to such inputs"""
    if mode == "zero":
        return t * 0
    if mode == "real" and t.is_complex():
        return t.real.to(t.dtype)
    if mode == "imag" and t.is_complex():
        return t - t.real.to(t.dtype)
    if mode == "one":
        z = (t * 0).reshape(-1)
        if z.numel():
            z[u % z.numel()] = 1.0
        return z.reshape(t.shape)
    if mode == "const":
        return t * 0 + 1.0
    if mode == "zonal":
        return t[..., :1].expand(t.shape).clone()
    if mode == "row" and t.dim() >= 2 and t.shape[-2]:
        z = t * 0
        r = u % t.shape[-2]
        z[..., r, :] = t[..., r, :]
        return z
    if mode == "lead" and t.dim() >= 3 and t.shape[0] > 1:
        z = t.clone()
        z[u % t.shape[0]] = 0
        return z
    return t


def wide(rng, k=4):
    """resolutions beyond the small ones, next to and away from block boundaries"""
    return [65, 97, 129, 193] + [ri(rng, 50, 200) for _ in range(k)]


def shaped(t, case, salt=""):
    """t, or in half of the cases a structured version of it, decided by the case"""
    h = zlib.crc32((json.dumps(case, sort_keys=True) + salt).encode())
    return special(t, SPECIAL[h % len(SPECIAL)], h // 64)
