"""C01: the one-dimensional rules and the grid tables built from them."""
import math
import numpy as np
import torch
from vlib import ref

PROPERTY = "C01"
TECHNIQUE = "runtime monitor on returned nodes/weights: structural invariants plus an extended-precision reference rule and polynomial-exactness probes over swept sizes and intervals"
NOTE = "Held on every (rule, N, interval) executed; N is swept densely at small sizes and sampled above. Trusts the harness's extended-precision rules, which are themselves cross-checked by polynomial exactness."
RULE = "a case is (rule, N, interval or table); non-trivial when N>=2 and nodes, weights and exactness were all compared; distinct by (rule, N, interval class)"
LEVEL = "exploration"
ASSUMPTIONS = ["tolerances: 5e-14*N-scaled rounding, far below any wrong node or weight"]
ROUNDS = 4
REQUIRED_EVENTS = ["nodes", "weights", "exactness", "ordered", "lat_table", "lon_table", "periodic"]
FN = {"legendre-gauss": "legendre_gauss_weights", "lobatto": "lobatto_weights", "equiangular": "clenshaw_curtiss_weights", "equiangular-trapezoidal": "trapezoidal_weights"}


def cases(rng, tier):
    dense, big, nint = (66, [97, 128, 181, 256, 361], 2) if tier == "quick" else (260, [300, 361, 512, 721, 1024], 5)
    for g in FN:
        ns = list(range(2 if g != "legendre-gauss" else 1, dense)) + big + [int(v) for v in rng.integers(dense, 400, 4 if tier == "quick" else 12)]
        for n in ns:
            yield {"kind": "rule", "grid": g, "n": n, "a": -1.0, "b": 1.0}
            if n > 1:
                yield {"kind": "lat", "grid": g, "n": n}
            if n <= 20 or n in big:
                for _ in range(nint):
                    a = round(float(rng.uniform(-50, 50)), 3)
                    yield {"kind": "rule", "grid": g, "n": n, "a": a, "b": round(a + float(10 ** rng.uniform(-3, 2.5)), 4)}
                yield {"kind": "rule", "grid": g, "n": n, "a": 0.0, "b": 1.0}
    for n in list(range(1, dense)) + big + [1440]:
        yield {"kind": "lon", "n": n}
        yield {"kind": "periodic", "n": n, "a": 0.0, "b": 2 * math.pi}
        yield {"kind": "periodic", "n": n, "a": round(float(rng.uniform(-9, 9)), 3), "b": 10.5}


def shape_ok(mon, x, w, n, what):
    mon.check(isinstance(x, torch.Tensor) and isinstance(w, torch.Tensor), "tensors", f"{what}: not tensors")
    mon.check(tuple(x.shape) == (n,) and tuple(w.shape) == (n,), "lengths", f"{what}: lengths {tuple(x.shape)} {tuple(w.shape)} for n={n}")
    mon.check(x.dtype == torch.float64 and w.dtype == torch.float64, "double", f"{what}: dtypes {x.dtype} {w.dtype}")
    mon.check(bool(torch.isfinite(x).all()) and bool(torch.isfinite(w).all()), "finite", f"{what}: non-finite values")


def run(case, mon):
    from torch_harmonics import quadrature as Q

    n = case["n"]
    if case["kind"] == "rule":
        a, b, g = case["a"], case["b"], case["grid"]
        f = getattr(Q, FN[g])
        x, w = f(n, a, b) if not (a == -1.0 and b == 1.0 and n % 2) else f(n)
        shape_ok(mon, x, w, n, g)
        L, mid, ext = b - a, 0.5 * (a + b), max(abs(a), abs(b))
        eps = 4e-16 * (ext + L)
        rx, rw = ref.RULES[g](n)
        tx = ref.tens(rx * ref.LD(L) / 2 + (ref.LD(a) + ref.LD(b)) / 2)
        tw = ref.tens(rw * ref.LD(L) / 2)
        mon.check(bool((x[1:] > x[:-1]).all()) if n > 1 else True, "ordered", f"{g} nodes not strictly increasing")
        mon.check(float(x.min()) >= a - eps and float(x.max()) <= b + eps, "inside", f"{g} nodes outside [{a},{b}]")
        if g != "legendre-gauss":
            mon.close(torch.stack([x[0], x[-1]]), torch.tensor([a, b], dtype=torch.float64), 0, 4 * eps, "endpoints")
        mon.close(x, tx, 0, 20 * eps + 3e-15 * L, "nodes")
        mon.check(float(w.min()) > 0, "positive", f"{g} has a non-positive weight {float(w.min())}")
        mon.close(w, torch.flip(w, (0,)), 0, 2e-13 * L / max(n, 1) + 1e-15 * L, "symmetric")
        mon.close(w.sum(), torch.tensor(L, dtype=torch.float64), 2e-13, 0, "total")
        mon.close(w, tw, 0, 1e-12 * L / n + (3e-14 + 2e-16 * n) * L, "weights")
        # exactness on Legendre polynomials of the normalised variable
        deg = {"legendre-gauss": 2 * n - 1, "lobatto": 2 * n - 3, "equiangular": n - 1, "equiangular-trapezoidal": 1}[g]
        deg = min(deg, 400)
        if L > 1e-6 * ext:
            z = (x - mid) / (L / 2)
            p0, p1 = torch.ones_like(z), z.clone()
            errs = [abs(float((w * p0).sum()) / (L / 2) - 2)]
            k = 1
            while k <= deg:
                errs.append(abs(float((w * p1).sum()) / (L / 2)))
                p0, p1 = p1, ((2 * k + 1) * z * p1 - k * p0) / (k + 1)
                k += 1
            tol = (2e-13 + 1e-15 * n) * (1 + 50 * deg * ext / L * 1e-2)
            mon.event("exactness")
            i = int(np.argmax(errs))
            mon.worst["exactness"] = max(mon.worst.get("exactness", 0), errs[i] / tol)
            if not errs[i] <= tol:
                mon.fail(f"{g} n={n} [{a},{b}] integrates the degree-{i} Legendre polynomial with error {errs[i]:.3e} > {tol:.1e}", "exactness")
        mon.state(g, n, "unit" if (a, b) == (-1.0, 1.0) else "interval")
        # fresh tensors on every call
        if n <= 12:
            x2, w2 = f(n, a, b)
            x2.zero_(), w2.zero_()
            x3, w3 = f(n, a, b)
            mon.equal(x3, x, "not_shared")
            mon.equal(w3, w, "not_shared")
    elif case["kind"] == "periodic":
        a, b = case["a"], case["b"]
        x, w = Q.trapezoidal_weights(n, a=a, b=b, periodic=True)
        shape_ok(mon, x, w, n, "periodic trapezoid")
        L = b - a
        mon.close(x, ref.tens(ref.LD(a) + np.arange(n).astype(ref.LD) * (ref.LD(b) - ref.LD(a)) / n), 0, 4e-15 * (abs(a) + abs(b)), "nodes")
        mon.close(w, torch.full((n,), L / n, dtype=torch.float64), 1e-14, 0, "weights")
        for k in range(0, min(n, 60)):
            v = (w * torch.exp(1j * k * (x - a) * (2 * math.pi / L))).sum() / L
            mon.close(v, torch.tensor(1.0 + 0j if k == 0 else 0j, dtype=torch.complex128), 0, 1e-13 * (1 + k), "periodic")
        mon.state("periodic", n)
    elif case["kind"] == "lat":
        g = case["grid"]
        t, w = Q.precompute_latitudes(n, grid=g) if (n % 3 or g != "equiangular") else Q.precompute_latitudes(n)
        shape_ok(mon, t, w, n, "latitudes")
        rt, rw = ref.colat(n, g)
        mon.check(bool((t[1:] > t[:-1]).all()), "ordered", "colatitudes not strictly increasing (north to south)")
        mon.check(float(t[0]) >= 0 and float(t[-1]) <= math.pi, "inside", "colatitude outside [0,pi]")
        # arccos loses half the digits next to a pole that is off by one rounding
        mon.close(t, ref.tens(rt), 0, 5e-8 if g in ("lobatto",) else 3e-12, "lat_table")
        mon.close(torch.cos(t), ref.tens(np.cos(rt)), 0, 2e-14, "lat_cos")
        mon.close(w, ref.tens(rw), 0, 1e-12 / n + 3e-14 + 2e-16 * n, "weights")
        mon.close(t + torch.flip(t, (0,)), torch.full((n,), math.pi, dtype=torch.float64), 0, 1e-7 if g == "lobatto" else 1e-11, "mirror")
        mon.state("lat", g, n)
    else:
        l = Q.precompute_longitudes(n)
        mon.check(tuple(l.shape) == (n,) and l.dtype == torch.float64, "lengths", f"longitudes {tuple(l.shape)} {l.dtype}")
        mon.close(l, ref.tens(ref.lons(n)), 0, 5e-15, "lon_table")
        mon.check(float(l[0]) == 0.0 and float(l[-1]) < 2 * math.pi, "lon_range", "longitudes must start at 0 and exclude 2*pi")
        mon.state("lon", n)
