"""Invalid configurations and inputs are rejected, and a rejected call leaves no trace."""
from vlib import simdist  # before torch_harmonics  # noqa: F401
import math
import torch
from vlib import dist as vd, gen, ops, ring
from checks import C23_distributed_sht as c23, C24_distributed_disco as c24, C25_distributed_attention as c25, C26_distributed_other as c26

PROPERTY = "C29"
TECHNIQUE = "runtime monitoring: every operator is called with inputs whose shape is wrong in one respect, and constructed with one invalid argument; the monitor demands an exception (not a result, not a crash of the process) and compares the operator's results before and after the rejected call bit by bit"
NOTE = "every serial operator in all implementations, functions of the quadrature, filter-basis, truncation and random-field modules, and the constructors of the distributed modules. Inputs: too few/many dimensions, one extent off by one, doubled, halved, one (broadcastable), zero; batches that differ between query, key and value."
RULE = "distinct (operator, implementation, input or argument, kind of error) situations in which the monitor saw the call rejected"
LEVEL = "exploration"
JOBS = 8
ROUNDS = 4
DKINDS = ["sht", "isht", "vsht", "ivsht", "disco", "discoT", "nattn", "resample", "quad", "specconv"]
REQUIRED_EVENTS = ["bad-input-rejected", "usable-after-rejection", "bad-argument-rejected", "valid-accepted"] + ["op:" + k for k in ops.KINDS] + ["bad-input-rejected-distributed"] + ["dop:" + k for k in DKINDS]
ASSUMPTIONS = ["SHT norm names and the output grid name of AttentionS2 are outside the property: unknown norm names are documented nowhere as rejected and are used internally, and the output grid name has no influence on global attention"]
HOW = ["+1", "-1", "x2", "1", "half", "0", "+3"]
BADNAMES = ["foo", "Equiangular", "", "equiangular ", "gauss", "legendre_gauss"]


def cases(rng, tier):
    n = 60 if tier == "quick" else 500
    for i in range(n):
        for k in ops.KINDS:
            yield {"k": "input", "s": ops.spec(rng, k, small=True), "u": int(rng.integers(10**6))}
    for k in DKINDS:
        for rep in range(25 if tier == "quick" else 300):
            yield {"k": "dist", "c": k, "u": int(rng.integers(10**6))}
    for c in ARGS:
        for rep in range(3 if tier == "quick" else 12):
            yield {"k": "arg", "c": c, "u": int(rng.integers(10**6))}


# --------------------------------------------------------------------------- inputs
def bad_shapes(s, rng):
    """(input number, whole shape, label), one thing wrong"""
    tails, _, flex = ops.shapes_io(s)
    out = []
    for i, t in enumerate(tails):
        for d in range(1, len(t) + 1):
            for how in HOW:
                n = t[-d]
                new = {"+1": n + 1, "-1": n - 1, "x2": 2 * n, "1": 1, "half": n // 2, "0": 0, "+3": n + 3}[how]
                if new != n and new >= 0:
                    w = list(t)
                    w[-d] = new
                    out.append((i, [2] + w, f"extent -{d} {how}"))
        if len(t) >= 2 and t[-1] != t[-2]:
            out.append((i, [2] + t[:-2] + [t[-1], t[-2]], "swapped"))
        out.append((i, t[1:] if not flex else t[-1:], "too few dimensions"))
        if len(t) >= 2 and flex and len(t) == 3:
            out.append((i, t[1:], "no component dimension"))
        if not flex:
            out.append((i, [2, 1] + t, "extra dimension"))
    if len(tails) == 3:
        for i in range(3):
            out.append((i, [3] + tails[i], "other batch"))
            out.append((i, [1] + tails[i], "single batch"))
    return [out[j] for j in rng.permutation(len(out))]


def call(m, xs):
    with torch.no_grad():
        return m(*xs)


def run_input(case, mon):
    import numpy as np

    s = case["s"]
    rng = np.random.default_rng(case["u"])
    m = ops.make(s)
    xs = ops.inputs(s, B=2)
    want = call(m, xs)
    mon.event("valid-accepted")
    mon.event("op:" + s["op"])
    todo = bad_shapes(s, rng)[:14]
    for i, shape, label in todo:
        bad = list(xs)
        bad[i] = torch.randn(*shape, dtype=xs[i].dtype)
        grad = rng.random() < 0.5
        if grad:
            bad = [b.clone().requires_grad_(True) for b in bad]
        try:
            y = m(*bad)
        except Exception:
            pass
        else:
            mon.fail(f"bad-input-rejected: {s['op']} ({s.get('impl', '')}) expecting input {i} of shape (2, {', '.join(map(str, ops.shapes_io(s)[0][i]))}) accepted {tuple(shape)} ({label}) and returned a result of shape {tuple(y.shape)}", key=f"accepted:{s['op']}:{label}")
        mon.event("bad-input-rejected")
        mon.state(s["op"], s.get("impl", ""), i, label)
    if todo:
        mon.equal(call(m, xs), want, "usable-after-rejection")


# --------------------------------------------------------------------------- constructors
def _args():
    """(name, good keyword arguments, bad replacements per argument); every bad value is invalid whatever the rest"""
    import torch_harmonics as th

    A = {}
    for c in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
        A[c] = (lambda c=c: getattr(th, c), dict(nlat=6, nlon=12, grid="equiangular"), {"grid": BADNAMES + ["equiangular-trapezoidal", None], "nlat": [0, -3]})
    A["QuadratureS2"] = (lambda: th.QuadratureS2, dict(img_shape=(6, 12), grid="lobatto"), {"grid": BADNAMES, "img_shape": [(6,), (6, 12, 3)]})
    A["ResampleS2"] = (lambda: th.ResampleS2, dict(nlat_in=6, nlon_in=12, nlat_out=5, nlon_out=7, grid_in="equiangular", grid_out="lobatto", mode="bilinear"), {"grid_in": BADNAMES, "grid_out": BADNAMES, "mode": ["nearest", "Bilinear", "", "bilinear_spherical"]})
    A["SpectralConvS2"] = (lambda: th.SpectralConvS2, dict(in_shape=(6, 12), out_shape=(6, 12), in_channels=4, out_channels=4, num_groups=2, grid_in="equiangular", grid_out="lobatto"), {"grid_in": BADNAMES, "grid_out": BADNAMES, "in_channels": [3, 5], "out_channels": [3, 5], "num_groups": [3]})
    D = dict(in_channels=4, out_channels=4, groups=2, kernel_shape=(3, 3), basis_type="piecewise linear", basis_norm_mode="nodal", grid_in="equiangular", grid_out="lobatto")
    B = {"grid_in": BADNAMES, "grid_out": BADNAMES, "in_channels": [3, 5], "out_channels": [3, 5], "groups": [3], "basis_type": ["foo", "", "Zernike", "piecewise_linear"], "basis_norm_mode": ["foo", "", "Nodal", "l2"], "theta_cutoff": [0.0, -0.1, -math.pi], "kernel_shape": [(3, 3, 3), ()]}
    A["DiscreteContinuousConvS2"] = (lambda: th.DiscreteContinuousConvS2, dict(D, in_shape=(6, 12), out_shape=(5, 6)), dict(B, out_shape=[(5, 7), (5, 24), (5, 5), (5, 8)], in_shape=[(6, 7), (6, 13), (6, 3), (6, 9)]))
    A["DiscreteContinuousConvTransposeS2"] = (lambda: th.DiscreteContinuousConvTransposeS2, dict(D, in_shape=(5, 6), out_shape=(6, 12)), dict(B, in_shape=[(5, 7), (5, 24), (5, 5), (5, 8)], out_shape=[(6, 7), (6, 13), (6, 3), (6, 9)]))
    N = dict(in_channels=4, num_heads=2, in_shape=(6, 12), out_shape=(5, 6), grid_in="equiangular", grid_out="lobatto")
    A["NeighborhoodAttentionS2"] = (lambda: th.NeighborhoodAttentionS2, N, {"grid_in": BADNAMES, "grid_out": BADNAMES, "in_channels": [3, 5], "k_channels": [3, 5, 1], "out_channels": [3, 5, 1], "out_shape": [(5, 7), (5, 5), (5, 18), (5, 8)], "in_shape": [(6, 7), (6, 13), (6, 9)], "theta_cutoff": [0.0, -0.1]})
    A["AttentionS2"] = (lambda: th.AttentionS2, N, {"grid_in": BADNAMES, "in_channels": [3, 5], "k_channels": [3, 5, 1], "out_channels": [3, 5, 1], "out_shape": [(5, 7), (5, 5), (5, 24), (5, 8)], "in_shape": [(6, 7), (6, 13), (6, 9), (6, 3)]})
    from torch_harmonics.filter_basis import get_filter_basis
    from torch_harmonics.random_fields import GaussianRandomFieldS2
    from torch_harmonics import quadrature as q, truncation

    A["get_filter_basis"] = (lambda: get_filter_basis, dict(kernel_shape=(3, 3), basis_type="harmonic"), {"basis_type": ["foo", "", "Harmonic", "fourier bessel", "piecewise-linear"], "kernel_shape": [(3, 3, 3), ()]})
    A["GaussianRandomFieldS2"] = (lambda: GaussianRandomFieldS2, dict(nlat=6, alpha=2.0, grid="equiangular"), {"alpha": [1.0, 0.5, -1.0], "grid": BADNAMES})
    A["precompute_latitudes"] = (lambda: q.precompute_latitudes, dict(nlat=6, grid="lobatto"), {"grid": BADNAMES, "nlat": [0, -2]})
    A["clenshaw_curtiss_weights"] = (lambda: q.clenshaw_curtiss_weights, dict(n=4), {"n": [1, 0, -1]})
    A["truncate_sht"] = (lambda: truncation.truncate_sht, dict(nlat=6, nlon=12, grid="lobatto"), {"grid": BADNAMES})
    import torch_harmonics.distributed as thd

    for c in ("DistributedRealSHT", "DistributedInverseRealSHT", "DistributedRealVectorSHT", "DistributedInverseRealVectorSHT"):
        A[c] = (lambda c=c: getattr(thd, c), dict(nlat=6, nlon=12, grid="equiangular"), {"grid": BADNAMES})
    A["DistributedDiscreteContinuousConvS2"] = (lambda: thd.DistributedDiscreteContinuousConvS2, A["DiscreteContinuousConvS2"][1], A["DiscreteContinuousConvS2"][2])
    A["DistributedDiscreteContinuousConvTransposeS2"] = (lambda: thd.DistributedDiscreteContinuousConvTransposeS2, A["DiscreteContinuousConvTransposeS2"][1], A["DiscreteContinuousConvTransposeS2"][2])
    A["DistributedResampleS2"] = (lambda: thd.DistributedResampleS2, A["ResampleS2"][1], A["ResampleS2"][2])
    A["DistributedQuadratureS2"] = (lambda: thd.DistributedQuadratureS2, A["QuadratureS2"][1], {"grid": BADNAMES})
    A["DistributedSpectralConvS2"] = (lambda: thd.DistributedSpectralConvS2, A["SpectralConvS2"][1], A["SpectralConvS2"][2])
    return A


ARGS = ["RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT", "QuadratureS2", "ResampleS2", "SpectralConvS2", "DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "NeighborhoodAttentionS2", "AttentionS2", "get_filter_basis", "GaussianRandomFieldS2", "precompute_latitudes",
        "clenshaw_curtiss_weights", "truncate_sht", "DistributedRealSHT", "DistributedInverseRealSHT", "DistributedRealVectorSHT", "DistributedInverseRealVectorSHT", "DistributedDiscreteContinuousConvS2", "DistributedDiscreteContinuousConvTransposeS2", "DistributedResampleS2", "DistributedQuadratureS2",
        "DistributedSpectralConvS2"]


def run_arg(case, mon):
    import numpy as np

    rng = np.random.default_rng(case["u"])
    f, good, bad = _args()[case["c"]]
    f = f()
    # vary what is valid around the invalid argument
    good = dict(good)
    if "optimized_kernel" not in good and case["c"] in ("DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "NeighborhoodAttentionS2") and rng.random() < 0.4:
        good["optimized_kernel"] = False
    for g in ("grid", "grid_in", "grid_out"):
        if g in good:
            good[g] = gen.choice(rng, gen.SHT_GRIDS)
    if "basis_norm_mode" in good and "basis_norm_mode":
        good["basis_norm_mode"] = gen.choice(rng, ["none", "nodal", "modal", "mean", "support", "geometric"])
    f(**good)
    mon.event("valid-accepted")
    for name, vals in bad.items():
        for v in vals:
            kw = dict(good, **{name: v})
            try:
                f(**kw)
            except Exception:
                mon.event("bad-argument-rejected")
                mon.state(case["c"], name, str(v))
            else:
                mon.fail(f"bad-argument-rejected: {case['c']} accepted {name}={v!r} with {good}", key=f"accepted:{case['c']}:{name}")
    f(**good)


# --------------------------------------------------------------------------- distributed modules
def worker_init(*a):
    ring.install()


def dist_setup(kind, rng):
    """(grid, make, load, global inputs, how they are split) of one distributed operator"""
    if kind in ("sht", "isht", "vsht", "ivsht"):
        c = c23.draw(rng, kind)
        _, make, xs, ind, _, _ = c23.setup(c)
        load = None
        fixed = 3 if kind[-4:] == "vsht" else 2
    elif kind in ("disco", "discoT"):
        while True:
            c = c24.draw(rng)
            if c["s"]["op"] == kind:
                break
        _, make, load, xs, ind, _, _ = c24.setup(c)
        fixed = 4
    elif kind == "nattn":
        while True:
            c = c25.draw(rng)
            c["c"]["self"] = False
            try:
                _, make, load, xs, ind, _ = c25.setup(c)
            except Exception:
                continue
            break
        fixed = 4
    else:
        c = c26.draw(rng, kind)
        _, make, load, xs, ind, _, _ = c26.setup(c)
        fixed = 4 if kind == "specconv" else 2
    return c["g"], make, load, xs, ind, fixed


def run_dist(case, mon):
    import numpy as np

    import torch_harmonics.distributed as thd

    rng = np.random.default_rng(case["u"])
    kind = case["c"]
    g, make, load, xs, ind, fixed = dist_setup(kind, rng)
    thd.config.debug = False
    # one thing wrong, in the same way on every rank
    todo = []
    for i, x in enumerate(xs):
        for d in [-j for j in range(1, fixed + 1) if j < 4 or len(xs) > 1]:
            for how in ["+1", "+3", "x2", "-1", "1", "half"]:
                todo.append((i, d, how))
        if fixed == 4:
            todo += [(i, 0, "drop"), (i, 0, "add")]
    todo = [todo[j] for j in rng.permutation(len(todo))[:8]]

    def broken(t, d, how):
        if how == "drop":
            return t[0]
        if how == "add":
            return t[None]
        n = t.shape[d]
        new = {"+1": n + 1, "-1": n - 1, "x2": 2 * n, "1": 1, "half": n // 2, "+3": n + 3}[how]
        if new == n or new < 1:
            return None
        return torch.cat([t] * (new // n + 1), d).narrow(d, 0, new).clone()

    w = vd.world(g, case["u"])
    local = [[vd.cut(x, d, g, p, a).detach().clone() for x, d in zip(xs, ind)] for p, a in w.grid]
    todo = [b for b in todo if all(broken(loc[b[0]], b[1], b[2]) is not None for loc in local)]

    def body(p, a, wd):
        loc = [vd.cut(x, d, g, p, a).detach().clone() for x, d in zip(xs, ind)]
        try:
            m = make()
        except ValueError:  # a split outside the documented restrictions (C25)
            return None
        if load is not None:
            with torch.no_grad():
                load(m, p, a)
        want = call(m, loc)
        bad = []
        for i, d, how in todo:
            ts = list(loc)
            ts[i] = broken(loc[i], d, how)
            try:
                y = call(m, ts)
            except Exception as e:
                bad.append(None)
            else:
                bad.append((tuple(ts[i].shape), tuple(y.shape)))
        again = call(m, loc)
        return bad, again.shape == want.shape and torch.equal(torch.nan_to_num(again, 7.0), torch.nan_to_num(want, 7.0))

    res = w.run(body)
    if any(r is None for r in res):
        mon.event("split-rejected")
        return
    for (p, a), loc, (bad, same) in zip(w.grid, local, res):
        for (i, d, how), b in zip(todo, bad):
            if b is not None:
                mon.fail(f"bad-input-rejected: rank ({p},{a}) of a {g['P']}x{g['A']} grid running the distributed {kind}, whose local input {i} has shape {tuple(loc[i].shape)}, accepted {b[0]} and returned a result of shape {b[1]}", key=f"accepted:d{kind}:{d}:{how}")
            mon.event("bad-input-rejected-distributed")
            mon.state("d" + kind, g["P"], g["A"], i, d, how)
        mon.check(same, "usable-after-rejection", f"rank ({p},{a}) of the distributed {kind} gives another result after a rejected call")
    mon.event("dop:" + kind)


def run(case, mon):
    if case["k"] == "dist":
        return run_dist(case, mon)
    (run_input if case["k"] == "input" else run_arg)(case, mon)
