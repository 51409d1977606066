"""C11: discrete-continuous convolution equals its defining sum."""
import math
import numpy as np
import torch
from vlib import gen, disco, basis
from vlib.core import Skip
from checks.C10_filter_basis import shapes, KINDS

PROPERTY = "C11"
TECHNIQUE = "runtime monitor: module outputs (optimized, reference and fused paths) compared with a dense quadrature sum whose geometry, filters and normalisation the harness evaluates itself; linearity, locality and group-isolation monitors"
NOTE = "Held on every configuration executed. Points exactly on a support edge, where rounding decides membership, are excluded or judged by normalisation identities instead."
RULE = "a case is (grids, sizes, basis, shape, normalisation, cutoff, groups, channels, implementation); distinct by that tuple; non-trivial when the stencil has entries"
LEVEL = "exploration"
ASSUMPTIONS = ["the effective cutoff is 1.001 times the nominal one, as documented in the precomputation", "filters whose norm on the grid is below 1e-7 are not judged in the modes that divide by it"]
ROUNDS = 4
REQUIRED_EVENTS = ["output", "linear_x", "linear_w", "groups", "local", "edge_modal", "edge_support", "nan_outside"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


def case_of(rng, i, transpose=False):
    kind = "piecewise linear" if rng.random() < 0.35 else gen.choice(rng, KINDS)
    sh = shapes(rng, kind)
    K = basis.size(kind, tuple(sh) if isinstance(sh, list) else sh)
    while K > 16:
        sh = shapes(rng, kind)
        K = basis.size(kind, tuple(sh) if isinstance(sh, list) else sh)
    # coarse and fine grids
    cl, co = gen.ri(rng, 2, 9), gen.choice(rng, [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16])
    s = gen.choice(rng, [1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9])
    if s > 4:
        co = min(co, 8)
    fl = gen.choice(rng, [cl, cl, 2 * cl - 1, 2 * cl, gen.ri(rng, 2, 14)])
    u = rng.random()
    if u < 0.04:
        cl = 1
    elif u < 0.08:  # wide rows
        cl, fl = gen.ri(rng, 2, 4), gen.ri(rng, 2, 5)
        s = gen.choice(rng, [1, 2, 3])
        co = gen.choice(rng, [33, 48, 64, 65, 72, 96, 127, 130] if s == 1 else [32, 40, 65])
    elif u < 0.12:  # many latitudes
        cl, fl, co, s = gen.ri(rng, 12, 28), gen.ri(rng, 12, 36), gen.ri(rng, 4, 16), gen.choice(rng, [1, 2])
    G = gen.choice(rng, [1, 1, 2, 3])
    cut = None if (cl > 1 and rng.random() < 0.3) else round(float(10 ** rng.uniform(-1.0, 0.45)), 4)
    gc = gen.choice(rng, GRIDS) if cl > 1 else "legendre-gauss"
    gf = gen.choice(rng, GRIDS)
    ch = [G * gen.choice(rng, [1, 1, 2, 3, 4]), G * gen.ri(rng, 1, 3)]
    if u > 0.94 and fl * s * co * cl * co < 40000:  # many channels or a large batch
        G = gen.choice(rng, [1, 2, 4, 8, 16])
        ch = [G * gen.ri(rng, 1, max(1, 40 // G)), G * gen.ri(rng, 1, max(1, 40 // G))]
    return {"fine": [fl, s * co], "coarse": [cl, co], "gf": gf, "gc": gc, "kind": kind, "shape": sh, "mode": gen.choice(rng, disco.MODES), "cut": cut,
            "G": G, "ci": ch[0], "co": ch[1], "bias": bool(rng.integers(2)), "B": gen.batch(rng, [1, 2], fl * s * co * cl * ch[0] * ch[1]), "impl": gen.choice(rng, ["opt", "opt", "fused", "torch"]), "u": i}


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 9000):
        yield case_of(rng, i)


LEGACY = {"nodal": "individual", "geometric": "area ratio"}  # documented deprecated names of two modes


def shape_of(case):
    return tuple(case["shape"]) if isinstance(case["shape"], list) else case["shape"]


def build(case, transpose=False, ci=None, co=None, G=None, bias=None, impl=None, dtype=torch.float64):
    import torch_harmonics as th

    impl = impl or case["impl"]
    i, o, gi, go = (case["coarse"], case["fine"], case["gc"], case["gf"]) if transpose else (case["fine"], case["coarse"], case["gf"], case["gc"])
    kw = dict(kernel_shape=shape_of(case), basis_type=case["kind"], basis_norm_mode=LEGACY.get(case["mode"], case["mode"]) if case["u"] % 3 == 0 else case["mode"], groups=G or case["G"], grid_in=gi, grid_out=go,
              bias=case["bias"] if bias is None else bias, theta_cutoff=case["cut"], optimized_kernel=impl != "torch")
    if not transpose:
        kw["fused"] = impl == "fused"
    cls = th.DiscreteContinuousConvTransposeS2 if transpose else th.DiscreteContinuousConvS2
    return cls(ci or case["ci"], co or case["co"], tuple(i), tuple(o), **kw).to(dtype)


def stencil(case, transpose=False):
    i, o, gi, go = (case["coarse"], case["fine"], case["gc"], case["gf"]) if transpose else (case["fine"], case["coarse"], case["gf"], case["gc"])
    return disco.Stencil(tuple(i), tuple(o), gi, go, case["kind"], shape_of(case), case["cut"], case["mode"], transpose)


def matrix(case, K, transpose=False):
    """the operator's response to unit inputs, per basis function, read off the module itself"""
    conv = build(case, transpose, ci=1, co=K, G=1, bias=False)
    with torch.no_grad():
        conv.weight.zero_()
        for k in range(K):
            conv.weight[k, 0, k] = 1.0
    n, m = case["coarse"] if transpose else case["fine"]
    with torch.no_grad():
        if not transpose:
            I = torch.eye(n * m, dtype=torch.float64).reshape(n * m, 1, n, m)
            y = conv(I)[..., 0]  # (nm, K, nlat_out)
            return y.permute(1, 2, 0).reshape(K, case["coarse"][0], n, m).numpy()
        I = torch.zeros(n, 1, n, m, dtype=torch.float64)
        for j in range(n):
            I[j, 0, j, 0] = 1.0
        return conv(I).permute(1, 0, 2, 3).numpy()  # K, j, i, p


def edge_identities(case, st, mon, transpose=False):
    """support/modal normalisation where rounding decides the membership of edge points: identities that hold either way"""
    M = matrix(case, st.K, transpose) / st.out_q
    S, E, V = st.S, st.edge, st.V
    core = S & ~E
    iso = basis.isotropic(case["kind"], shape_of(case))
    for k in range(st.K):
        ax = 1 if transpose else 0
        rings = M.shape[2] if transpose else M.shape[1]
        for j in range(rings):
            sl = (k, slice(None), j) if transpose else (k, j)
            m, c, e, v = M[sl], core[sl], E[sl], V[sl]
            q = np.broadcast_to(st.q, M.shape)[sl]
            if np.abs(m[~(c | e)]).max(initial=0) > 1e-12:
                mon.fail(f"function {k}, ring {j}: response outside the filter's support", "edge_outside")
            if not c.any():
                continue
            if case["mode"] == "support":
                lo, hi = q[c].sum(), q[c | e].sum()
                big = c & (np.abs(v) > 1e-3)
                if not big.any():
                    continue
                s = v[big] / m[big]
                mon.check(s.max() - s.min() <= 1e-5 * s.max() and lo * (1 - 1e-6) - 1e-12 <= s.min() and s.max() <= hi * (1 + 1e-6) + 1e-12, "edge_support",
                          f"function {k}, ring {j}: normalised by {s.min():.6g}..{s.max():.6g}, the area of its support is {lo:.6g}..{hi:.6g}")
            else:
                l1 = (np.abs(m) * q).sum()
                if l1 < 1e-3:
                    continue
                mon.check(abs(l1 - 1) < 1e-6 or st.scale.min() < 1e-6, "edge_modal", f"function {k}, ring {j}: weighted L1 norm {l1} is not 1")
                mean = (m * q).sum()
                if not iso[k]:
                    mon.check(abs(mean) < 1e-6, "edge_modal", f"function {k}, ring {j}: anisotropic filter has mean {mean} in modal normalisation")
                if c.sum() >= 3 and np.ptp(v[c]) > 1e-3:
                    A = np.stack([v[c], np.ones(c.sum())], 1)
                    sol, *_ = np.linalg.lstsq(A, m[c], rcond=None)
                    res = np.abs(A @ sol - m[c]).max()
                    mon.check(res <= 1e-5 * np.abs(m[c]).max() and sol[0] > 0, "edge_modal", f"function {k}, ring {j}: normalised values are not an affine image of the filter ({res:.2e})")


def run(case, mon):
    _run(case, mon, False)


def _run(case, mon, transpose):
    G, ci, co, B = case["G"], case["ci"], case["co"], case["B"]
    try:
        st = stencil(case, transpose)
    except disco.Ambiguous as e:
        mon.event("ambiguous")
        build(case, transpose)
        return
    if st.ambiguous_support:
        edge_identities(case, st, mon, transpose)
        mon.state("edge", *[str(case[k]) for k in ("fine", "coarse", "gf", "gc", "kind", "shape", "mode", "cut")])
        return
    conv = build(case, transpose)
    n, m = case["coarse"] if transpose else case["fine"]
    no, mo = case["fine"] if transpose else case["coarse"]
    W = conv.weight
    mon.check(tuple(W.shape) == (co, ci // G, st.K), "weight_shape", f"{tuple(W.shape)}")
    with torch.no_grad():
        W.normal_()
        if case["bias"]:
            conv.bias.normal_()
    x = gen.shaped(torch.randn(B, ci, n, m, dtype=torch.float64), case, "x")
    y = conv(x).detach()
    want = st.apply(x, W.detach(), G, conv.bias.detach() if case["bias"] else None)
    noise = 4 * st.tol(x, W, G)
    mon.check(tuple(y.shape) == (B, co, no, mo) and y.dtype == torch.float64, "shape", f"{tuple(y.shape)} {y.dtype}")
    mon.close(y, want, 1e-8, 1e-9 + noise, "output")
    if st.psi.any():
        mon.state(*[str(case[k]) for k in ("fine", "coarse", "gf", "gc", "kind", "shape", "mode", "cut", "G", "impl")])
    u = case["u"] % 4
    b = conv.bias.detach().reshape(1, -1, 1, 1) if case["bias"] else 0.0
    if u == 0:
        z = torch.randn_like(x)
        mon.close(conv(2 * x - 0.5 * z).detach() - b, 2 * (y - b) - 0.5 * (conv(z).detach() - b), 1e-11, 1e-10, "linear_x")
    elif u == 1:
        w0 = W.detach().clone()
        with torch.no_grad():
            W.copy_(torch.randn_like(W))
            y1 = conv(x)
            W.copy_(3 * w0 - W)
            y2 = conv(x)
        mon.close(y1 + y2 - 2 * b, 3 * (y - b), 1e-11, 1e-10, "linear_w")
    elif u == 2 and G > 1:
        x2 = x.clone()
        x2[:, : ci // G] = torch.randn_like(x2[:, : ci // G]) * 50
        mon.close(conv(x2).detach()[:, co // G:], y[:, co // G:], 0, 1e-11, "groups")
    else:
        # influence of one input point: only outputs whose stencil contains it
        i, p = int(torch.randint(n, ())), int(torch.randint(m, ()))
        x2 = x.clone()
        x2[..., i, p] += 1.0
        d = (conv(x2).detach() - y).abs().amax((0, 1))
        P = torch.from_numpy((st.S | st.edge).any(0))  # coarse ring, fine ring, offset
        s = case["fine"][1] // case["coarse"][1]
        if transpose:
            reach = torch.roll(P[i], s * p, -1)
        else:
            reach = torch.stack([P[:, i, (p - q * s) % m] for q in range(mo)], -1)
        mon.check(float(d[~reach].max()) <= 1e-12 if bool((~reach).any()) else True, "local", "an input point influences an output beyond the cutoff")
        if bool((~reach).any()) and case["impl"] != "torch":
            x2[..., i, p] = float("nan")
            ok = torch.isfinite(conv(x2).detach()).all(0).all(0)
            mon.check(bool(ok[~reach].all()), "nan_outside", "a NaN input point reaches outputs beyond the cutoff")
