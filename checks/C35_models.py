"""The example networks act per sample, commute with longitude shifts and survive a state-dict round trip."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C35"
TECHNIQUE = "runtime monitoring: the real networks run on random inputs while metamorphic monitors compare outputs across batches, longitude shifts, repeated calls, reloaded parameters and (for the building blocks) with their definitions"
NOTE = "all five networks of torch_harmonics.examples.models over grids, scale factors, depths, embeddings, skips, attention modes; their spectral convolution, stochastic depth and position embeddings."
RULE = "distinct (network, grid, sizes, options) situations"
LEVEL = "exploration"
ASSUMPTIONS = ["shift equivariance is judged where no position embedding breaks it and every internal longitude count divides the input's"]
ROUNDS = 4
MODELS = ["SphericalFourierNeuralOperator", "LocalSphericalNeuralOperator", "SphericalTransformer", "SphericalUNet", "SphericalSegformer"]
REQUIRED_EVENTS = ["shape:" + m for m in MODELS] + ["batch:" + m for m in MODELS] + ["shift:" + m for m in MODELS] + ["reload:" + m for m in MODELS] + ["deterministic", "input-kept", "gradient", "zero-batch-gradient", "specconv", "droppath", "embedding"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]


def cases(rng, tier):
    for i in range(7 if tier == "quick" else 120):
        for k in MODELS:
            yield case(rng, k)
        for k in ("specconv", "droppath", "embedding"):
            yield {"k": k, "nlat": gen.ri(rng, 6, 16), "nlon": 2 * gen.ri(rng, 6, 16), "B": gen.ri(rng, 1, 4), "ci": gen.ri(rng, 1, 4), "co": gen.ri(rng, 1, 4), "grid": gen.choice(rng, GRIDS), "grid2": gen.choice(rng, GRIDS), "down": bool(rng.integers(2)),
                   "op": gen.choice(rng, ["driscoll-healy", "diagonal", "block-diagonal"]), "bias": bool(rng.integers(2)), "prob": round(float(rng.random() * 0.9), 2), "u": int(rng.integers(10**6))}


def case(rng, k):
    deep = k in ("SphericalUNet", "SphericalSegformer")
    s = 2 if deep else gen.choice(rng, [1, 2, 3])
    n = gen.ri(rng, 1, 2) if deep else 1
    step = s**n if deep else s
    nlon = step * gen.ri(rng, 8 if deep else 6, 10)
    nlon += nlon % 2 * step
    o = {"img_size": [gen.ri(rng, 10 if deep else 12, 18) * (2 if deep else 1), nlon * (2 if deep else 1)], "grid": gen.choice(rng, GRIDS), "grid_internal": gen.choice(rng, ["legendre-gauss", "equiangular"]), "scale_factor": s, "in_chans": gen.ri(rng, 1, 3), "out_chans": gen.ri(rng, 1, 3),
         "activation_function": gen.choice(rng, ["gelu", "relu"])}
    if deep:
        o["embed_dims"] = [4, 8][:n]
        o["depths"] = [int(rng.integers(1, 3)) for _ in range(n)]
        o["kernel_shape"] = gen.choice(rng, [(3, 3), (2, 2), (2, 3)])
        o["filter_basis_type"] = gen.choice(rng, ["morlet", "piecewise linear"])
        if k == "SphericalUNet":
            o["transform_skip"] = bool(rng.integers(2))
            o["downsampling_mode"] = gen.choice(rng, ["bilinear", "conv"])
            o["upsampling_mode"] = gen.choice(rng, ["bilinear", "conv"])
        else:
            o["heads"] = [1, 2][:n]
            o["attention_mode"] = gen.choice(rng, ["neighborhood", "global"])
            o["upsampling_method"] = gen.choice(rng, ["bilinear", "conv"])
    else:
        o["embed_dim"] = gen.choice(rng, [4, 6])
        o["num_layers"] = gen.ri(rng, 1, 3)
        o["normalization_layer"] = gen.choice(rng, ["none", "instance_norm"])
        o["residual_prediction"] = bool(rng.integers(2))
        o["bias"] = bool(rng.integers(2))
        o["use_mlp"] = bool(rng.integers(2))
        o["pos_embed"] = gen.choice(rng, ["none", "none", "learnable lat", "spectral", "sequence", "learnable latlon"])
        if k == "LocalSphericalNeuralOperator":
            o["upsample_sht"] = bool(rng.integers(2))
            o["sfno_block_frequency"] = gen.ri(rng, 1, 3)
        if k == "SphericalTransformer":
            o["num_heads"] = gen.choice(rng, [1, 2])
            o["attention_mode"] = gen.choice(rng, ["neighborhood", "global"])
            o["upsample_sht"] = bool(rng.integers(2))
    return {"k": k, "o": o, "step": step, "B": gen.ri(rng, 2, 3), "u": int(rng.integers(10**6))}


def build(case, seed):
    import torch_harmonics.examples.models as md

    o = dict(case["o"])
    o["img_size"] = tuple(o["img_size"])
    if isinstance(o.get("kernel_shape"), list):
        o["kernel_shape"] = tuple(o["kernel_shape"])
    torch.manual_seed(seed)
    m = getattr(md, case["k"])(**o)
    with torch.no_grad():  # no parameter stays at zero: a bias or an embedding that is ignored must show
        for p in m.parameters():
            p += 0.1 * torch.randn_like(p)
    return m


def run(case, mon):
    if case["k"] in ("specconv", "droppath", "embedding"):
        return globals()[case["k"]](case, mon)
    k, o = case["k"], case["o"]
    m = build(case, case["u"]).eval()
    nlat, nlon = o["img_size"]
    g = torch.Generator().manual_seed(case["u"])
    x = torch.randn(case["B"], o["in_chans"], nlat, nlon, generator=g)
    keep = x.clone()
    with torch.no_grad():
        if o.get("residual_prediction") and o["in_chans"] != o["out_chans"] and k in ("LocalSphericalNeuralOperator", "SphericalTransformer"):
            try:
                ok = tuple(m(x).shape) == (case["B"], o["out_chans"], nlat, nlon)
            except RuntimeError:
                ok = False
            if not ok:
                mon.event("shape:" + k)
                mon.fail("the residual is added without a projection to the output channels", key="residual-channels:" + k)
        y = m(x)
        mon.check(tuple(y.shape) == (case["B"], o["out_chans"], nlat, nlon) and y.dtype == torch.float32 and bool(torch.isfinite(y).all()), "shape:" + k, f"output {tuple(y.shape)} {y.dtype}")
        mon.check(torch.equal(x, keep), "input-kept", "the network modified its input")
        mon.close(m(x), y, 1e-6, 0, "deterministic")
        sc = float(y.abs().max())
        for i in range(case["B"]):
            mon.close(m(x[i:i + 1])[0], y[i], 2e-4, 0, "batch:" + k, scale=sc)
        perm = torch.randperm(case["B"], generator=g)
        mon.close(m(x[perm]), y[perm], 2e-4, 0, "batch:" + k, scale=sc)
        if o.get("pos_embed", "none") in ("none", "learnable lat"):
            for j in {1, int(torch.randint(1, nlon // case["step"], (1,), generator=g))}:
                j *= case["step"]
                mon.close(m(torch.roll(x, j, -1)), torch.roll(y, j, -1), 5e-4, 0, "shift:" + k, scale=sc)
        m2 = build(case, case["u"] + 1).eval()
        mon.check(float((m2(x) - y).abs().max()) > 1e-4 * sc, "seeds-differ", "differently seeded networks agree")
        m2.load_state_dict(m.state_dict())
        mon.close(m2(x), y, 1e-6, 0, "reload:" + k, scale=sc)
    # the derivative of one sample's output does not reach the other samples
    x.requires_grad_()
    w = torch.randn(o["out_chans"], nlat, nlon, generator=g)
    gx, = torch.autograd.grad((m(x)[0] * w).sum(), x)
    mon.check(bool(torch.isfinite(gx).all()) and float(gx[0].abs().max()) > 0, "gradient", "gradient is not finite or vanishes")
    mon.check(float(gx[1:].abs().max()) == 0, "zero-batch-gradient", "the output of one sample depends on another")
    mon.state(k, tuple(sorted((a, str(b)) for a, b in o.items())))


def specconv(case, mon):
    import torch_harmonics as th
    from torch_harmonics.examples.models._layers import SpectralConvS2

    nlat, nlon = case["nlat"], case["nlon"]
    n2, l2 = (nlat // 2 + 2, nlon // 2 + nlon // 2 % 2) if case["down"] else (nlat, nlon)
    L = min(n2 // 2, l2 // 2)
    f = th.RealSHT(nlat, nlon, lmax=L, mmax=L, grid=case["grid"])
    inv = th.InverseRealSHT(n2, l2, lmax=L, mmax=L, grid=case["grid2"])
    torch.manual_seed(case["u"])
    m = SpectralConvS2(f, inv, case["ci"], case["co"], operator_type=case["op"], bias=case["bias"])
    if case["bias"]:
        with torch.no_grad():
            m.bias.normal_()
    x = torch.randn(case["B"], case["ci"], nlat, nlon)
    y, res = m(x)
    # definition, in long double with reference harmonics
    t, w = ref.colat(nlat, case["grid"])
    P = ref.alp(L, L, t).astype(np.float64)
    c, s = (a.astype(np.float64) for a in ref.dft_basis(nlon, L))
    X = x.double().numpy() * np.asarray(w, np.float64)[:, None] * 2 * np.pi / nlon
    ph = ref.phase(L, f.csphase).astype(np.float64)
    a = np.einsum("bikj,mj->bikm", X, c) - 1j * np.einsum("bikj,mj->bikm", X, s)
    a = np.einsum("bikm,mlk,m->bilm", a, P, ph)
    W = m.weight.detach().to(torch.complex128).numpy()
    z = {"driscoll-healy": lambda: np.einsum("bilm,oil->bolm", a, W), "diagonal": lambda: np.einsum("bilm,oilm->bolm", a, W), "block-diagonal": lambda: np.einsum("bilm,oilnm->boln", a, W)}[case["op"]]()
    t2, _ = ref.colat(n2, case["grid2"])
    P2 = ref.alp(L, L, t2).astype(np.float64)
    c2, s2 = (q.astype(np.float64) for q in ref.dft_basis(l2, L))
    two = np.where(np.arange(L) == 0, 1.0, 2.0)

    def syn(z):
        b = np.einsum("bolm,mlk,m->bokm", z, P2, ph * two)
        return np.einsum("bokm,mj->bokj", b.real, c2) - np.einsum("bokm,mj->bokj", b.imag, s2)

    want = syn(z) + (m.bias.detach().double().numpy() if case["bias"] else 0)
    mon.close(y, torch.tensor(want), 2e-4, 0, "specconv", scale=float(np.abs(want).max()) + 1)
    wr = syn(a) if (n2, l2) != (nlat, nlon) else x.double().numpy()
    mon.close(res, torch.tensor(wr), 2e-4, 0, "specconv", key="specconv:residual", scale=float(np.abs(wr).max()) + 1)
    mon.state("specconv", case["op"], case["down"], case["grid"], case["grid2"], case["bias"])


def droppath(case, mon):
    from torch_harmonics.examples.models._layers import DropPath

    torch.manual_seed(case["u"])
    p = case["prob"]
    d = DropPath(p)
    x = torch.randn(400, 2, 3) + 3
    keep = x.clone()
    mon.check(torch.equal(d.eval()(x), x), "droppath", "active in evaluation mode")
    y = d.train()(x)
    r = y / x
    whole = (r.reshape(400, -1) - r.reshape(400, -1)[:, :1]).abs().max()
    mon.check(float(whole) < 1e-5, "droppath", "a sample is dropped in part")
    q = r[:, 0, 0]
    kept = (q - 1 / (1 - p)).abs() < 1e-4
    mon.check(bool((kept | (q == 0)).all()), "droppath", "kept samples are not rescaled by 1/(1-p)")
    n = float(kept.float().mean())
    mon.check(abs(n - (1 - p)) <= 6.5 * np.sqrt(p * (1 - p) / 400) + 1e-9, "droppath", f"{n} of the samples kept at drop probability {p}")
    mon.check(torch.equal(x, keep), "droppath", "input modified")
    mon.state("droppath", p)


def embedding(case, mon):
    from torch_harmonics.examples.models import _layers as ly

    nlat, nlon = case["nlat"], case["nlon"]
    C = case["ci"] + 2
    x = torch.randn(case["B"], C, nlat, nlon)
    e = ly.SpectralPositionEmbedding((nlat, nlon), grid=case["grid"], num_chans=C)
    got = e(x) - x
    t, _ = ref.colat(nlat, case["grid"])
    P = ref.alp(4, 4, t).astype(np.float64)
    c, s = (a.astype(np.float64) for a in ref.dft_basis(nlon, 4))
    for i in range(C):
        l = int(np.sqrt(i))
        mm = i - l * l - l
        v = P[abs(mm), l][:, None] * ((-1.0) ** mm if True else 1) * (c[mm][None] if mm >= 0 else -s[-mm][None])
        v = v / np.abs(v).max()
        mon.close(got[:, i], torch.tensor(v).expand(case["B"], -1, -1), 0, 2e-5, "embedding", key="embedding:spectral")
    e = ly.SequencePositionEmbedding((nlat, nlon), grid=case["grid"], num_chans=C)
    got = e(x) - x
    pos = np.arange(nlat * nlon).reshape(nlat, nlon)
    for i in range(C):
        a = pos / 10000.0 ** (2 * i / C)
        mon.close(got[:, i], torch.tensor(np.sin(a) if i % 2 == 0 else np.cos(a)).expand(case["B"], -1, -1), 0, 2e-4, "embedding", key="embedding:sequence")
    for kind in ("lat", "latlon"):
        e = ly.LearnablePositionEmbedding((nlat, nlon), grid=case["grid"], num_chans=C, embed_type=kind)
        p, = e.parameters()
        with torch.no_grad():
            p.normal_()
        got = e(x) - x
        if kind == "lat":
            mon.check(float((got - got[..., :1]).abs().max()) < 1e-5 and p.numel() == C * nlat, "embedding", "the latitude embedding varies with longitude")
        else:
            mon.check(p.numel() == C * nlat * nlon, "embedding", "size")
        mon.close(got, p.detach().expand_as(x), 0, 1e-5, "embedding", key="embedding:" + kind)
    mon.state("embedding", case["grid"], C)
