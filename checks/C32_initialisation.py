"""C32: what a freshly constructed learnable layer contains."""
import math
import numpy as np
import torch
from vlib import gen, ops, ring
from vlib import dist as vd

PROPERTY = "C32"
TECHNIQUE = "runtime monitor of constructed layers: an online checker reads every parameter of every layer built along a history of constructions and judges scale, independence, sharing and reproducibility statistically and bit for bit"
NOTE = "statistical decisions use thresholds of seven standard deviations on samples of at least a few thousand entries, so deviations of the scale below a few percent are not seen."
RULE = "distinct (layer, configuration, process grid) situations"
LEVEL = "exploration"
ASSUMPTIONS = ["torch's generator is sound", "ranks that construct a replicated layer from the same seed are meant to hold the same parameters"]
ROUNDS = 2
REQUIRED_EVENTS = ["disco", "discoT", "specconv", "natt", "gatt", "seeded-twice", "unseeded", "distributed", "slice", "pair", "bias-zero"] + ["defaults:" + n for n in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT", "QuadratureS2", "ResampleS2", "SpectralConvS2", "DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "NeighborhoodAttentionS2", "AttentionS2")]
Z = 7.0


def worker_init():
    ring.install()


def cases(rng, tier):
    q = tier == "quick"
    kinds = ["disco", "discoT", "specconv", "natt", "gatt"]
    for i in range(150 if q else 1500):
        k = kinds[i % 5]
        s = ops.spec(rng, k, small=True)
        G = gen.choice(rng, [1, 2, 4]) if k in ("disco", "discoT", "specconv") else 1
        c = [gen.choice(rng, [32, 48, 64, 96]), gen.choice(rng, [32, 48, 64, 96]), gen.choice(rng, [32, 48, 64, 96])]
        if k in ("natt", "gatt"):
            H = gen.choice(rng, [1, 2, 4, 8])
            s.update(H=H, ci=c[0], kc=c[1], co=c[2], scale=None)
        else:
            s.update(G=G, ci=c[0], co=c[1])
        if k in ("disco", "discoT"):
            s["mode"] = gen.choice(rng, ["none", "nodal", "mean", "support"])
        c = {"s": s, "u": int(rng.integers(10**6)), "bias": bool(rng.integers(2)), "after": gen.choice(rng, [None, "same", "other"])}
        if i % 3 == 2 and k != "gatt":
            c["g"] = vd.grid(rng, 3, 3)
        yield c
    names = list(SIGNATURES)
    for i in range(8 * len(names) if q else 60 * len(names)):
        yield {"sig": names[i % len(names)], "dist": i % 3 == 2, "u": int(rng.integers(10**6))}


# documented order, documented defaults and other valid values of every optional argument
REQUIRED = object()
GR = ["equiangular", "legendre-gauss", "lobatto"]
_T = [("nlat", REQUIRED, [6, 7, 9]), ("nlon", REQUIRED, [12, 16]), ("lmax", None, [3, 4]), ("mmax", None, [3, 4]), ("grid", "equiangular", GR), ("norm", "ortho", ["ortho", "schmidt", "four-pi"]), ("csphase", True, [True, False])]
_C = [("in_channels", REQUIRED, [4]), ("out_channels", REQUIRED, [2, 4]), ("in_shape", REQUIRED, [[6, 12]]), ("out_shape", REQUIRED, [[6, 12]]), ("kernel_shape", REQUIRED, [3, [2, 3]]), ("basis_type", "piecewise linear", ["piecewise linear", "harmonic"]),
      ("basis_norm_mode", "nodal", ["nodal", "mean", "modal", "none"]), ("groups", 1, [1, 2]), ("grid_in", "equiangular", GR), ("grid_out", "equiangular", GR), ("bias", True, [True, False]), ("theta_cutoff", None, [0.7]), ("optimized_kernel", True, [True])]
_A = {"grid_in": ("equiangular", GR), "grid_out": ("equiangular", GR), "scale": (None, [0.5]), "use_qknorm": (False, [True, False]), "bias": (True, [True, False]), "k_channels": (None, [2, 6]), "out_channels": (None, [2, 6])}
_a = lambda n: (n,) + _A[n]
SIGNATURES = {
    "RealSHT": _T, "InverseRealSHT": _T, "RealVectorSHT": _T, "InverseRealVectorSHT": _T,
    "QuadratureS2": [("img_shape", REQUIRED, [[6, 12], [7, 8]]), ("grid", "equiangular", GR), ("normalize", False, [True, False])],
    "ResampleS2": [("nlat_in", REQUIRED, [5, 6]), ("nlon_in", REQUIRED, [8]), ("nlat_out", REQUIRED, [6, 9]), ("nlon_out", REQUIRED, [12]), ("grid_in", "equiangular", GR), ("grid_out", "equiangular", GR), ("mode", "bilinear", ["bilinear", "bilinear-spherical"])],
    "SpectralConvS2": [("in_shape", REQUIRED, [[6, 12]]), ("out_shape", REQUIRED, [[6, 12], [8, 16]]), ("in_channels", REQUIRED, [4]), ("out_channels", REQUIRED, [2, 4]), ("num_groups", 1, [1, 2]), ("grid_in", "equiangular", GR), ("grid_out", "equiangular", GR), ("bias", False, [True, False])],
    "DiscreteContinuousConvS2": _C + [("fused", False, [False, True])], "DiscreteContinuousConvTransposeS2": _C,
    "NeighborhoodAttentionS2": [("in_channels", REQUIRED, [4]), ("in_shape", REQUIRED, [[6, 12]]), ("out_shape", REQUIRED, [[6, 12]]), _a("grid_in"), _a("grid_out"), ("num_heads", 1, [1, 2]), _a("scale"), _a("use_qknorm"), _a("bias"), ("theta_cutoff", None, [0.9]), _a("k_channels"), _a("out_channels"), ("optimized_kernel", True, [True])],
    "AttentionS2": [("in_channels", REQUIRED, [4]), ("num_heads", REQUIRED, [1, 2]), ("in_shape", REQUIRED, [[6, 12]]), ("out_shape", REQUIRED, [[6, 12]]), _a("grid_in"), _a("grid_out"), _a("scale"), _a("use_qknorm"), _a("bias"), _a("k_channels"), _a("out_channels"), ("drop_rate", 0.0, [0.0])],
}


def defaults(case, mon):
    import torch_harmonics as th
    import torch_harmonics.distributed as thd

    name, rng = case["sig"], np.random.default_rng(case["u"])
    dist = case["dist"] and name != "AttentionS2"
    cls = getattr(thd, "Distributed" + name) if dist else getattr(th, name)
    full, given, left = {}, {}, []
    tup = lambda v: tuple(v) if isinstance(v, list) else v
    for n, d, vals in SIGNATURES[name]:
        if d is REQUIRED or rng.random() < 0.4:
            full[n] = given[n] = tup(gen.choice(rng, vals))
        else:
            full[n] = d
            left.append(n)
    if name in ("DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2") and dist and full["basis_norm_mode"] == "modal":
        full["basis_norm_mode"] = given["basis_norm_mode"] = "mean"
        left = [n for n in left if n != "basis_norm_mode"]
    if dist and full.get("fused"):  # needs the accelerator
        full["fused"] = given["fused"] = False
    spelled = dict(full)
    for n in ("k_channels", "out_channels"):
        if name in ("AttentionS2", "NeighborhoodAttentionS2") and full[n] is None:
            spelled[n] = full["in_channels"]
    ways = [("left out", lambda: cls(**given)), ("spelled out", lambda: cls(**spelled)), ("in order", lambda: cls(*[full[n] for n, _, _ in SIGNATURES[name]]))]

    def all_ways(*_):
        out = []
        for what, f in ways:
            torch.manual_seed(case["u"])
            m = f()
            out.append((what, {k: v.detach().clone() for k, v in list(m.named_parameters()) + list(m.named_buffers())}, m))
        return out

    if dist:
        # one process: the distributed layer's tables then are the serial ones
        res = vd.world({"P": 1, "A": 1, "layout": "row", "off": 0, "stride": 1, "np": False, "na": False}, case["u"]).run(lambda p, a, w: all_ways())[0]
    else:
        res = all_ways()
    _, ref, mref = res[1]
    y = []
    for what, st, m in res:
        mon.check(list(st) == list(ref) and all(v.dtype == ref[k].dtype and torch.equal(v, ref[k]) for k, v in st.items()), "defaults", f"{cls.__name__}({given}): with {left} {what}, not the layer with them spelled out: {[k for k in set(st) ^ set(ref)] or [k for k, v in st.items() if v.shape != ref[k].shape or not torch.equal(v, ref[k])]}")
        if not dist:
            torch.manual_seed(1)
            sh = ref_input(name, full)
            y.append(m(sh).detach())
            mon.check(torch.equal(y[-1], y[0]), "defaults", f"{cls.__name__}({given}): with {left} {what} the layer computes something else")
    mon.event("defaults:" + name)
    mon.state("defaults", name, dist, sorted(left))


def ref_input(name, f):
    if name.startswith("Inverse"):
        import torch_harmonics as th

        L, M = th.truncate_sht(f["nlat"], f["nlon"], f["lmax"], f["mmax"], f["grid"])
        return torch.randn(*([2] if "Vector" in name else []), L, M, dtype=torch.complex64)
    if name.endswith("SHT"):
        return torch.randn(*([2] if "Vector" in name else []), f["nlat"], f["nlon"])
    if name == "ResampleS2":
        return torch.randn(2, f["nlat_in"], f["nlon_in"])
    if name == "QuadratureS2":
        return torch.randn(2, *f["img_shape"])
    return torch.randn(1, f["in_channels"], *f["in_shape"])


def build(s, bias, dist=False):
    import torch_harmonics as th
    import torch_harmonics.distributed as thd

    k = s["op"]
    if k in ("disco", "discoT"):
        name = "DiscreteContinuousConvS2" if k == "disco" else "DiscreteContinuousConvTransposeS2"
        i, o = ((s["fine"], s["gf"]), (s["coarse"], s["gc"])) if k == "disco" else ((s["coarse"], s["gc"]), (s["fine"], s["gf"]))
        cls = getattr(thd, "Distributed" + name) if dist else getattr(th, name)
        sh = s["shape"]
        return cls(s["ci"], s["co"], in_shape=tuple(i[0]), out_shape=tuple(o[0]), kernel_shape=tuple(sh) if isinstance(sh, list) else sh, basis_type=s["fam"], basis_norm_mode=s["mode"], groups=s["G"], grid_in=i[1], grid_out=o[1], bias=bias, theta_cutoff=s["cut"])
    if k == "specconv":
        cls = thd.DistributedSpectralConvS2 if dist else th.SpectralConvS2
        return cls(tuple(s["inp"]), tuple(s["out"]), s["ci"], s["co"], num_groups=s["G"], grid_in=s["gi"], grid_out=s["go"], bias=bias)
    kw = dict(in_channels=s["ci"], in_shape=tuple(s["inp"]), out_shape=tuple(s["out"]), grid_in=s["gi"], grid_out=s["go"], num_heads=s["H"], bias=bias, k_channels=s["kc"], out_channels=s["co"], use_qknorm=s["norm"])
    if k == "gatt":
        return th.AttentionS2(**kw)
    return (thd.DistributedNeighborhoodAttentionS2 if dist else th.NeighborhoodAttentionS2)(theta_cutoff=s["cut"], **kw)


def moments(mon, x, var, kind, name):
    """sample x of a zero-mean variable with the given variance; kind gives its kurtosis"""
    x = x.double().reshape(-1).numpy()
    n = x.size
    if n < 300:
        return
    kurt = {"normal": 3.0, "uniform": 1.8}[kind]
    mon.event("slice")
    mon.check(abs(x.mean()) <= Z * math.sqrt(var / n), "mean", f"{name}: mean {x.mean():.3g} of {n} entries with deviation {math.sqrt(var):.3g}")
    r = (x * x).mean() / var
    mon.check(abs(r - 1) <= Z * math.sqrt((kurt - 1) / n) + 1e-5, "variance", f"{name}: variance of {n} entries is {r:.4f} times the documented {var:.4g}")
    if n >= 3000:
        k4 = (x**4).mean() / var**2
        s4 = math.sqrt({"normal": 96.0, "uniform": 16 / 9 * 2.0}[kind] / n)
        mon.check(abs(k4 - kurt) <= 2 * Z * s4, "shape", f"{name}: fourth moment {k4:.3f}, {kurt} expected for a {kind} variable")


def independent(mon, a, b, name):
    a, b = a.double().reshape(-1), b.double().reshape(-1)
    n = min(a.numel(), b.numel())
    if n < 300:
        return
    a, b = a[:n], b[:n]
    c = float((a * b).sum() / (a.norm() * b.norm()))
    mon.event("pair")
    mon.check(abs(c) <= Z / math.sqrt(n), "correlated", f"{name}: correlation {c:.3f} over {n} entries")


def judge(mon, s, m, bias, l0=0, lmax=None):
    k = s["op"]
    ps = dict(m.named_parameters())
    for n, p in ps.items():
        mon.check(p.requires_grad and p.is_leaf and bool(torch.isfinite(torch.view_as_real(p) if p.is_complex() else p).all()), "parameter", f"{n} is not a finite trainable leaf")
        mon.check(p.dtype in (torch.float32, torch.complex64), "precision", f"{n} has {p.dtype}")
    mem = [(p.untyped_storage().data_ptr(), n) for n, p in ps.items()]
    mon.check(len({a for a, _ in mem}) == len(mem), "shared", f"parameters share memory: {mem}")
    zero = [n for n in ps if "bias" in n or "norm_weights" in n]
    want = {"disco": ["bias"], "discoT": ["bias"], "specconv": ["spectral_bias"]}.get(k, ["q_bias", "k_bias", "v_bias", "proj_bias"]) if bias else []
    want = want + (["q_norm_weights", "k_norm_weights"] if k in ("natt", "gatt") and s["norm"] else [])
    mon.check(sorted(zero) == sorted(want), "names", f"{sorted(zero)} instead of {sorted(want)}")
    for n in zero:
        mon.check(float(ps[n].detach().abs().max()) == 0.0, "bias-zero", f"{n} does not start at zero")
    mon.event("bias-zero", len(zero))
    ws = {n: p.detach() for n, p in ps.items() if n not in zero}
    if k in ("disco", "discoT"):
        w = ws.pop("weight")
        K = w.shape[-1]
        mon.check(tuple(w.shape) == (s["co"], s["ci"] // s["G"], m.kernel_size), "shape", f"weight {tuple(w.shape)}")
        var = 1.0 / (s["ci"] // s["G"] * K)
        moments(mon, w, var, "normal", "weight")
        for i in range(K):
            moments(mon, w[..., i], var, "normal", f"weight of basis function {i}")
            if i:
                independent(mon, w[..., i], w[..., i - 1], f"weights of basis functions {i - 1} and {i}")
        h = s["co"] // s["G"]
        for j in range(s["G"]):
            moments(mon, w[j * h : (j + 1) * h], var, "normal", f"weight of group {j}")
            if j:
                independent(mon, w[j * h : (j + 1) * h], w[(j - 1) * h : j * h], f"weights of groups {j - 1} and {j}")
        independent(mon, w[1:], w[:-1], "weights of neighbouring output channels")
        independent(mon, w[:, 1:], w[:, :-1], "weights of neighbouring input channels")
    elif k == "specconv":
        w = ws.pop("weight")
        mon.check(tuple(w.shape[:3]) == (s["G"], s["ci"] // s["G"], s["co"] // s["G"]), "shape", f"weight {tuple(w.shape)}")
        v = 1.0 / (s["ci"] // s["G"])
        for l in range(w.shape[-1]):
            var = v * (2.0 if l + l0 == 0 else 1.0)
            moments(mon, w[..., l].real, var / 2, "normal", f"real weight of degree {l + l0}")
            moments(mon, w[..., l].imag, var / 2, "normal", f"imaginary weight of degree {l + l0}")
            independent(mon, w[..., l].real, w[..., l].imag, f"real and imaginary weight of degree {l + l0}")
            if l:
                independent(mon, w[..., l].real, w[..., l - 1].real, f"weights of degrees {l + l0 - 1} and {l + l0}")
        rest = w[..., 1:] if l0 == 0 else w
        moments(mon, torch.view_as_real(rest), v / 2, "normal", "weights of the higher degrees")
        for j in range(1, s["G"]):
            independent(mon, rest[j].real, rest[j - 1].real, f"weights of groups {j - 1} and {j}")
        independent(mon, w[:, 1:].real, w[:, :-1].real, "weights of neighbouring input channels")
        independent(mon, w[:, :, 1:].real, w[:, :, :-1].real, "weights of neighbouring output channels")
    else:
        b = {"q_weights": (s["kc"], s["ci"]), "k_weights": (s["kc"], s["ci"]), "v_weights": (s["co"], s["ci"]), "proj_weights": (s["co"], s["co"])}
        prev = None
        for n, (o, i) in b.items():
            w = ws.pop(n)
            mon.check(tuple(w.shape) == (o, i, 1, 1), "shape", f"{n} {tuple(w.shape)}")
            bound = math.sqrt(6.0 / (o + i))
            mon.check(float(w.abs().max()) <= bound * (1 + 1e-6), "bound", f"{n} exceeds {bound}")
            moments(mon, w, bound * bound / 3, "uniform", n)
            independent(mon, w[1:], w[:-1], f"{n}, neighbouring rows")
            independent(mon, w[:, 1:], w[:, :-1], f"{n}, neighbouring columns")
            if prev is not None:
                independent(mon, w, prev, f"{n} and its predecessor")
            prev = w
        independent(mon, m.q_weights.detach(), m.v_weights.detach(), "q and v weights")
    mon.check(not ws, "names", f"parameters nobody documents: {sorted(ws)}")
    mon.event(k)


def same(a, b):
    return all(torch.equal(x, y) for x, y in zip(a, b)) and len(a) == len(b)


def run(case, mon):
    if "sig" in case:
        return defaults(case, mon)
    s, bias, u = case["s"], case["bias"], case["u"]
    mon.state((s["op"], s.get("G"), s.get("H"), s["ci"], s["co"], s.get("kc"), bias, str(s.get("shape")), str(case.get("g"))))
    if case.get("g"):
        g = case["g"]
        g = dict(g, warm=None, data=None)
        w = vd.world(g, u)

        def body(p, a, wd):
            torch.manual_seed(u)
            return build(s, bias, dist=True)

        try:
            res = w.run(body)
        except Exception as e:
            if isinstance(e, ValueError) or "every chunk must be non-empty" in str(e):
                mon.event("rejected-by-the-constructor")
                return
            raise
        mon.event("distributed")
        from vlib.simdist import split_sizes

        for (p, a), m in zip(w.grid, res):
            if s["op"] == "specconv":
                sizes = split_sizes(int(m.lmax), g["P"])
                judge(mon, s, m, bias, l0=sum(sizes[:p]))
            else:
                judge(mon, s, m, bias)
                mon.check(same(list(m.parameters()), list(res[0].parameters())), "replicas", f"rank ({p},{a}) starts from other parameters than rank (0,0) with the same seed")
        return
    if case["after"] == "same":
        build(s, bias)
    elif case["after"] == "other":
        build(dict(s, ci=s["ci"] * 2 if s["op"] in ("natt", "gatt") else s["ci"] * s["G"]), not bias)
    torch.manual_seed(u)
    m = build(s, bias)
    judge(mon, s, m, bias)
    n = build(s, bias)
    pm, pn = list(m.parameters()), list(n.parameters())
    drawn = [(x, y) for x, y in zip(pm, pn) if float(x.detach().abs().max()) > 0]
    mon.check(len(drawn) > 0 and all(not torch.equal(x, y) for x, y in drawn), "repeated", "two layers built in a row hold the same weights")
    for x, y in drawn:
        independent(mon, (x.real if x.is_complex() else x).detach(), (y.real if y.is_complex() else y).detach(), "two layers built in a row")
    mem = {p.untyped_storage().data_ptr() for p in pm} & {p.untyped_storage().data_ptr() for p in pn}
    mon.check(not mem, "shared", "two layers share the memory of a parameter")
    mon.event("unseeded")
    keep = [p.detach().clone() for p in pm]
    torch.manual_seed(u)
    r = build(s, bias)
    mon.check(same(keep, [p.detach() for p in r.parameters()]), "seeded", "the same seed gives other parameters")
    mon.check(same(keep, [p.detach() for p in pm]), "overwritten", "building a layer changed another layer")
    with torch.no_grad():
        for p in r.parameters():
            p.add_(1.0)
    mon.check(same(keep, [p.detach() for p in pm]), "overwritten", "training a layer changed another layer")
    mon.event("seeded-twice")
