"""C15: neighborhood attention gradients in every implementation, precision, layout and request pattern."""
import torch
from vlib import attn, gen
from checks import C14_neighborhood_attention as base
from checks.C13_disco_grad import layout, LAYOUTS

PROPERTY = "C15"
TECHNIQUE = "runtime monitor: gradients of the real attention module compared with automatic differentiation of the harness's dense double-precision softmax, and implementations, precisions, layouts and aliasing patterns compared with each other"
NOTE = "Held on every configuration executed. Kernels compute in single precision by design for every input type; half-precision projections are judged at a few units of their rounding."
RULE = "a case is (direction, grids, sizes, heads, channels, norm, bias, implementation, dtype, layouts, requested gradients, aliasing, value regime); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = base.ASSUMPTIONS
ROUNDS = 4
REQUIRED_EVENTS = ["output", "grad_query", "grad_key", "grad_value", "grad_param", "agree", "not_requested", "autocast", "alias", "huge_grad", "repeat"]
NAMES = ["query", "key", "value"]


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 8000):
        c = base.case_of(rng, i, tier)
        if c["impl"] == "torch":
            c["in"], c["out"] = attn.shapes(rng, gen.choice(rng, ["down", "self", "up"]), small=True)
            if c["in"][0] * c["out"][0] * c["in"][1] * c["out"][1] > 1500:
                c["impl"] = "opt"
        c["dtype"] = gen.choice(rng, ["float32"] * 5 + ["float64", "bfloat16", "float16"])
        if c["norm"] and c["dtype"] in ("bfloat16", "float16"):
            c["dtype"] = "float32"  # the normalisation's epsilon depends on the type
        c["lay"] = [gen.choice(rng, LAYOUTS) for _ in range(4)]
        c["need"] = gen.choice(rng, ["qkvP", "qkvP", "q", "k", "v", "qk", "kv", "qv", "P"])
        c["alias"] = gen.choice(rng, ["none", "none", "none", "kv", "all", "kv-memory", "all-memory", "v-first"])
        c["regime"] = gen.choice(rng, ["normal", "normal", "normal", "exact"])
        c["amp"] = rng.random() < 0.1
        yield c


EPS = {"float32": 1.2e-7, "float64": 1.2e-7, "bfloat16": 2.0**-8, "float16": 2.0**-11}


def magnitudes(P, info, q, k, v, g, heads, sc, eps=1.2e-7):
    """elementwise bounds of the terms that are summed in each gradient (triangle inequality on the dense formula)"""
    A, V, Q, K = info["A"], info["v"].abs(), info["q"].abs(), info["k"].abs()
    B = Q.shape[0]
    W = {n: p.abs().reshape(p.shape[0], -1) for n, p in P.items() if n.endswith("weights") and "norm" not in n}
    dO = torch.einsum("oi,bohw->bihw", W["proj_weights"], g.abs())
    dOh = dO.reshape(B, heads, dO.shape[1] // heads, -1)
    Vh, Qh, Kh = (t.reshape(B, heads, t.shape[1] // heads, -1) for t in (V, Q, K))
    D = torch.einsum("bhcn,bhcm->bhnm", dOh, Vh)
    T = A * (D + (A * D).sum(-1, keepdim=True))
    dq = sc * torch.einsum("bhnm,bhcm->bhcn", T, Kh).reshape(Q.shape)
    dk = sc * torch.einsum("bhnm,bhcn->bhcm", T, Qh).reshape(K.shape)
    dv = torch.einsum("bhnm,bhcn->bhcm", A, dOh).reshape(V.shape)
    out = {}
    if P.get("q_norm_weights") is not None:
        for n, d, src in (("q", dq, q), ("k", dk, k)):
            w, b = P[n + "_weights"], P.get(n + "_bias")
            t = torch.einsum("oi,bihw->bohw", w.reshape(w.shape[0], -1), src) + (0 if b is None else b.reshape(1, -1, 1, 1))
            Bt, C, H, Wd = t.shape
            r = torch.sqrt((t.reshape(Bt, heads, -1, H, Wd) ** 2).mean(2, keepdim=True) + eps)
            u = t.reshape(Bt, heads, -1, H, Wd).abs() / r
            dd = d.reshape(Bt, heads, -1, H, Wd)
            out[n + "_norm_weights"] = (dd * u).sum((0, 1, 3, 4))
            dd = dd * (1 + P[n + "_norm_weights"]).abs().reshape(1, 1, -1, 1, 1)
            dd = (dd + u * (u * dd).mean(2, keepdim=True)) / r
            if n == "q":
                dq = dd.reshape(d.shape)
            else:
                dk = dd.reshape(d.shape)
    for n, d, src in (("q", dq, q), ("k", dk, k), ("v", dv, v)):
        out[{"q": "query", "k": "key", "v": "value"}[n]] = torch.einsum("oi,bohw->bihw", W[n + "_weights"], d)
        out[n + "_weights"] = torch.einsum("bohw,bihw->oi", d, src.abs()).reshape(P[n + "_weights"].shape)
        out[n + "_bias"] = d.sum((0, 2, 3))
    out["proj_weights"] = torch.einsum("bohw,bihw->oi", g.abs(), torch.einsum("bhnm,bhcm->bhcn", A, Vh).reshape(B, V.shape[1], *g.shape[2:])).reshape(P["proj_weights"].shape)
    out["scale"] = (T * torch.einsum("bhcn,bhcm->bhnm", Qh, Kh)).sum()
    out["proj_bias"] = g.abs().sum((0, 2, 3))
    return out


def run(case, mon):
    try:
        msk, qw, sc = base.geometry(case)
    except attn.Ambiguous:
        mon.event("ambiguous")
        return
    if not bool(msk.any(1).all()):
        mon.event("empty_neighbourhood")
        return
    nb = int(msk.sum(1).max())
    dt = getattr(torch, case["dtype"])
    H = case["H"]
    mod = base.build(case)
    base.randomise(mod, case)
    B = case["B"]
    alias = case["alias"]
    if alias.startswith("all") and case["in"] != case["out"]:
        alias = alias.replace("all", "kv")
    lay = list(case["lay"])
    data = list(base.inputs(case))
    exact = case["regime"] == "exact" and not case["norm"] and case["scale"] in (0.5, 2.0) and dt in (torch.float32, torch.float64)
    if exact:
        e = [0, 3, 6, 10, 20][case["u"] % 5]
        data[0] = torch.randint(-3, 4, data[0].shape).float()
        data[1] = torch.randint(-3, 4, data[1].shape).float() - (4.0 if case["u"] % 2 else 0)
        with torch.no_grad():
            mod.q_weights.copy_(torch.randint(-1, 2, mod.q_weights.shape).float() * 2.0**e)
            mod.k_weights.copy_(torch.randint(-1, 2, mod.k_weights.shape).float())
            if case["bias"]:
                mod.q_bias.copy_(torch.randint(-1, 2, mod.q_bias.shape).float() * 2.0**e)
                mod.k_bias.copy_(torch.randint(-1, 2, mod.k_bias.shape).float())
    with torch.no_grad():
        for p in mod.parameters():
            p.copy_(p.to(torch.bfloat16))
    data = [t.to(torch.bfloat16).double() for t in data]
    g64 = gen.shaped(torch.randn(B, case["oc"], *case["out"]), case, "g").to(torch.bfloat16).double()
    for i, l in enumerate(lay):
        if l == "expanded":
            if i < 3:
                data[i] = data[i][:1].expand(B, -1, -1, -1).clone()
            else:
                g64 = g64[:1].expand(B, -1, -1, -1).clone()
    if alias.startswith("kv"):
        data[2], lay[2] = data[1], lay[1]
    if alias == "v-first":
        data[2] = data[1][:1].expand(B, -1, -1, -1).clone()
    if alias.startswith("all"):
        data[1] = data[2] = data[0]
        lay[1] = lay[2] = lay[0]
    # reference
    P = attn.params(mod)
    for p in P.values():
        p.requires_grad_(True)
    leaves = [t.clone().requires_grad_(True) for t in data]
    info = {"sc": abs(sc)}
    want = attn.forward(P, *leaves, H, sc, qw, msk, eps=float(torch.finfo(dt).eps), info=info)
    names = list(P)
    refs = dict(zip(NAMES + names, torch.autograd.grad(want, leaves + [P[n] for n in names], g64, allow_unused=True)))
    Pd = {n: p.detach() for n, p in P.items()}
    mags = magnitudes(Pd, info, *data, g64, H, abs(sc), eps=float(torch.finfo(dt).eps))
    eps = EPS[case["dtype"]]
    big = float(info["L"].abs().max())
    lm = min(big, 90.0) if exact else float(info["q"].abs().max() * info["k"].abs().max()) * info["q"].shape[1] * abs(sc) * info["amp"]
    rt = 6 * eps * (4 + lm + nb / 16) * (info["amp"] if case["norm"] else 1.0)
    if rt > 0.25:
        mon.event("too_ill_conditioned")
        return
    # real
    mod = mod.to(dt)
    x = [layout(data[i].to(dt), lay[i]).detach() for i in range(3)]
    g = layout(g64.to(dt), lay[3])
    need = case["need"]
    if alias == "kv":
        x[2] = x[1]
        args = (x[0], x[1], x[2])
    elif alias == "all":
        x[1] = x[2] = x[0]
        args = (x[0],)
    else:
        # distinct tensors over the same memory
        if alias == "all-memory":
            x[1] = x[0].detach()
        if alias.endswith("memory"):
            x[2] = x[1].detach()
        if alias == "v-first":
            x[2] = x[1].detach()[:1].expand(B, -1, -1, -1)
        args = tuple(x)
    for i, ch in enumerate("qkv"):
        if ch in need:
            x[i].requires_grad_(True)
    for p in mod.parameters():
        p.requires_grad_("P" in need)
    y = mod(*args)
    mon.check(y.dtype == dt and tuple(y.shape) == tuple(want.shape), "shape", f"{y.dtype} {tuple(y.shape)}")
    ymag = torch.einsum("oi,bi...->bo...", Pd["proj_weights"].reshape(case["oc"], -1).abs(), torch.einsum("bhnm,bhcm->bhcn", info["A"], info["v"].abs().reshape(B, H, case["oc"] // H, -1)).reshape(B, case["oc"], *case["out"]))
    if case["bias"]:
        ymag = ymag + Pd["proj_bias"].abs().reshape(1, -1, 1, 1)
    mon.close(y, want, rt, 1e-6, "output", scale=float(ymag.max()))
    y.backward(g.clone() if lay[3] == "contig" else g)
    mon.state(*[str(case[k]) for k in ("impl", "in", "out", "H", "norm", "dtype", "need", "regime")], alias, *lay)
    total = {}
    scal = {}
    for i, n in enumerate(NAMES):
        total[id(x[i])] = total.get(id(x[i]), 0) + refs[n]
        scal[id(x[i])] = scal.get(id(x[i]), 0) + mags[n]
    if alias != "none":
        mon.event("alias")
    for i, (n, ch) in enumerate(zip(NAMES, "qkv")):
        if x[i].requires_grad:
            mon.check(x[i].grad is not None and x[i].grad.dtype == dt, "grad_dtype", f"{n}: {None if x[i].grad is None else x[i].grad.dtype}")
            mon.close(x[i].grad, total[id(x[i])], rt, 1e-6, f"grad_{n}", scale=float(scal[id(x[i])].max()))
            if exact and big > 100:
                mon.event("huge_grad")
        else:
            mon.check(x[i].grad is None, "not_requested", n)
    for n, p in mod.named_parameters():
        if "P" in need:
            r = refs[n] if refs[n] is not None else torch.zeros_like(Pd[n])
            mon.check(p.grad is not None and p.grad.dtype == dt, "grad_dtype", n)
            mon.close(p.grad, r, rt * (2 if dt in (torch.float16, torch.bfloat16) else 1), 1e-6, "grad_param", key=f"grad_{n}", scale=float(mags[n].max()))
        else:
            mon.check(p.grad is None, "not_requested", n)
    if case["u"] % 4 == 0 and case["in"][0] * case["out"][0] * case["in"][1] * case["out"][1] < 1200 and max(case["in"][1], case["out"][1]) < 16:
        other = base.build(case, impl="torch" if case["impl"] == "opt" else "opt")
        with torch.no_grad():
            for (n, p) in other.named_parameters():
                p.copy_(Pd[n])
        other = other.to(dt)
        x2 = [t.to(dt).clone().requires_grad_(True) for t in data]
        y2 = other(*x2)
        mon.close(y2, y.double(), rt, 1e-6, "agree", scale=float(ymag.max()))
        y2.backward(g64.to(dt))
        for i, n in enumerate(NAMES):
            mon.close(x2[i].grad, refs[n], rt, 1e-6, "agree", scale=float(mags[n].max()))
    if case["u"] % 7 == 0 and dt == torch.float32:
        # the same call repeated gives the same gradients, and accumulates
        if alias == "none" and "q" in need:
            a = x[0].grad.clone()
            x[0].grad = None
            mod(*args).backward(g.clone())
            mon.equal(x[0].grad, a, "repeat")
    if case["amp"] and dt == torch.float32 and not exact and not case["norm"]:
        mod.zero_grad()
        mod.requires_grad_(True)
        x2 = [t.float().clone().requires_grad_(True) for t in data]
        with torch.autocast("cpu", dtype=torch.bfloat16):
            y2 = mod(*x2)
        rta = 6 * 2.0**-8 * (4 + lm)
        mon.check(bool(torch.isfinite(y2).all()), "autocast", "finite")
        if rta < 0.5:
            mon.close(y2, want, rta, 1e-6, "autocast", scale=float(ymag.max()))
            y2.backward(g64.to(y2.dtype))
            for i, n in enumerate(NAMES):
                mon.check(x2[i].grad.dtype == torch.float32, "autocast", "gradient type")
                mon.close(x2[i].grad, refs[n], rta, 1e-6, "autocast", scale=float(mags[n].max()))
