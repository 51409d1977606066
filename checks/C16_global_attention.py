"""C16: global spherical attention against a dense quadrature-weighted softmax."""
import math
import torch
import torch_harmonics as th
from vlib import attn, gen
from checks import C14_neighborhood_attention as nb_
from checks.C13_disco_grad import layout, LAYOUTS
from checks.C15_attention_grad import magnitudes, EPS as EPSD

PROPERTY = "C16"
TECHNIQUE = "runtime monitor: output and gradients of the real module compared with the harness's own dense double-precision softmax with quadrature weights, plus probes of single weights, constants, head and batch independence"
NOTE = "Held on every configuration executed. The logarithmic weights are single precision by design, which bounds the accuracy in double precision."
RULE = "a case is (grids, sizes, heads, channels, scale, norm, bias, dtype, layouts, aliasing, probe); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["dropout is disabled (rate 0, or evaluation mode)"]
ROUNDS = 4
REQUIRED_EVENTS = ["output", "grad", "weights", "constant", "heads", "batch", "self_default", "eval_dropout", "autocast"]
NAMES = ["query", "key", "value"]


def cases(rng, tier):
    for i in range(800 if tier == "quick" else 8000):
        m = gen.choice(rng, [1, 2, 3, 4, 5, 6, 8, 9, 12, 16])
        f = gen.choice(rng, [1, 1, 1, 2, 3, 4, 5, 7])
        n = gen.ri(rng, 2, 10)
        no = gen.choice(rng, [n, n, (n + 1) // 2, n + 1, 2 * n, 1])
        if f == 1 and rng.random() < 0.6:
            no = n
        H = gen.choice(rng, [1, 1, 2, 3, 4])
        ic, kc, oc = gen.choice(rng, [1, 2, 3, 4]), H * gen.choice(rng, [1, 2, 3, 5]), H * gen.choice(rng, [1, 2, 3, 4])
        if i % 40 == 9:
            H = gen.choice(rng, [1, 4, 8, 16])
            ic, kc, oc = gen.ri(rng, 1, 40), H * gen.ri(rng, 1, 8), H * gen.ri(rng, 1, 8)
        elif i % 80 == 11:
            n, no, m, f = gen.ri(rng, 20, 40), gen.ri(rng, 10, 30), gen.choice(rng, [20, 24, 33]), gen.choice(rng, [1, 2])
        yield {
            "in": [n, m * f], "out": [no, m], "gi": gen.choice(rng, attn.GRIDS), "go": gen.choice(rng, attn.GRIDS), "H": H, "ic": ic,
            "kc": kc, "oc": oc, "bias": bool(rng.integers(2)), "norm": rng.random() < 0.3,
            "scale": gen.choice(rng, [None, None, 0.5, 2.0, "tensor", "param"]), "B": gen.batch(rng, [1, 2, 3], n * m * f * no * m), "dtype": gen.choice(rng, ["float64", "float64", "float32", "float32", "bfloat16"]),
            "lay": [gen.choice(rng, LAYOUTS) for _ in range(4)], "alias": gen.choice(rng, ["none", "none", "kv", "all", "kv-memory", "all-memory", "v-first"]), "drop": gen.choice(rng, [0.0, 0.0, 0.0, 0.4]),
            "probe": gen.choice(rng, ["grad", "grad", "weights", "constant", "heads", "batch"]), "amp": rng.random() < 0.1, "u": int(rng.integers(10**4)),
        }


def build(case):
    sc = torch.tensor(0.37) if case["scale"] == "tensor" else torch.nn.Parameter(torch.tensor(0.375)) if case["scale"] == "param" else case["scale"]
    m = th.AttentionS2(case["ic"], case["H"], tuple(case["in"]), tuple(case["out"]), grid_in=case["gi"], grid_out=case["go"], scale=sc, use_qknorm=case["norm"],
                       bias=case["bias"], k_channels=case["kc"], out_channels=case["oc"], drop_rate=case["drop"])
    return m.eval() if case["drop"] else m


def run(case, mon):
    H, B, oc = case["H"], case["B"], case["oc"]
    dt = getattr(torch, case["dtype"])
    if dt == torch.bfloat16 and case["norm"]:
        dt = torch.float32
    qw = attn.quad(case["in"][0], case["in"][1], case["gi"])
    sc = float(torch.tensor(0.37)) if case["scale"] == "tensor" else 0.375 if case["scale"] == "param" else (case["scale"] or 1 / math.sqrt(case["kc"] // H))
    mod = build(case)
    nb_.randomise(mod, case)
    if case["drop"]:
        mon.event("eval_dropout")
    data = list(nb_.inputs(case))
    with torch.no_grad():
        for p in mod.parameters():
            p.copy_(p.to(torch.bfloat16))
    data = [t.to(torch.bfloat16).double() for t in data]
    g64 = gen.shaped(torch.randn(B, oc, *case["out"]), case, "g").to(torch.bfloat16).double()
    lay = list(case["lay"])
    alias = case["alias"] if case["in"] == case["out"] or not case["alias"].startswith("all") else case["alias"].replace("all", "kv")
    for i, l in enumerate(lay):
        if l == "expanded":
            if i < 3:
                data[i] = data[i][:1].expand(B, -1, -1, -1).clone()
            else:
                g64 = g64[:1].expand(B, -1, -1, -1).clone()
    if alias.startswith("kv"):
        data[2], lay[2] = data[1], lay[1]
    if alias == "v-first":
        data[2] = data[1][:1].expand(B, -1, -1, -1).clone()
    if alias.startswith("all"):
        data[1] = data[2] = data[0]
        lay[1] = lay[2] = lay[0]
    P = attn.params(mod)
    for p in P.values():
        p.requires_grad_(True)
    leaves = [t.clone().requires_grad_(True) for t in data]
    info = {"sc": abs(sc)}
    e = float(torch.finfo(dt).eps)
    want = attn.forward(P, *leaves, H, sc, qw, None, eps=e, info=info)
    Pd = {n: p.detach() for n, p in P.items()}
    mags = magnitudes(Pd, info, *data, g64, H, abs(sc), eps=e)
    lm = float(info["q"].abs().max() * info["k"].abs().max()) * info["q"].shape[1] * abs(sc) * info["amp"]
    eps = EPSD["float32" if dt == torch.float32 else "bfloat16"] if dt != torch.float64 else 1e-12
    N = case["in"][0] * case["in"][1]
    rt = 6 * eps * (4 + lm + N / 16) * (info["amp"] if case["norm"] else 1.0) + (1e-6 if dt == torch.float64 else 0)
    if rt > 0.25:
        mon.event("too_ill_conditioned")
        return
    mod = mod.to(dt)
    x = [layout(data[i].to(dt), lay[i]).detach() for i in range(3)]
    if alias == "kv":
        x[2] = x[1]
    # distinct tensors over the same memory
    if alias == "all-memory":
        x[1] = x[0].detach()
    if alias.endswith("memory"):
        x[2] = x[1].detach()
    if alias == "v-first":
        x[2] = x[1].detach()[:1].expand(B, -1, -1, -1)
    args = tuple(x)
    if alias == "all":
        x[1] = x[2] = x[0]
        args = (x[0],)
        mon.event("self_default")
    for t in x:
        t.requires_grad_(True)
    y = mod(*args)
    mon.check(tuple(y.shape) == (B, oc, *case["out"]) and y.dtype == dt, "shape", f"{tuple(y.shape)} {y.dtype}")
    ymag = torch.einsum("oi,bi...->bo...", Pd["proj_weights"].reshape(oc, -1).abs(), torch.einsum("bhnm,bhcm->bhcn", info["A"], info["v"].abs().reshape(B, H, oc // H, -1)).reshape(B, oc, *case["out"]))
    if case["bias"]:
        ymag = ymag + Pd["proj_bias"].abs().reshape(1, -1, 1, 1)
    ys = float(ymag.max())
    mon.close(y, want, rt, 1e-7, "output", scale=ys)
    mon.state(*[str(case[k]) for k in ("gi", "go", "in", "out", "H", "norm", "bias", "scale", "dtype", "probe")], alias)
    if case["probe"] == "grad":
        g = layout(g64.to(dt), lay[3])
        y.backward(g.clone() if lay[3] == "contig" else g)
        names = list(P)
        refs = dict(zip(NAMES + names, torch.autograd.grad(want, leaves + [P[n] for n in names], g64, allow_unused=True)))
        tot, scal = {}, {}
        for i, n in enumerate(NAMES):
            tot[id(x[i])] = tot.get(id(x[i]), 0) + refs[n]
            scal[id(x[i])] = scal.get(id(x[i]), 0) + mags[n]
        for i, n in enumerate(NAMES):
            mon.close(x[i].grad, tot[id(x[i])], rt, 1e-7, "grad", key=f"grad_{n}", scale=float(scal[id(x[i])].max()))
        for n, p in mod.named_parameters():
            r = refs[n] if refs[n] is not None else torch.zeros_like(Pd[n])
            mon.close(p.grad, r, 2 * rt, 1e-7, "grad", key=f"grad_{n}", scale=float(mags[n].max()))
        return
    with torch.no_grad():
        if case["probe"] in ("weights", "constant"):
            mod.proj_weights.copy_(torch.eye(oc).reshape(oc, oc, 1, 1))
            mod.v_weights.zero_()
            mod.v_weights[:, 0] = 1.0
            if case["bias"]:
                mod.v_bias.zero_(), mod.proj_bias.zero_()
            v0 = torch.zeros(B, case["ic"], *case["in"], dtype=dt)
            if case["probe"] == "weights":
                j = case["u"] % N
                v0.reshape(B, case["ic"], -1)[:, 0, j] = 1.0
                o = mod(x[0], x[1], v0).reshape(B, H, oc // H, -1)
                mon.close(o, info["A"][..., j].unsqueeze(2).expand(-1, -1, oc // H, -1), rt, 1e-7, "weights", scale=1.0)
                mon.check(bool((o >= 0).all()), "weights", "negative weight")
            else:
                o = mod(x[0], x[1], v0 + 0.75)
                mon.close(o, torch.full_like(o, 0.75).double(), 0, 4e-6 + 8 * eps * (4 + N / 16), "constant")
        elif case["probe"] == "heads" and H > 1:
            mod.proj_weights.copy_(torch.eye(oc).reshape(oc, oc, 1, 1))
            o1 = mod(*x)
            h = case["u"] % H
            ck, cv = case["kc"] // H, oc // H
            mod.q_weights[h * ck:(h + 1) * ck] += 1.0
            mod.k_weights[h * ck:(h + 1) * ck] *= 1.5
            mod.v_weights[h * cv:(h + 1) * cv] *= 1.5
            o2 = mod(*x)
            keep = [c for c in range(oc) if not h * cv <= c < (h + 1) * cv]
            mon.close(o2[:, keep], o1[:, keep].double(), rt, 1e-7, "heads", scale=float(info["v"].abs().max()) + 1)
        elif case["probe"] == "batch" and B > 1:
            b = case["u"] % B
            x2 = [t.detach().clone() for t in x]
            for t in x2:
                t[b] = torch.randn_like(t[b]) * 3
            o2 = mod(*x2)
            keep = [i for i in range(B) if i != b]
            mon.close(o2[keep], y[keep].double(), rt, 1e-7, "batch", scale=ys)
        if case["amp"] and dt == torch.float32 and not case["norm"]:
            with torch.autocast("cpu", dtype=torch.bfloat16):
                mod2 = build(case)
                for n, p in mod2.named_parameters():
                    p.copy_(Pd[n])
                y2 = mod2(*x)
            rta = 6 * 2.0**-8 * (4 + lm)
            mon.check(bool(torch.isfinite(y2).all()), "autocast", "finite")
            if rta < 0.5:
                mon.close(y2, want, rta, 1e-6, "autocast", scale=ys)
