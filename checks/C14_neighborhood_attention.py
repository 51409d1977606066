"""C14: neighborhood attention against a dense masked softmax."""
import math
import torch
import torch_harmonics as th
from vlib import attn, gen

PROPERTY = "C14"
TECHNIQUE = "runtime monitor: output of the real attention module compared with the harness's own dense masked softmax over geodesic distances (double precision), plus probes of single attention weights, head mixing, logit shifts and huge logits"
NOTE = "Held on every configuration executed, for the optimized CPU kernels and the reference implementation. The kernels compute in single precision by design; tolerances follow the magnitude of the logits. Neighbourhoods that contain no input point are outside the property."
RULE = "a case is (direction, grids, sizes, cutoff, heads, channels, scale, norm, bias, implementation, value regime); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = ["a neighbourhood is the closed disk of radius 1.001*theta_cutoff (the documented rounding allowance); configurations with a point within 1e-9 of that circle are not judged"]
ROUNDS = 4
REQUIRED_EVENTS = ["output", "weights", "heads", "shift", "huge", "constant", "outside", "self_default"]
JOBS = 8
EPS32 = 1.2e-7


def case_of(rng, i, tier="quick"):
    impl = gen.choice(rng, ["opt", "opt", "opt", "torch"])
    kind = gen.choice(rng, ["down", "self", "up", "up"])
    ish, osh = attn.shapes(rng, kind, small=impl == "torch")
    H = gen.choice(rng, [1, 1, 2, 3, 4])
    kc, vc = H * gen.choice(rng, [1, 1, 2, 3, 5]), H * gen.choice(rng, [1, 2, 3, 4])
    ic = gen.choice(rng, [1, 2, 3, 4])
    if rng.random() < 0.06 and impl != "torch":
        H = gen.choice(rng, [1, 4, 6, 8, 16])
        kc, vc, ic = H * gen.ri(rng, 1, 8), H * gen.ri(rng, 1, 8), gen.ri(rng, 1, 40)
    elif rng.random() < 0.05 and impl != "torch" and max(ish[1], osh[1]) <= 24:  # many latitudes
        ish[0] = gen.ri(rng, 20, 60)
        osh[0] = gen.choice(rng, [ish[0], ish[0] // 2, gen.ri(rng, 20, 60)])
    nmin = min(ish[0], osh[0])
    base = math.pi / max(1, nmin - 1)
    cut = gen.choice(rng, [None, None, round(base * float(rng.uniform(0.9, 1.6)), 4), round(base * float(rng.uniform(1.6, 4)), 4), round(float(rng.uniform(1.6, 3.3)), 4)])
    if cut is None and min(ish[0], osh[0]) < 2:
        cut = 2.0
    return {
        "impl": impl, "in": ish, "out": osh, "gi": gen.choice(rng, attn.GRIDS), "go": gen.choice(rng, attn.GRIDS), "cut": cut,
        "H": H, "ic": ic, "kc": kc, "oc": vc, "bias": bool(rng.integers(2)), "norm": rng.random() < 0.3,
        "scale": gen.choice(rng, [None, None, 0.5, 2.0, "tensor", "param"]), "B": gen.batch(rng, [1, 1, 2, 3], ish[0] * ish[1] * osh[0] * osh[1]), "u": int(rng.integers(10**4)),
    }


def cases(rng, tier):
    for i in range(900 if tier == "quick" else 9000):
        c = case_of(rng, i, tier)
        c["regime"] = gen.choice(rng, ["normal", "normal", "large", "exact", "exact"])
        yield c


def build(case, impl=None):
    sc = case["scale"]
    if sc == "tensor":
        sc = torch.tensor(0.37)
    if sc == "param":
        sc = torch.nn.Parameter(torch.tensor(0.375))
    impl = impl or case["impl"]
    return th.NeighborhoodAttentionS2(
        case["ic"], tuple(case["in"]), tuple(case["out"]), grid_in=case["gi"], grid_out=case["go"], num_heads=case["H"], scale=sc, use_qknorm=case["norm"],
        bias=case["bias"], theta_cutoff=case["cut"], k_channels=case["kc"], out_channels=case["oc"], optimized_kernel=impl == "opt")


def geometry(case):
    """mask, weights, scale as the property defines them (raises Ambiguous / returns None when outside)"""
    up = case["out"][1] > case["in"][1]
    cut = case["cut"] if case["cut"] is not None else math.pi / ((case["in"] if up else case["out"])[0] - 1)
    m = attn.mask(case["in"], case["out"], case["gi"], case["go"], cut)
    qw = attn.quad(case["in"][0], case["in"][1], case["gi"])
    sc = case["scale"]
    sc = float(torch.tensor(0.37)) if sc == "tensor" else 0.375 if sc == "param" else (sc if sc is not None else 1 / math.sqrt(case["kc"] // case["H"]))
    return m, qw, sc


def randomise(mod, case, gain=1.0):
    with torch.no_grad():
        for n, p in mod.named_parameters():
            if n == "scale":  # a learnable scale keeps its value
                continue
            p.normal_()
            if n.endswith("bias") or "norm" in n:
                p.mul_(0.5)
        mod.q_weights.mul_(gain)


def inputs(case, plain=False):
    B, ic = case["B"], case["ic"]
    q, k, v = torch.randn(B, ic, *case["out"]), torch.randn(B, ic, *case["in"]), torch.randn(B, ic, *case["in"])
    if plain:
        return q, k, v
    if not case["norm"]:
        q, k = gen.shaped(q, case, "q"), gen.shaped(k, case, "k")
    return q, k, gen.shaped(v, case, "v")


def ftol(info, P, nb):
    """relative accuracy single precision allows: rounding of the logits' summands enters the exponent"""
    q, k = info["q"].abs(), info["k"].abs()
    lm = float(q.amax() * k.amax()) * q.shape[1] * info["sc"]
    return 8 * EPS32 * (4 + lm * info["amp"] + nb / 16), float(info["v"].abs().amax())


def run(case, mon):
    try:
        msk, qw, sc = geometry(case)
    except attn.Ambiguous:
        mon.event("ambiguous")
        return
    if not bool(msk.any(1).all()):
        mon.event("empty_neighbourhood")
        return
    nb = int(msk.sum(1).max())
    mod = build(case)
    H, B = case["H"], case["B"]
    reg = case["regime"]
    randomise(mod, case, 1.0)
    q, k, v = inputs(case)
    exact = reg == "exact" and not case["norm"] and case["scale"] in (0.5, 2.0)
    if reg == "large":
        with torch.no_grad():
            mod.q_weights.mul_(float(2.0 ** (case["u"] % 8)))
    if exact:
        # small integers times powers of two: every logit is exact in single precision, however large
        e = [0, 4, 8, 16, 40][case["u"] % 5]
        off = [0, 0, -1, 1, 1][case["u"] // 5 % 5]
        q = torch.randint(-3, 4, q.shape).float() + off * 4
        k = torch.randint(-3, 4, k.shape).float()
        if off:
            k = k - 4.0  # all logits of one sign
        with torch.no_grad():
            mod.q_weights.copy_(torch.randint(0 if off else -1, 2, mod.q_weights.shape).float() * 2.0**e)
            mod.k_weights.copy_(torch.randint(0 if off else -1, 2, mod.k_weights.shape).float())
            if off and case["bias"]:
                mod.q_bias.zero_(), mod.k_bias.zero_()
            elif case["bias"]:
                mod.q_bias.copy_(torch.randint(-1, 2, mod.q_bias.shape).float() * 2.0**e)
                mod.k_bias.copy_(torch.randint(-1, 2, mod.k_bias.shape).float())
    y = mod(q, k, v).detach()
    P = attn.params(mod)
    info = {"sc": abs(sc)}
    want = attn.forward(P, q.double(), k.double(), v.double(), H, sc, qw, msk, info=info)
    mon.check(tuple(y.shape) == (B, case["oc"], *case["out"]) and y.dtype == torch.float32, "shape", f"{tuple(y.shape)} {y.dtype}")
    proj = float(P["proj_weights"].abs().sum((1, 2, 3)).max())
    if exact:
        big = float(info["L"].abs().max())
        rt, vm = 8 * EPS32 * (4 + min(big, 90.0) + nb / 16), float(info["v"].abs().amax())
        mon.close(y, want, 0, 1e-6 + rt * (vm * proj + 1), "huge" if big > 200 else "output")
    else:
        rt, vm = ftol(info, P, nb)
        if rt < 0.02:
            mon.close(y, want, 0, 1e-6 + rt * (vm * proj + 1), "output")
        mon.check(bool(torch.isfinite(y).all()), "finite", "finite inputs gave a non-finite output")
    mon.state(case["impl"], case["gi"], case["go"], tuple(case["in"]), tuple(case["out"]), case["cut"] is None, H, case["norm"], case["bias"], str(case["scale"]), reg)
    if reg != "normal":
        return
    w = case["u"] % 6
    if w == 0 and case["in"] == case["out"]:
        with torch.no_grad():
            mon.equal(mod(q), mod(q, q, q), "self_default")
            mon.equal(mod(q, k), mod(q, k, q), "self_default")
    ident = build(case)
    with torch.no_grad():
        for (n, p), (_, o) in zip(ident.named_parameters(), mod.named_parameters()):
            p.copy_(o)
        # values and projection become transparent, so the output is the attention average itself
        ident.v_weights.zero_()
        ident.proj_weights.copy_(torch.eye(case["oc"]).reshape(case["oc"], case["oc"], 1, 1))
        if case["bias"]:
            ident.proj_bias.zero_()
    A = info["A"]  # B,H,No,Ni
    if w in (1, 2):
        # read single attention weights off the output: value = indicator of one input point
        with torch.no_grad():
            if case["bias"]:
                ident.v_bias.zero_()
            ident.v_weights[:, 0] = 1.0
            v0 = torch.zeros_like(v)
            Ni = case["in"][0] * case["in"][1]
            j = case["u"] % Ni
            v0.reshape(B, case["ic"], -1)[:, 0, j] = 1.0
            o = ident(q, k, v0).reshape(B, H, case["oc"] // H, -1)
            got = o[:, :, 0]
            mon.close(got, A[..., j], 0, 1e-6 + rt * 2, "weights")
            out = ~msk[:, j]
            mon.check(bool((o[..., out] == 0).all()), "outside", "an input point beyond the cutoff has influence")
            mon.check(bool((got >= 0).all()), "weights", "negative attention weight")
    if w == 3:
        with torch.no_grad():
            ident.v_weights.zero_()
            ident.v_weights[:, 0] = 1.0
            if case["bias"]:
                ident.v_bias.zero_()
            c = 0.75
            o = ident(q, k, torch.full_like(v, c))
            mon.close(o, torch.full_like(o, c).double(), 0, 4e-6 + EPS32 * nb, "constant")
    if w == 4 and H > 1:
        # changing one head's query/key/value parameters changes that head only
        with torch.no_grad():
            for (n, p), (_, o) in zip(ident.named_parameters(), mod.named_parameters()):
                if n not in ("proj_weights", "proj_bias"):
                    p.copy_(o)
            h = case["u"] % H
            o1 = ident(q, k, v)
            ck, cv = case["kc"] // H, case["oc"] // H
            ident.q_weights[h * ck:(h + 1) * ck] += 1.0
            ident.k_weights[h * ck:(h + 1) * ck] *= 1.5
            ident.v_weights[h * cv:(h + 1) * cv] *= 1.5
            o2 = ident(q, k, v)
            keep = [c for c in range(case["oc"]) if not h * cv <= c < (h + 1) * cv]
            mon.close(o2[:, keep], o1[:, keep].double(), 0, 1e-6 + rt * (vm + 1), "heads")
    if w == 5 and case["bias"] and not case["norm"]:
        # a constant added to all logits: key bias shifts every logit of a query by q . b
        with torch.no_grad():
            y1 = mod(q, k, v)
            s = torch.randn(case["kc"]) * 3
            mod.k_bias += s
            y2 = mod(q, k, v)
            info2 = {"sc": abs(sc)}
            attn.forward(attn.params(mod), q.double(), k.double(), v.double(), H, sc, qw, msk, info=info2)
            rt2, _ = ftol(info2, P, nb)
            mon.close(y2, y1.double(), 0, 1e-6 + (rt + rt2) * (vm * proj + 1), "shift")
