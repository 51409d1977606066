"""C13: DISCO gradients and agreement of implementations."""
import torch
from vlib import gen, disco, kpacked
from checks import C11_disco as base

PROPERTY = "C13"
TECHNIQUE = "runtime monitor: gradients of every implementation compared with automatic differentiation of the harness's dense sum, and implementations/precisions compared with each other, over request patterns, memory layouts and precisions"
NOTE = "Held on every configuration executed. Half-precision results are compared at a few units of their rounding."
RULE = "a case is (direction, configuration, implementation, dtype, layout, requested gradients); distinct by that tuple"
LEVEL = "exploration"
ASSUMPTIONS = base.ASSUMPTIONS
ROUNDS = 4
REQUIRED_EVENTS = ["output", "grad_x", "grad_w", "grad_b", "agree", "not_requested", "accumulate", "autocast"]
LAYOUTS = ["contig", "permuted", "sliced", "expanded", "flipped"]


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 9000):
        tr = bool(rng.integers(2))
        c = base.case_of(rng, i, tr)
        if tr and c["impl"] == "fused":
            c["impl"] = "opt"
        G = c["G"]
        if rng.random() < 0.5:  # more input than output channels: the other backward order
            c["co"] = G
            c["ci"] = G * gen.choice(rng, [2, 3, 4, 5])
        c["tr"] = tr
        c["dtype"] = gen.choice(rng, ["float64", "float64", "float64", "float32", "float32", "bfloat16", "float16"])
        c["lx"], c["lg"] = gen.choice(rng, LAYOUTS), gen.choice(rng, LAYOUTS)
        c["need"] = gen.choice(rng, ["xwb", "xwb", "x", "w", "xw", "wb"])
        c["amp"] = rng.random() < 0.12
        if rng.random() < 0.12:
            c.update(tr=False, dtype=gen.choice(rng, ["bfloat16", "float16"]), packed=True, impl=gen.choice(rng, ["opt", "fused"]))
            mo = gen.choice(rng, [8, 8, 16])
            c["coarse"], c["fine"] = [c["coarse"][0], mo], [c["fine"][0], mo * gen.choice(rng, [1, 2, 3])]
            if rng.random() < 0.8:
                c["kind"] = gen.choice(rng, ["zernike", "harmonic"])
                c["shape"] = gen.ri(rng, 2, 5) if c["kind"] == "zernike" else [gen.ri(rng, 1, 3), gen.ri(rng, 1, 4)]
        yield c


def packed(case, mon, make, x64, g64, want, refs, sc, ms, rt, at):
    """the path taken on accelerators with packed kernels, its kernel replaced by a stand-in"""
    if not kpacked.install():
        return
    dt = getattr(torch, case["dtype"])
    conv = make()
    if not hasattr(conv, "kpacked_device_supported"):
        return
    conv.kpacked_device_supported = True
    n0 = kpacked.CALLS[0]
    x = x64.to(dt).detach().clone().requires_grad_(True)
    y = conv(x.as_subclass(kpacked.Device)).as_subclass(torch.Tensor)
    if kpacked.CALLS[0] == n0:
        mon.event("packed-not-applicable")
        return
    mon.close(y, want, 2 * rt, at, "packed", scale=sc)
    y.backward(g64.to(dt))
    mon.check(x.grad is not None and conv.weight.grad is not None, "packed-gradient", "gradient missing")
    mon.close(x.grad, refs[0], 2 * rt, at, "packed-gradient", scale=float(ms[0].max()))
    mon.close(conv.weight.grad, refs[1], 4 * rt, at, "packed-gradient", scale=float(ms[1].max()))
    mon.state("packed", case["kind"], str(case["shape"]), case["impl"], case["ci"] >= 2 * case["co"], case["fine"][1] // case["coarse"][1])


def layout(t, kind):
    """same values and shape, different memory"""
    if kind == "permuted":
        return t.permute(3, 0, 2, 1).contiguous().permute(1, 3, 2, 0)
    if kind == "sliced":
        b = torch.full((t.shape[0] + 1, t.shape[1], t.shape[2] + 2, 2 * t.shape[3] + 1), float("nan"), dtype=t.dtype)
        v = b[1:, :, 1:-1, 1::2]
        v.copy_(t)
        return v
    if kind == "flipped":
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if kind == "expanded":
        return t[:1].expand(t.shape[0], -1, -1, -1)
    return t


RT = {"float64": 1e-8, "float32": 3e-5, "bfloat16": 5e-2, "float16": 8e-3}


def run(case, mon):
    tr, G, ci, co, B = case["tr"], case["G"], case["ci"], case["co"], case["B"]
    try:
        st = base.stencil(case, tr)
    except disco.Ambiguous:
        mon.event("ambiguous")
        return
    dt = getattr(torch, case["dtype"])
    conv = base.build(case, tr)
    with torch.no_grad():
        conv.weight.normal_()
        if case["bias"]:
            conv.bias.normal_()
        # values every precision represents exactly
        conv.weight.copy_(conv.weight.to(torch.bfloat16))
        if case["bias"]:
            conv.bias.copy_(conv.bias.to(torch.bfloat16))
    n, m = case["coarse"] if tr else case["fine"]
    no, mo = case["fine"] if tr else case["coarse"]
    x64 = gen.shaped(torch.randn(B, ci, n, m), case, "x").to(torch.bfloat16).double()
    g64 = gen.shaped(torch.randn(B, co, no, mo), case, "g").to(torch.bfloat16).double()
    if case["lx"] == "expanded":
        x64 = x64[:1].expand(B, -1, -1, -1).clone()
    if case["lg"] == "expanded":
        g64 = g64[:1].expand(B, -1, -1, -1).clone()
    W64 = conv.weight.detach().clone()
    b64 = conv.bias.detach().clone() if case["bias"] else None
    if st.ambiguous_support:
        # the stencil as the double-precision module realises it; gradients and implementations are still judged
        psi = torch.from_numpy(base.matrix(case, st.K, tr))
        noise = None
    else:
        psi = None
    xr, Wr = x64.clone().requires_grad_(True), W64.clone().requires_grad_(True)
    br = b64.clone().requires_grad_(True) if b64 is not None else None
    want = st.apply(xr, Wr, G, br, psi=psi)
    refs = torch.autograd.grad(want, [xr, Wr] + ([br] if br is not None else []), g64)
    conv = conv.to(dt)
    x = layout(x64.to(dt), case["lx"]).detach()
    g = layout(g64.to(dt), case["lg"])
    need = case["need"]
    x.requires_grad_("x" in need)
    conv.weight.requires_grad_("w" in need)
    if case["bias"]:
        conv.bias.requires_grad_("b" in need)
    if not any(t.requires_grad for t in [x] + list(conv.parameters())):
        x.requires_grad_(True)
        need = "x"
    y = conv(x)
    mon.check(y.dtype == dt and tuple(y.shape) == tuple(want.shape), "shape", f"{y.dtype} {tuple(y.shape)}")
    rt = RT[case["dtype"]]
    absn = (psi.abs() if psi is not None else torch.from_numpy(abs(st.psi)))
    mag = st.apply(x64.abs(), W64.abs(), G, None if b64 is None else b64.abs(), psi=absn)
    noise = 4 * st.tol(x64, W64, G) if psi is None else 0.0
    sc = float(mag.max())
    at = 1e-9 if dt == torch.float64 else 1e-6
    mon.close(y, want, rt, at + noise, "output", scale=sc)
    # a private copy of the upstream gradient: autograd may store (a view of) it as the bias gradient and add to it later
    y.backward(g.clone() if case["lg"] == "contig" else g)
    mon.state(*[str(case[k]) for k in ("tr", "kind", "mode", "G", "impl", "dtype", "lx", "lg", "need")], case["ci"] >= 2 * case["co"], case["fine"][1] // case["coarse"][1])
    # magnitude scales for gradients
    xa, Wa = x64.abs().requires_grad_(True), W64.abs().requires_grad_(True)
    ms = torch.autograd.grad(st.apply(xa, Wa, G, psi=absn), [xa, Wa], g64.abs())
    nz = torch.autograd.grad(st.apply(xa, Wa, G, psi=torch.from_numpy(st.noise)), [xa, Wa], g64.abs()) if psi is None else [torch.zeros(1)] * 2
    for name, t, r, s, q in (("x", x, refs[0], ms[0], nz[0]), ("w", conv.weight, refs[1], ms[1], nz[1])):
        if name in need:
            mon.check(t.grad is not None and t.grad.dtype == dt, f"grad_{name}_dtype", f"gradient {None if t.grad is None else t.grad.dtype}")
            rr = rt * (4 if name == "w" and dt in (torch.float16, torch.bfloat16) else 1)
            mon.close(t.grad, r, rr, at + 4 * float(q.max()), f"grad_{name}", scale=float(s.max()))
        else:
            mon.check(t.grad is None, "not_requested", f"gradient of {name} was not requested")
    if case["bias"]:
        if "b" in need:
            mon.close(conv.bias.grad, refs[2], rt, 1e-9, "grad_b", scale=float(g64.abs().sum((0, 2, 3)).max()))
        else:
            mon.check(conv.bias.grad is None, "not_requested", "bias gradient was not requested")
    if case.get("packed"):
        def make():
            other = base.build(case, False)
            with torch.no_grad():
                other.weight.copy_(W64)
                if b64 is not None:
                    other.bias.copy_(b64)
            return other.to(dt)
        packed(case, mon, make, x64, g64, want, refs, sc, ms, rt, at)
    # implementations agree with each other on the same parameters
    if case["u"] % 3 == 0:
        for impl in (["opt", "torch"] if tr else ["opt", "torch", "fused"]):
            if impl == case["impl"]:
                continue
            other = base.build(case, tr, impl=impl)
            with torch.no_grad():
                other.weight.copy_(W64)
                if b64 is not None:
                    other.bias.copy_(b64)
            other = other.to(dt)
            x2 = x64.to(dt).detach().clone().requires_grad_(True)
            y2 = other(x2)
            mon.close(y2, y, rt, at, "agree", scale=sc)
            y2.backward(g64.to(dt))
            if "x" in need:
                mon.close(x2.grad, x.grad, rt, at, "agree", scale=float(ms[0].max()))
            if "w" in need:
                mon.close(other.weight.grad, conv.weight.grad, rt * 4, at, "agree", scale=float(ms[1].max()))
    # a second backward through a new forward accumulates
    if case["u"] % 5 == 0 and dt == torch.float64:
        old = {k: p.grad.clone() for k, p in conv.named_parameters() if p.grad is not None}
        conv.zero_grad()
        conv(x).backward(g64.to(dt).clone())
        conv(x).backward(g64.to(dt).clone())
        for k, p in conv.named_parameters():
            if k in old:
                mon.close(p.grad, 2 * old[k], 1e-12, 1e-10, "accumulate")
    if case["amp"] and dt == torch.float32:
        x2 = x64.float().clone().requires_grad_(True)
        conv.zero_grad()
        conv.requires_grad_(True)
        with torch.autocast("cpu", dtype=torch.bfloat16):
            y2 = conv(x2)
        mon.close(y2, want, 6e-2, 1e-6, "autocast", scale=sc)
        y2.backward(g64.to(y2.dtype))
        mon.check(x2.grad.dtype == torch.float32 and conv.weight.grad.dtype == torch.float32, "autocast", "gradients keep the parameters' type")
        mon.close(x2.grad, refs[0], 6e-2, 1e-6, "autocast", scale=float(ms[0].max()))
        mon.close(conv.weight.grad, refs[1], 1e-1, 1e-6, "autocast", scale=float(ms[1].max()))
