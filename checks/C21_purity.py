"""Operators are pure functions of their inputs and parameters."""
import torch
from vlib import gen, ops

PROPERTY = "C21"
TECHNIQUE = "runtime monitoring: snapshots (values and shapes) of inputs, parameters, buffers, earlier results, upstream gradients and global settings are compared before and after every call of every operator in random call histories; results are compared bitwise on repetition and against runs with poisoned batch neighbours, other leading shapes and other memory layouts"
NOTE = "all serial operators (transforms, vector transforms, quadrature, resampling, spectral, DISCO forward/transposed in all implementations, local and global attention), forward and backward, float32 and float64."
RULE = "distinct (operator, options, probe, layout, type) situations in which a snapshot or twin run was compared"
LEVEL = "exploration"
ROUNDS = 2
REQUIRED_EVENTS = ["input-untouched", "state-untouched", "results-untouched", "repeatable", "repeatable-gradient", "batch-independent", "batch-independent-gradient", "leading-shape", "layout", "layout-gradient", "upstream-untouched", "settings-untouched", "undefined-stays-undefined"] + ["op:" + k for k in ops.KINDS]
JOBS = 8
LAY = ["sliced", "permuted", "flipped", "offset", "expanded", "conj"]


def cases(rng, tier):
    n = 220 if tier == "quick" else 1100
    for i in range(n):
        for k in ops.KINDS:
            s = ops.spec(rng, k)
            s["B"] = gen.batch(rng, [1, 2, 3, 4])
            yield {"s": s, "dt": gen.choice(rng, ["float32", "float64"]), "lay": gen.choice(rng, LAY), "glay": gen.choice(rng, LAY[:5] + ["same"]), "hist": [gen.choice(rng, ["other", "nograd", "backward", "inference", "bigger", "twice", "eval"]) for _ in range(gen.ri(rng, 1, 4))], "u": int(rng.integers(10**6))}


def layout(t, kind):
    """same values and shape in different memory"""
    if t.dim() == 0:
        return t
    if kind == "sliced":
        b = torch.full([t.shape[0] + 1] + [2 * d + 1 for d in t.shape[1:]], float("nan"), dtype=t.dtype)
        v = b[(slice(1, None),) + (slice(1, None, 2),) * (t.dim() - 1)]
        v.copy_(t)
        return v
    if kind == "permuted":
        p = list(range(t.dim()))
        p = p[1:] + p[:1]
        inv = [p.index(i) for i in range(t.dim())]
        return t.permute(p).contiguous().permute(inv)
    if kind == "flipped" and t.dim() >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if kind == "offset":
        b = torch.full((t.numel() + 3,), float("nan"), dtype=t.dtype)
        b[3:] = t.flatten()
        return b[3:].view(t.shape)
    if kind == "expanded":
        return t[:1].expand(t.shape)
    if kind == "conj" and t.is_complex():
        return t.conj().resolve_conj().conj()
    return t.clone()


def snap(ts):
    return [t.detach().clone() for t in ts]


def same(a, b):
    return all(x.shape == y.shape and x.dtype == y.dtype and torch.equal(torch.nan_to_num(torch.view_as_real(x.detach().resolve_conj()) if x.is_complex() else x.detach(), nan=1e30), torch.nan_to_num(torch.view_as_real(y.resolve_conj()) if y.is_complex() else y, nan=1e30)) for x, y in zip(a, b))


def build(case):
    s = case["s"]
    m = ops.make(s)
    if case["dt"] == "float64" and s["op"] in ("disco", "discoT", "gatt", "natt"):
        m = m.double()
    return m


def settings():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.are_deterministic_algorithms_enabled(), torch.get_num_threads(), bytes(torch.get_rng_state()[:64].numpy().tobytes()), torch.random.initial_seed())


def tame(s, x):
    if s["op"] == "resample" and s["mode"] == "bilinear-spherical":
        return [t.tanh() * 0.7 for t in x]
    return x


def run(case, mon):
    s = case["s"]
    dt = getattr(torch, case["dt"])
    mod = build(case)
    rel = ops.tol(s, dt)
    if s["op"] == "resample" and s["mode"] == "bilinear-spherical":
        rel *= 20
    state = lambda: list(mod.parameters()) + list(mod.buffers())
    keys = list(mod.state_dict())
    st0, set0 = snap(state()), settings()
    B = s["B"]

    def check_state(when):
        mon.check(same(state(), st0), "state-untouched", f"{when}: a parameter or buffer changed")
        mon.check(list(mod.state_dict()) == keys, "state-untouched", f"{when}: the set of parameters and buffers changed")

    x = tame(s, ops.inputs(s, dt))
    x0 = snap(x)
    held = []

    def hold(t, what):
        held.append((t, t.detach().clone(), what))

    def forward(xs, what, grad=True):
        keep = snap(xs)
        y = mod(*xs)
        mon.check(same(xs, keep), "input-untouched", f"{what}: the call modified its input")
        hold(y, what)
        return y

    def backward(y, xs, g, what):
        keep, gk = snap(xs), g.clone()
        ps = [p for p in mod.parameters() if p.requires_grad]
        gs = torch.autograd.grad(y, list(xs) + ps, g, allow_unused=True)
        mon.check(same(xs, keep), "input-untouched", f"{what}: the backward pass modified the input")
        mon.check(same([g], [gk]), "upstream-untouched", f"{what}: the backward pass modified the upstream gradient")
        return [t.detach().clone() if t is not None else None for t in gs]

    lx = [t.clone().requires_grad_(True) for t in x]
    y = forward(lx, "first call")
    g = torch.randn_like(y)
    gr = backward(y, lx, g, "first backward")
    y1 = y.detach().clone()
    if y1.numel() == 0:
        return
    if not bool(torch.isfinite(torch.view_as_real(y1) if y1.is_complex() else y1).all()):
        mon.event("empty-neighbourhood")  # output undefined there
        return
    sc = ops.out_scale(mod, x, y1)
    # a history of other uses
    for h in case["hist"]:
        if h == "other":
            forward(tame(s, ops.inputs(s, dt)), h)
        elif h == "nograd":
            with torch.no_grad():
                forward(tame(s, ops.inputs(s, dt)), h)
        elif h == "inference":
            with torch.inference_mode():
                forward(tame(s, ops.inputs(s, dt)), h)
        elif h == "bigger":
            forward(tame(s, ops.inputs(s, dt, B=B + 2)), h)
        elif h == "backward":
            l2 = [t.requires_grad_(True) for t in tame(s, ops.inputs(s, dt))]
            y2 = forward(l2, h)
            backward(y2, l2, torch.randn_like(y2), h)
        elif h == "twice":
            l2 = [t.requires_grad_(True) for t in tame(s, ops.inputs(s, dt))]
            ya, yb = forward(l2, h), forward([t.detach().clone() for t in l2], h)
            backward(ya, l2, torch.randn_like(ya), h)
        elif h == "eval":
            mod.eval()
            forward(tame(s, ops.inputs(s, dt)), h)
            mod.train()
    check_state("after a history of calls")
    for t, k, what in held:
        mon.check(same([t], [k]), "results-untouched", f"the result of an earlier call ({what}) changed")
    l3 = [t.clone().requires_grad_(True) for t in x]
    y3 = forward(l3, "repetition")
    mon.check(same([y3.detach()], [y1]), "repeatable", f"the same call gives another result after {case['hist']}")
    gr3 = backward(y3, l3, g.clone(), "repetition")
    for a, b in zip(gr, gr3):
        if a is not None:
            mon.check(same([a], [b]), "repeatable-gradient", f"the same gradient differs after {case['hist']}")
    mon.check(same(x, x0), "input-untouched", "")
    # the execution context decides nothing about the values
    with torch.no_grad():
        yn = forward([t.clone() for t in x], "without gradients")
    mon.close(yn.detach(), y1, rel, 1e-30, "context", scale=sc)
    with torch.inference_mode():
        yn = mod(*[t.clone() for t in x]).clone()
    mon.close(yn, y1, rel, 1e-30, "context", scale=sc)
    mod.eval()
    mon.close(forward([t.clone() for t in x], "evaluation mode").detach(), y1, rel, 1e-30, "context", scale=sc)
    mod.train()
    top0 = max([float(t.abs().max()) for t in gr if t is not None] + [0.0])
    ask = [bool((case["u"] >> i) & 1) for i in range(len(x))]
    ps = [p for p in mod.parameters() if p.requires_grad]
    for p in ps:
        p.requires_grad_(False)
    try:
        if any(ask):
            lz = [t.clone().requires_grad_(a) for t, a in zip(x, ask)]
            yz = forward(lz, "frozen parameters")
            mon.close(yz.detach(), y1, rel, 1e-30, "context", scale=sc)
            gz = torch.autograd.grad(yz, [t for t, a in zip(lz, ask) if a], g.clone(), allow_unused=True)
            for a, b in zip(gz, [t for t, a in zip(gr, ask) if a]):
                if b is not None:
                    mon.check(a is not None, "context-gradient", "gradient missing with frozen parameters")
                    mon.close(a, b, rel * 8, 1e-30, "context-gradient", scale=max(1e-30, float(b.abs().max()), (1e-2 if s.get("norm") is True else 1e-4) * top0))
    finally:
        for p in ps:
            p.requires_grad_(True)
    # poisoned neighbours
    tails, cplx, flex = ops.shapes_io(s)
    gsc = [max(1e-30, float(t.abs().max())) if t is not None else 1.0 for t in gr]
    nx = len(x)
    if B > 1:
        b = case["u"] % B
        bad = [float("nan"), float("inf"), -1e30, 0.0][case["u"] // 7 % 4]
        xb = [torch.full_like(t, bad) for t in x]
        for t, o in zip(xb, x):
            t[b] = o[b]
            t.requires_grad_(True)
        yb = forward(xb, "poisoned batch")
        mon.close(yb[b].detach(), y1[b], rel, 1e-30, "batch-independent", scale=sc)
        if bad != bad:  # an undefined field gives an undefined result wherever the result depends on it
            with torch.no_grad():
                y0 = forward([t * 0 for t in x], "zero input").detach()
            flat = lambda t: torch.view_as_real(t).sum(-1) if t.is_complex() else t
            j = (b + 1) % B
            dep = (y1[j] - y0[j]).abs() > 1e-3 * sc
            hidden = int((dep & flat(yb[j].detach()).isfinite()).sum())
            mon.check(hidden == 0, "undefined-stays-undefined", f"{hidden} values of the result of an entry that holds only NaN are finite")
        gb = backward(yb, xb, g.clone(), "poisoned batch")
        for i in range(nx):
            if gr[i] is not None:
                mon.close(gb[i][b], gr[i][b], rel * 4, 1e-30, "batch-independent-gradient", scale=gsc[i])
        one = [t[b : b + 1].clone() for t in x]
        mon.close(forward(one, "single entry")[0].detach(), y1[b], rel, 1e-30, "batch-independent", scale=sc)
    if flex:
        nd = len(tails[0])
        x4 = tame(s, ops.inputs(s, dt, lead=[2, 3]))[0]
        yy = forward([x4], "leading (2,3)").detach()
        flat = forward([x4.reshape(6, *x4.shape[2:])], "leading (6)").detach()
        ysc = max(sc, float(flat.abs().max()))
        mon.check(tuple(yy.shape[:2]) == (2, 3) and yy[0].numel() * 2 == flat.numel(), "leading-shape", f"leading shape (2,3) gives {tuple(yy.shape)}, (6,) gives {tuple(flat.shape)}")
        mon.close(yy.reshape(flat.shape), flat, rel, 1e-30, "leading-shape", scale=ysc)
        un = forward([x4[1, 2].clone()], "no leading dimension").detach()
        mon.check(un.shape == yy[1, 2].shape, "leading-shape", f"without leading dimensions {tuple(un.shape)}, expected {tuple(yy[1, 2].shape)}")
        mon.close(un, yy[1, 2], rel, 1e-30, "leading-shape", scale=ysc)
    # memory layout of inputs and of the upstream gradient
    base = [t[:1].expand(t.shape).clone() for t in x] if case["lay"] == "expanded" else x
    ref = y1 if case["lay"] != "expanded" else mod(*base).detach()
    xl = [layout(t, case["lay"]).detach().requires_grad_(True) for t in base]
    yl = forward(xl, "layout " + case["lay"])
    mon.close(yl.detach(), ref, rel, 1e-30, "layout", scale=max(sc, float(ref.abs().max())))
    gg = g[:1].expand(g.shape).clone() if case["glay"] == "expanded" and g.dim() else g
    want = gr3 if (gg is g and case["lay"] != "expanded") else None
    if want is None:
        lr = [t.detach().clone().requires_grad_(True) for t in base]
        want = backward(mod(*lr), lr, gg.clone(), "reference")
    got = backward(yl, xl, layout(gg, case["glay"]), "layout " + case["lay"] + "/" + case["glay"])
    top = max([float(b.abs().max()) for b in want if b is not None] + [0.0])
    for i, (a, b) in enumerate(zip(got, want)):
        if b is not None:
            mon.close(a, b, rel * 8, 1e-30, "layout-gradient", scale=max(1e-30, float(b.abs().max()), (1e-2 if s.get("norm") is True else 1e-4) * top))
    check_state("at the end")
    for t, k, what in held:
        mon.check(same([t], [k]), "results-untouched", f"the result of an earlier call ({what}) changed")
    s1 = settings()
    mon.check(s1[:4] == set0[:4] and s1[5] == set0[5], "settings-untouched", f"global settings changed from {set0[:4]} to {s1[:4]}")
    mon.event("op:" + s["op"])
    mon.state(s["op"], case["dt"], case["lay"], case["glay"], sorted(set(case["hist"])), s.get("impl"), s.get("grid"), s.get("mode"), B)
