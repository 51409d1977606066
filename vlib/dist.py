"""Running a distributed module on an emulated process grid and comparing every rank with the serial module."""
import torch
from . import gen
from .simdist import World, shard, split_sizes, Violation

GRIDS_PA = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 4), (4, 2), (5, 1), (1, 5), (4, 3)]


def grid(rng, maxp=5, maxa=5, single=False):
    while True:
        P, A = gen.choice(rng, GRIDS_PA)
        if P <= maxp and A <= maxa and (single or P * A > 1):
            break
    g = {"P": P, "A": A, "layout": gen.choice(rng, ["row", "row", "col"]), "off": gen.choice(rng, [0, 0, 3]), "stride": gen.choice(rng, [1, 1, 2, 0]), "np": bool(rng.integers(2)), "na": bool(rng.integers(2)), "debug": rng.random() < 0.15,
         "warm": gen.choice(rng, [None, None, None, "scaled", "batch", "nograd", "dtype"]), "data": gen.choice(rng, [None, None, None, None, None, "zero-shard", "zero-rows", "big"])}
    return g


def data(xs, in_dims, g):
    """the inputs of the run: as drawn, or special (a rank that holds nothing but zeros, zero rows, large and small magnitudes side by side)"""
    mode = g.get("data")
    xs = [x.clone() for x in xs]
    for x, d in zip(xs, in_dims):
        if mode == "zero-shard" and g["P"] * g["A"] > 1:
            k = x.numel() % (g["P"] * g["A"])
            cut(x, d, g, k // g["A"], k % g["A"]).zero_()
        elif mode == "zero-rows" and g["P"] > 1:
            cut(x, (d[0], None), g, g["P"] - 1, 0).zero_()
        elif mode == "big" and x.dtype in (torch.float64, torch.complex128, torch.float32, torch.complex64):
            x.mul_(torch.randint(0, 2, x.shape[:-2] + (1, 1)).to(x.dtype) * 0.99 + 0.01)
    return xs


def world(g, seed, policy="random"):
    return World(g["P"], g["A"], seed=seed, layout=g["layout"], offset=g["off"], stride=g["stride"], none_p=g["np"], none_a=g["na"], policy=policy)


def cut(x, dims, g, p, a):
    """the shard of x that rank (p, a) owns; dims = (dimension split over polar ranks or None, over azimuth ranks or None)"""
    if dims is None:
        return x
    if dims[0] is not None:
        x = shard(x, dims[0], g["P"], p)
    if dims[1] is not None:
        x = shard(x, dims[1], g["A"], a)
    return x


class Result:
    pass


def _grads(y, xs, ps, g):
    wrt = [t for t in xs + list(ps.values()) if t.requires_grad]
    got = iter(torch.autograd.grad(y, wrt, g.clone(), allow_unused=True))
    gx = [next(got) if t.requires_grad else None for t in xs]
    return gx, {k: next(got) if t.requires_grad else None for k, t in ps.items()}


def needs(only, i):
    return only is None or (only != "params" and i in only)


def serial(module, xs, grads=True, out_grad=None, only=None):
    """only: indices of the inputs that need gradients (then no parameter does), or "params" when no input does"""
    xs = [x.detach().clone().requires_grad_(grads and needs(only, i)) for i, x in enumerate(xs)]
    if only is not None and only != "params":
        module.requires_grad_(False)
    y = module(*xs)
    r = Result()
    r.y = y.detach().clone()
    if grads:
        g = torch.randn_like(y) if out_grad is None else out_grad
        r.g = g
        ps = dict(module.named_parameters())
        r.gx, r.gp = _grads(y, xs, ps, g)
    return r


def warm(m, loc, mode):
    """an earlier call of the same module with other data (other values, batch size, precision, gradient mode); the compared call comes after it"""
    if mode is None:
        return
    ts = [t.detach().clone() for t in loc]
    if mode == "batch" and all(t.dim() >= 4 for t in ts):
        ts = [torch.cat([t, -t, t], 0) for t in ts]
    elif mode == "dtype" and not list(m.parameters()):
        other = {torch.float64: torch.float32, torch.float32: torch.float64, torch.complex128: torch.complex64, torch.complex64: torch.complex128}
        ts = [t.to(other.get(t.dtype, t.dtype)) for t in ts]
    else:
        ts = [1 - 2 * t for t in ts]
    if mode == "nograd":
        with torch.no_grad():
            m(*ts)
        return
    for t in ts:
        t.requires_grad_(True)
    m(*ts).abs().sum().backward()
    for q in m.parameters():
        q.grad = None


def distributed(w, g, make, load, xs, in_dims, out_dims, ref, grads=True, mode=None, only=None):
    """on every rank: build, load the parameters, run forward and backward on the rank's shards"""
    import torch_harmonics.distributed as thd

    thd.config.debug = g["debug"]

    def body(p, a, wd):
        m = make()
        if load is not None:
            with torch.no_grad():
                load(m, p, a)
        loc = [cut(x, d, g, p, a).detach().clone() for x, d in zip(xs, in_dims)]
        if mode == "strided":
            loc = [torch.cat([t, t], -1)[..., : t.shape[-1]] if t.dim() else t for t in loc]
        keep = [t.clone() for t in loc]
        warm(m, loc, g.get("warm"))
        for i, t in enumerate(loc):
            t.requires_grad_(grads and needs(only, i))
        if only is not None and only != "params":
            m.requires_grad_(False)
        y = m(*loc)
        r = Result()
        r.y = y.detach().clone()
        r.module = m
        if grads:
            go = cut(ref.g, out_dims, g, p, a)
            if tuple(go.shape) != tuple(y.shape):
                raise Violation(f"rank ({p},{a}): output shape {tuple(y.shape)}, the documented shard is {tuple(go.shape)}", "shard-shape")
            ps = dict(m.named_parameters())
            r.gx, r.gp = _grads(y, loc, ps, go)
        for t, k in zip(loc, keep):
            if not torch.equal(t.detach(), k):
                raise Violation("a rank's input was modified", "input-modified")
        return r

    try:
        return w.run(body)
    finally:
        thd.config.debug = False


def compare(mon, w, g, ref, res, in_dims, out_dims, rtol, grads=True, rtol_g=None, what="", oscale=None, gscale=0.0):
    rtol_g = rtol_g or rtol
    for (p, a), r in zip(w.grid, res):
        mon.close(r.y, cut(ref.y, out_dims, g, p, a), rtol, 1e-30, "rank-output" + what, scale=oscale or max(1e-30, float(ref.y.abs().max())))
        mon.check(r.y.dtype == ref.y.dtype, "rank-output-dtype", f"rank ({p},{a}) returns {r.y.dtype}, the serial module {ref.y.dtype}")
        if grads:
            for i, (gx, want) in enumerate(zip(r.gx, ref.gx)):
                if want is None:
                    continue
                mon.check(gx is not None, "rank-input-gradient-exists", f"input {i} of rank ({p},{a}) gets no gradient")
                mon.close(gx, cut(want, in_dims[i], g, p, a), rtol_g, 1e-30, "rank-input-gradient" + what, scale=max(1e-30, gscale, float(want.abs().max())))


def same(mon, w, a, b):
    """two timings of the same program: bitwise identical on every rank"""
    for x, y in zip(a, b):
        mon.equal(x.y, y.y, "timing-independent-output")
        if hasattr(x, "gx"):
            for s, t in zip(x.gx, y.gx):
                if s is not None:
                    mon.equal(s, t, "timing-independent-gradient")
            for k in x.gp:
                if x.gp[k] is not None:
                    mon.equal(x.gp[k], y.gp[k], "timing-independent-gradient")


def observe(mon, w):
    """what the emulator saw"""
    for k, n in w.counts.items():
        mon.event("comm:" + k, n)
    mon.event("baton-switches", w.switches)
    mon.state("interleaving", w.trace.hexdigest()[:12])
