"""Distributed DISCO convolutions on an emulated process grid against the serial ones."""
from vlib import simdist  # before torch_harmonics
import torch
from vlib import dist as vd, gen, ops

PROPERTY = "C24"
TECHNIQUE = "runtime monitoring: every rank of an emulated process grid runs the real distributed convolutions under a seeded scheduler; outputs, input gradients and summed parameter gradients are compared with the serial module's, and an online checker watches the communication calls"
NOTE = "process grids up to 12 ranks, forward (unfused, and the fused ordering with the CUDA availability test answered yes so that its CPU kernels run) and transposed, optimized and reference kernels, all bases and normalisation modes, groups, uneven splits, ranks without any filter entry. The transport is emulated."
RULE = "distinct (direction, implementation, process grid, evenness of splits, groups cut by the channel split) situations and distinct interleavings in which outputs and gradients were compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents", "every shard is non-empty and the redistributed channel count is at least the azimuth group size, as the primitives require", "parameter gradients are summed over all ranks by the caller, as documented"]
ROUNDS = 3
REQUIRED_EVENTS = ["rank-output", "half-precision", "rank-input-gradient", "summed-parameter-gradient", "comm:all_to_all", "comm:reduce_scatter", "comm:all_gather", "timing-independent-output"]


def draw(rng):
    while True:
        s = ops.spec(rng, gen.choice(rng, ["disco", "disco", "discoT"]))
        g = vd.grid(rng, single=rng.random() < 0.05)
        A, P = g["A"], g["P"]
        if rng.random() < 0.5:
            s["G"] = gen.choice(rng, [1, 2, 3])
            s["ci"], s["co"] = s["G"] * gen.ri(rng, 1, 4), s["G"] * gen.ri(rng, 1, 3)
        if rng.random() < 0.1:
            s["cut"] = round(float(rng.uniform(0.02, 0.2)), 3)  # few entries, maybe none on some rank
        if rng.random() < 0.06:
            s["G"] = gen.choice(rng, [1, 2, 4])
            s["ci"], s["co"] = s["G"] * gen.ri(rng, 4, 9), s["G"] * gen.ri(rng, 3, 8)
        if rng.random() < 0.06:
            f = gen.choice(rng, [1, 2, 3])
            m = gen.ri(rng, 10, 24)
            s["fine"], s["coarse"] = [gen.ri(rng, 16, 36), m * f], [gen.ri(rng, 12, 24), m]
            s["cut"] = gen.choice(rng, [None, round(float(rng.uniform(0.1, 0.4)), 3)])
        ch = s["ci"] if s["op"] == "disco" else s["co"]
        if min(s["fine"][0], s["coarse"][0]) >= P and min(s["fine"][1], s["coarse"][1]) >= A and ch >= A:
            break
    if s["op"] == "discoT" and s["impl"] == "fused":
        s["impl"] = "opt"
    return {"s": s, "g": g, "dt": gen.choice(rng, ["float64"] * 14 + ["float32"] * 4 + ["bfloat16", "float16"]), "lay": gen.choice(rng, [None, None, "strided"]), "req": gen.choice(rng, ["all"] * 5 + ["x", "params", "none"]), "u": int(rng.integers(10**6))}


def cases(rng, tier):
    for i in range(420 if tier == "quick" else 5000):
        yield draw(rng)


def setup(case):
    import torch_harmonics.distributed as thd

    s = case["s"]
    dt = getattr(torch, case["dt"])
    ser = ops.make(s).to(dt)
    sh = tuple(s["shape"]) if isinstance(s["shape"], list) else s["shape"]
    kw = dict(kernel_shape=sh, basis_type=s["fam"], basis_norm_mode=s["mode"], groups=s["G"], bias=s["bias"], theta_cutoff=s["cut"], optimized_kernel=s["impl"] != "torch")

    def make():
        if s["op"] == "discoT":
            m = thd.DistributedDiscreteContinuousConvTransposeS2(s["ci"], s["co"], tuple(s["coarse"]), tuple(s["fine"]), grid_in=s["gc"], grid_out=s["gf"], **kw)
        else:
            real = torch.cuda.is_available
            if s["impl"] == "fused":
                torch.cuda.is_available = lambda: True
            try:
                m = thd.DistributedDiscreteContinuousConvS2(s["ci"], s["co"], tuple(s["fine"]), tuple(s["coarse"]), grid_in=s["gf"], grid_out=s["gc"], fused=s["impl"] == "fused", **kw)
            finally:
                torch.cuda.is_available = real
        return m.to(dt)

    sd = {k: v.detach().clone() for k, v in ser.named_parameters()}

    def load(m, p, a):
        for k, v in m.named_parameters():
            v.copy_(sd[k])

    x = torch.randn(s["B"], s["ci"], *(s["fine"] if s["op"] == "disco" else s["coarse"]), dtype=dt)
    return ser, make, load, [x], [(-2, -1)], (-2, -1), {torch.float64: 1e-10, torch.float32: 1e-4}.get(dt, 24 * torch.finfo(dt).eps)


def run(case, mon):
    ser, make, load, xs, ind, outd, rtol = setup(case)
    xs = vd.data(xs, ind, case["g"])
    g, s = case["g"], case["s"]
    grads = case["req"] != "none"
    only = {"x": [0], "params": "params"}.get(case["req"])
    ref = vd.serial(ser, xs, grads=grads, only=only)
    if case["dt"] in ("bfloat16", "float16"):
        if not all(bool(t.isfinite().all()) for t in [ref.y] + (([t for t in ref.gx if t is not None] + [t for t in ref.gp.values() if t is not None]) if grads else [])):
            mon.event("half-overflow")
            return
        mon.event("half-precision")
    prev = None
    for k, pol in enumerate(["random", "stick"]):
        w = vd.world(g, case["u"] + k, pol)
        res = vd.distributed(w, g, make, load, xs, ind, outd, ref, mode=case["lay"], grads=grads, only=only)
        vd.observe(mon, w)
        if prev is None:
            vd.compare(mon, w, g, ref, res, ind, outd, rtol, grads=grads)
            for n, want in ref.gp.items() if grads else ():
                if want is None:
                    continue
                got = sum(r.gp[n].double() for r in res).to(want.dtype)
                mon.check(all(r.gp[n].dtype == want.dtype for r in res), "parameter-gradient-dtype", f"gradients of {n} of types {[str(r.gp[n].dtype) for r in res]}, the serial one is {want.dtype}")
                mon.close(got, want, rtol, 1e-30, "summed-parameter-gradient", scale=max(1e-30, float(want.abs().max())) * (1 if case["dt"] == "float64" else 10 if case["dt"] == "float32" else 2))
            prev = res
        else:
            vd.same(mon, w, prev, res)
    i, o = (s["fine"], s["coarse"]) if s["op"] == "disco" else (s["coarse"], s["fine"])
    mon.state(s["op"], s["impl"], g["P"], g["A"], [d % g["P"] == 0 for d in (i[0], o[0])], [d % g["A"] == 0 for d in (i[1], o[1])], s["G"], s["ci"] % (g["A"] * s["G"]) == 0, case["req"])
