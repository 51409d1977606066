"""Distributed neighborhood attention on an emulated process grid against the serial one."""
from vlib import simdist  # before torch_harmonics
import math
import torch
from vlib import attn, dist as vd, gen, ring
from checks import C14_neighborhood_attention as c14

PROPERTY = "C25"
TECHNIQUE = "runtime monitoring: every rank of an emulated process grid runs the real distributed attention (index tables, halo exchange, ring, softmax state, gradient reduction) under a seeded scheduler, with counting CPU stand-ins for the CUDA-only step kernels; outputs and gradients are compared with the serial module's and every (output, input) pair is counted once"
NOTE = "process grids up to 12 ranks, down-, same- and upsampling, all grids, cutoffs up to the whole sphere, heads, qk-norm, self-attention defaults, uneven latitude and longitude splits, partial gradient requests. The step kernels exist for CUDA only and are replaced by CPU code written from their interface description, so the CUDA kernels themselves are not judged."
RULE = "distinct (direction, process grid, evenness of splits, halo rows, heads, norm, gradient request) situations and distinct interleavings compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents", "the CUDA step kernels do what their interface documents", "every neighbourhood contains an input point", "parameter gradients are summed over all ranks by the caller"]
ROUNDS = 3
REQUIRED_EVENTS = ["rank-output", "rank-input-gradient", "summed-parameter-gradient", "pairs-forward", "rejected-split", "comm:send", "partial-gradients", "half-precision", "timing-independent-output", "halo", "self-attention", "default-cutoff"]
JOBS = 8


def worker_init(*a):
    ring.install()


def draw(rng):
    while True:
        c = c14.case_of(rng, 0)
        c["impl"] = "opt"
        g = vd.grid(rng, maxp=4, single=rng.random() < 0.05)
        if rng.random() < 0.8:  # favour longitudes the azimuth group can share uniformly
            A = g["A"]
            f = max(c["in"][1], c["out"][1]) // min(c["in"][1], c["out"][1])
            m = A * gen.ri(rng, 1, 4) if f > 1 else gen.ri(rng, A, 12)
            c["in"][1], c["out"][1] = (m * f, m) if c["in"][1] > c["out"][1] else (m, m * f)
        if rng.random() < 0.7:  # enough latitudes per rank for a halo
            d = c["out"][0] - c["in"][0]
            n = g["P"] * gen.ri(rng, 2, 4) + gen.ri(rng, 0, 2)
            c["in"][0], c["out"][0] = n, max(2, g["P"], n + max(-2, min(d, n)))
            c["cut"] = gen.choice(rng, [None, round(math.pi / (n - 1) * float(rng.uniform(0.9, 2.2)), 4)])
        if min(c["in"][0], c["out"][0]) < max(2, g["P"]) or min(c["in"][1], c["out"][1]) < g["A"]:
            continue
        if c["in"][0] * c["in"][1] * c["out"][0] * c["out"][1] > 60000:
            continue
        break
    if g.get("data") == "big":
        g["data"] = None  # nearly equal keys: gradients that cancel to rounding
    c["self"] = c["in"] == c["out"] and rng.random() < 0.6
    return {"c": c, "g": g, "lay": gen.choice(rng, [None, None, "strided"]), "req": gen.choice(rng, ["all", "all", "all", "q", "k", "v", "kv", "params"]), "half": gen.choice(rng, [None] * 6 + ["bfloat16", "float16"]), "u": int(rng.integers(10**6))}


def cases(rng, tier):
    for i in range(420 if tier == "quick" else 5000):
        yield draw(rng)


def setup(case):
    import torch_harmonics.distributed as thd

    c = case["c"]
    ser = c14.build(c)
    with torch.no_grad():
        for n, p in ser.named_parameters():
            p.normal_()
            p.mul_(0.7)

    def make():
        sc = torch.tensor(0.37) if c["scale"] == "tensor" else torch.nn.Parameter(torch.tensor(0.375)) if c["scale"] == "param" else c["scale"]
        return thd.DistributedNeighborhoodAttentionS2(
            c["ic"], tuple(c["in"]), tuple(c["out"]), grid_in=c["gi"], grid_out=c["go"], num_heads=c["H"], scale=sc, use_qknorm=c["norm"],
            bias=c["bias"], theta_cutoff=c["cut"], k_channels=c["kc"], out_channels=c["oc"])

    sd = {k: v.detach().clone() for k, v in ser.named_parameters()}

    def load(m, p, a):
        for k, v in m.named_parameters():
            v.copy_(sd[k])

    q, k, v = c14.inputs(c, plain=True)
    xs = [q] if c["self"] else [q, k, v]
    return ser, make, load, xs, [(-2, -1)] * len(xs), (-2, -1)


def half(case, mon, ser, make, load, xs, ind, outd, rt):
    """the same in a half precision: types kept, results within a few units of the last place of that type"""
    g = case["g"]
    dt = getattr(torch, case["half"])
    rt *= torch.finfo(dt).eps / torch.finfo(torch.float32).eps / 8
    if rt > 0.2:
        mon.event("ill-conditioned")
        return
    xs = [x.to(dt) for x in xs]
    ref = vd.serial(ser.to(dt).requires_grad_(True), xs)
    if not all(bool(t.isfinite().all()) for t in [ref.y] + ref.gx):
        mon.event("half-overflow")
        return
    w = vd.world(g, case["u"])
    res = vd.distributed(w, g, lambda: make().to(dt), load, xs, ind, outd, ref, mode=case["lay"])
    vd.observe(mon, w)
    vd.compare(mon, w, g, ref, res, ind, outd, rt, rtol_g=max(4 * rt, 0.1), what="-half", oscale=max(1.0, float(ref.y.abs().max())))
    for r in res:
        for t, want in zip(r.gx, ref.gx):
            mon.check(t.dtype == want.dtype, "half-gradient-dtype", f"input gradient of type {t.dtype}, the serial module's is {want.dtype}")
        for n, want in ref.gp.items():
            if want is None and r.gp[n] is None:
                continue
            mon.check(r.gp[n].dtype == want.dtype, "half-gradient-dtype", f"gradient of {n} of type {r.gp[n].dtype}, the serial module's is {want.dtype}")
    mon.event("half-precision")
    mon.state("half", case["half"], g["P"], g["A"])


def run(case, mon):
    c, g = case["c"], case["g"]
    try:
        msk, qw, sc = c14.geometry(c)
    except attn.Ambiguous:
        mon.event("ambiguous")
        return
    if not bool(msk.any(1).all()):
        mon.event("empty_neighbourhood")
        return
    P, A = g["P"], g["A"]
    # what the documented restrictions say about this split
    li, lo = simdist.split_sizes(c["in"][1], A), simdist.split_sizes(c["out"][1], A)
    uniform = all(a * c["out"][1] == b * c["in"][1] for a, b in zip(li, lo))
    hi, ho = simdist.split_sizes(c["in"][0], P), simdist.split_sizes(c["out"][0], P)
    rows = msk.reshape(c["out"][0], c["out"][1], c["in"][0], c["in"][1]).any(3).any(1)  # (ho, hi)
    halo = 0
    for r in range(P):
        need = rows[sum(ho[:r]) : sum(ho[: r + 1])].any(0).nonzero().flatten()
        halo = max(halo, sum(hi[:r]) - int(need.min()), int(need.max()) - (sum(hi[: r + 1]) - 1))
    halo = max(0, halo) if P > 1 else 0
    ser, make, load, xs, ind, outd = setup(case)
    xs = vd.data(xs, ind, case["g"])
    bad = not uniform or halo > min(hi)
    if bad:
        w = vd.world(g, case["u"])

        def body(p, a, wd):
            try:
                make()
            except ValueError as e:
                return True
            return False

        res = w.run(body)
        mon.check(all(res), "rejected-split", f"uniform longitude scale {uniform}, halo {halo} rows, shards {hi}: the constructor accepted it on ranks {[i for i, r in enumerate(res) if not r]}")
        return
    only = None if case["req"] == "all" else "params" if case["req"] == "params" else [0] if c["self"] else ["qkv".index(x) for x in case["req"]]
    full = vd.serial(ser, xs)  # with every gradient: their size is the level rounding errors are relative to
    gmax = max(float(t.abs().max()) for t in list(full.gx) + list(full.gp.values()) if t is not None)
    ref = vd.serial(ser, xs, only=only, out_grad=full.g)
    info = {"sc": abs(sc)}
    Pm = attn.params(ser)
    full = [x.double() for x in (xs if len(xs) == 3 else xs * 3)]
    attn.forward(Pm, *full, c["H"], sc, qw, msk, info=info)
    rt, _ = c14.ftol(info, Pm, int(msk.sum(1).max()))
    rt *= 0.5
    if rt > 0.0025:
        mon.event("ill-conditioned")
        return
    if case.get("half") and not c["norm"]:
        return half(case, mon, ser, make, load, xs, ind, outd, rt)
    prev = None
    for k, pol in enumerate(["random", "stick"]):
        w = vd.world(g, case["u"] + k, pol)
        before = dict(ring.PAIRS)
        res = vd.distributed(w, g, make, load, xs, ind, outd, ref, mode=case["lay"], only=only)
        vd.observe(mon, w)
        if prev is None:
            n = int(msk.sum()) * (2 if g.get("warm") else 1)
            done = ring.PAIRS["forward"] - before["forward"]
            for ph in ("pass1", "pass2"):
                mon.event("pairs-" + ph, ring.PAIRS[ph] - before[ph])
            mon.check(done == n, "pairs-forward", f"{done} (output, input) pairs were processed over all ranks, the neighbourhoods contain {n}")
            vd.compare(mon, w, g, ref, res, ind, outd, rt, oscale=max(1.0, float(ref.y.abs().max()), float(Pm["proj_weights"].abs().sum((1, 2, 3)).max() * info["v"].abs().max())), rtol_g=160 * rt, gscale=max(gmax, 1e-2) if c["norm"] else 1e-3 * gmax)
            for nme, want in ref.gp.items():
                if want is None:
                    continue
                got = sum(r.gp[nme] for r in res)
                mon.close(got, want, 160 * rt, 1e-5, "summed-parameter-gradient", scale=max(1e-2, float(want.abs().max()), gmax * 0.05))
            prev = res
        else:
            vd.same(mon, w, prev, res)
    if only is not None:
        mon.event("partial-gradients")
    if halo:
        mon.event("halo")
    if c["cut"] is None and halo:
        mon.event("default-cutoff")
    if c["self"]:
        mon.event("self-attention")
    kind = (c["in"][1] > c["out"][1]) - (c["in"][1] < c["out"][1])
    mon.state(kind, P, A, [d % P == 0 for d in (c["in"][0], c["out"][0])], c["in"][1] % A == 0, halo, c["H"], c["norm"])
