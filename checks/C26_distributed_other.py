"""Distributed resampling, integration and spectral convolution against the serial modules."""
from vlib import simdist  # before torch_harmonics
import torch
from vlib import dist as vd, gen, ops

PROPERTY = "C26"
TECHNIQUE = "runtime monitoring: every rank of an emulated process grid runs the real distributed modules under a seeded scheduler; outputs, input gradients and (summed or sharded) parameter gradients are compared with the serial module's, and an online checker watches the communication calls"
NOTE = "process grids up to 12 ranks; resampling in both modes between all grids with and without pole expansion, integration on all grids, spectral convolution with groups and bias; uneven splits, several input types. The transport is emulated."
RULE = "distinct (module, process grid, grids, mode, evenness of splits) situations and distinct interleavings in which outputs and gradients were compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents", "every shard is non-empty (channels, latitudes, longitudes, degrees and orders at least the group sizes), as the primitives require",
               "spectral weights are sharded by degree over polar ranks and their gradients summed over azimuth ranks by the caller; spectral biases are sharded by degree and order, as documented",
               "spherical resampling is compared on inputs whose neighbouring values differ by much less than pi, where the interpolation is not singular"]
ROUNDS = 2
REQUIRED_EVENTS = ["rank-output", "rank-input-gradient", "weight-gradient", "bias-gradient", "comm:all_to_all", "comm:all_reduce", "timing-independent-output", "resample", "quad", "specconv"]


def draw(rng, kind):
    while True:
        s = ops.spec(rng, kind)
        g = vd.grid(rng, single=rng.random() < 0.05)
        P, A = g["P"], g["A"]
        c = {"s": s, "g": g, "dt": gen.choice(rng, ["float64", "float64", "float64", "float32", "float32", "bfloat16", "float16"]), "lay": gen.choice(rng, [None, None, "strided"]), "req": gen.choice(rng, ["all"] * 5 + ["x", "params", "none"]), "u": int(rng.integers(10**6))}
        if s.get("mode") == "bilinear-spherical" and "16" in c["dt"]:
            c["dt"] = "float32"  # the great-circle weights are ill-conditioned in half precision
        if kind == "quad":
            s["nlat"], s["nlon"] = (gen.ri(rng, 3, 14), gen.ri(rng, 2, 20)) if rng.random() < 0.9 else (gen.ri(rng, 20, 90), gen.ri(rng, 20, 150))
            c["lead"] = gen.choice(rng, [[], [1], [2], [3, 2]])
            if s["nlat"] >= P and s["nlon"] >= A:
                return c
        elif kind == "resample":
            if rng.random() < 0.1:
                s["go"], s["out"] = s["gi"], list(s["inp"])
            elif rng.random() < 0.08:
                s["inp"], s["out"] = [gen.ri(rng, 16, 70), gen.ri(rng, 16, 90)], [gen.ri(rng, 16, 70), gen.ri(rng, 16, 90)]
            c["ch"] = gen.ri(rng, max(P, A), max(P, A) + 4)
            c["lead"] = gen.choice(rng, [[s["B"]], [s["B"]], [], [2, s["B"]]])
            if min(s["inp"][0], s["out"][0]) >= P and min(s["inp"][1], s["out"][1]) >= A:
                return c
        else:
            if rng.random() < 0.05:
                s["inp"], s["out"] = [gen.ri(rng, 16, 40), gen.ri(rng, 16, 80)], [gen.ri(rng, 16, 40), gen.ri(rng, 16, 80)]
            L1, M1 = gen.trunc(*s["inp"], None, None, s["gi"])
            L2, M2 = gen.trunc(*s["out"], None, None, s["go"])
            L = min(L1, L2, M1, M2)
            if rng.random() < 0.5:
                s["G"] = gen.choice(rng, [1, 2, 3])
                s["ci"], s["co"] = s["G"] * gen.ri(rng, 1, 3), s["G"] * gen.ri(rng, 1, 3)
            if L >= max(P, A) and min(s["inp"][0], s["out"][0]) >= P and min(s["inp"][1], s["out"][1]) >= A:
                c["L"] = L
                return c


def cases(rng, tier):
    for k in ("resample", "quad", "specconv"):
        for i in range({"resample": 200, "quad": 120, "specconv": 150}[k] * (1 if tier == "quick" else 12)):
            yield draw(rng, k)


def setup(case):
    import torch_harmonics.distributed as thd

    s, g = case["s"], case["g"]
    k = s["op"]
    dt = getattr(torch, case["dt"])
    ser = ops.make(s)
    load = None
    if k == "quad":
        make = lambda: thd.DistributedQuadratureS2((s["nlat"], s["nlon"]), grid=s["grid"], normalize=s["normalize"])
        x = torch.randn(*case["lead"], s["nlat"], s["nlon"], dtype=dt)
        out = (None, None)
    elif k == "resample":
        make = lambda: thd.DistributedResampleS2(*s["inp"], *s["out"], grid_in=s["gi"], grid_out=s["go"], mode=s["mode"])
        x = torch.randn(*case["lead"], case["ch"], *s["inp"], dtype=dt)
        if s["mode"] != "bilinear":
            x = 0.7 * torch.tanh(x)
        out = (-2, -1)
    else:
        make = lambda: thd.DistributedSpectralConvS2(tuple(s["inp"]), tuple(s["out"]), s["ci"], s["co"], num_groups=s["G"], grid_in=s["gi"], grid_out=s["go"], bias=s["bias"])
        x = torch.randn(s["B"], s["ci"], *s["inp"], dtype=dt)
        out = (-2, -1)
        sd = {n: p.detach().clone() for n, p in ser.named_parameters()}

        def load(m, p, a):
            for n, v in m.named_parameters():
                v.copy_(vd.cut(sd[n], (3, None) if n == "weight" else (2, 3), g, p, a))

    rtol = {"quad": 2e-6, "resample": 1e-4 if s.get("mode") != "bilinear" else 3e-6, "specconv": 1e-4}[k]
    if dt in (torch.bfloat16, torch.float16):
        rtol = 8 * torch.finfo(dt).eps
    if dt == torch.float64 and k != "specconv":
        rtol = 1e-10 if k == "resample" and s["mode"] != "bilinear" else 1e-12
    return ser, make, load, [x], [(-2, -1)], out, rtol


def run(case, mon):
    ser, make, load, xs, ind, outd, rtol = setup(case)
    xs = vd.data(xs, ind, case["g"])
    g, s = case["g"], case["s"]
    grads = case["req"] != "none" and (case["req"] != "params" or s["op"] == "specconv")
    only = {"x": [0], "params": "params"}.get(case["req"])
    ref = vd.serial(ser, xs, grads=grads, only=only)
    prev = None
    if s["op"] == "quad":  # rounding scale of a sum is the sum of magnitudes
        ref.y_scale = float(xs[0].abs().double().sum((-2, -1)).max()) * 0.5
    for k, pol in enumerate(["random", "stick"]):
        w = vd.world(g, case["u"] + k, pol)
        res = vd.distributed(w, g, make, load, xs, ind, outd, ref, mode=case["lay"], grads=grads, only=only)
        vd.observe(mon, w)
        if prev is None:
            vd.compare(mon, w, g, ref, res, ind, outd, rtol, oscale=getattr(ref, "y_scale", None), grads=grads)
            if s["op"] == "specconv" and grads and only != [0]:
                want = ref.gp["weight"]
                for p in range(g["P"]):
                    got = sum(r.gp["weight"] for (pp, a), r in zip(w.grid, res) if pp == p)
                    mon.close(got, vd.cut(want, (3, None), g, p, 0), 1e-4, 1e-30, "weight-gradient", scale=float(want.abs().max()) + 1e-30)
                if s["bias"]:
                    want = ref.gp["spectral_bias"]
                    for (p, a), r in zip(w.grid, res):
                        mon.close(r.gp["spectral_bias"], vd.cut(want, (2, 3), g, p, a), 1e-4, 1e-30, "bias-gradient", scale=float(want.abs().max()) + 1e-30)
            prev = res
        else:
            vd.same(mon, w, prev, res)
    mon.event(s["op"])
    n = s["inp"] if s["op"] != "quad" else [s["nlat"], s["nlon"]]
    mon.state(s["op"], g["P"], g["A"], s.get("gi", s.get("grid")), s.get("go"), s.get("mode"), n[0] % g["P"] == 0, n[1] % g["A"] == 0)
