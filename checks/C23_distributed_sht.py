"""Distributed transforms on an emulated process grid against the serial transforms."""
from vlib import simdist  # before torch_harmonics
import torch
from vlib import dist as vd, gen

PROPERTY = "C23"
TECHNIQUE = "runtime monitoring: every rank of an emulated process grid runs the real distributed transforms under a seeded scheduler; each rank's output and gradient is compared with the shard of the serial module's, and an online checker watches the communication calls"
NOTE = "process grids up to 5x5 (12 ranks), all transforms, grids, norms, truncations, leading shapes; double precision (single for a sample), random interleavings. The transport is emulated; NCCL itself is not run."
RULE = "distinct (transform, process grid, evenness of the splits, grid, padded or not) situations and distinct interleavings in which every rank's output and gradient were compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents", "lmax >= polar ranks and mmax >= azimuth ranks (no empty shards), at least one leading dimension"]
ROUNDS = 2
REQUIRED_EVENTS = ["rank-output", "rank-input-gradient", "comm:all_to_all", "timing-independent-output"]

CLS = {"sht": "RealSHT", "isht": "InverseRealSHT", "vsht": "RealVectorSHT", "ivsht": "InverseRealVectorSHT"}


def draw(rng, kind=None):
    g = vd.grid(rng, single=rng.random() < 0.1)
    kind = kind or gen.choice(rng, list(CLS))
    while True:
        nlat, nlon = gen.ri(rng, max(3, g["P"]), 14), gen.ri(rng, max(3, g["A"]), 22)
        if rng.random() < 0.06:
            nlat, nlon = gen.ri(rng, 16, 70), gen.ri(rng, 16, 140)
        if rng.random() < 0.4:
            nlon = 2 * nlat
        gr = gen.choice(rng, gen.SHT_GRIDS)
        L = gen.choice(rng, [None, None, gen.ri(rng, max(1, g["P"]), nlat)])
        M = gen.choice(rng, [None, None, gen.ri(rng, max(1, g["A"]), nlon // 2 + 1)]) if nlon // 2 + 1 > g["A"] else None
        l, m = gen.trunc(nlat, nlon, L, M, gr)
        if l >= max(g["P"], 2) and m >= g["A"]:
            break
    lead = gen.choice(rng, [[1], [2], [3], [5], [1, 1], [2, 3], [1, 2, 2], [7], [4], [9], [13], [2, 8], [33]])
    return {"k": kind, "g": g, "nlat": nlat, "nlon": nlon, "grid": gr, "lmax": L, "mmax": M, "norm": gen.choice(rng, gen.NORMS), "cs": bool(rng.integers(2)), "lead": lead, "f32": rng.random() < 0.1, "lay": gen.choice(rng, [None, None, "strided"]),
            "u": int(rng.integers(10**6))}


def cases(rng, tier):
    for k in CLS:
        for i in range(130 if tier == "quick" else 1500):
            yield draw(rng, k)


def setup(case):
    import torch_harmonics as th
    import torch_harmonics.distributed as thd

    kw = dict(lmax=case["lmax"], mmax=case["mmax"], grid=case["grid"], norm=case["norm"], csphase=case["cs"])
    ser = getattr(th, CLS[case["k"]])(case["nlat"], case["nlon"], **kw)
    make = lambda: getattr(thd, "Distributed" + CLS[case["k"]])(case["nlat"], case["nlon"], **kw)
    L, M = gen.trunc(case["nlat"], case["nlon"], case["lmax"], case["mmax"], case["grid"])
    tail = ([2] if case["k"] in ("vsht", "ivsht") else []) + ([L, M] if case["k"] in ("isht", "ivsht") else [case["nlat"], case["nlon"]])
    rt = torch.float32 if case["f32"] else torch.float64
    dt = rt if case["k"] in ("sht", "vsht") else (torch.complex64 if case["f32"] else torch.complex128)
    x = torch.randn(*case["lead"], *tail, dtype=dt)
    return ser, make, [x], [(-2, -1)], (-2, -1), (3e-5 if case["f32"] else 1e-11)


def run(case, mon):
    ser, make, xs, ind, outd, rtol = setup(case)
    xs = vd.data(xs, ind, case["g"])
    g = case["g"]
    ref = vd.serial(ser, xs)
    prev = None
    for k, pol in enumerate(["random", "stick"]):
        w = vd.world(g, case["u"] + k, pol)
        res = vd.distributed(w, g, make, None, xs, ind, outd, ref, mode=case["lay"])
        vd.observe(mon, w)
        if prev is None:
            vd.compare(mon, w, g, ref, res, ind, outd, rtol)
            prev = res
        else:
            vd.same(mon, w, prev, res)
    n = 1
    for d in case["lead"]:
        n *= d
    mon.state(case["k"], g["P"], g["A"], case["nlat"] % g["P"] == 0, case["nlon"] % g["A"] == 0, case["grid"], n < max(g["P"], g["A"]))
