"""Distributed primitives on an emulated process grid: every element tagged with its global position."""
from vlib import simdist  # before torch_harmonics
import numpy as np
import torch
import torch_harmonics.distributed as thd
from vlib import dist as vd, gen
from vlib.simdist import Violation, shard, split_sizes

PROPERTY = "C27"
TECHNIQUE = "runtime monitoring: every rank of an emulated process grid calls the real primitive on tensors whose elements encode their global index; a checker with the whole picture compares what each rank receives, forward and backward, element by element with what the index dictates"
NOTE = "process grids up to 12 ranks, tensors of 1 to 5 dimensions, positive and negative dimension arguments, uneven splits, float/double/half/bfloat16/complex/integer types, strided, expanded and transposed memory, debug checks on and off. Splits are the balanced ones the library uses, and for the forward passes that take per-rank sizes also arbitrary ones. The transport is emulated."
RULE = "distinct (primitive, process grid, dimension arguments, evenness, type, memory layout, debug) situations compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents (sums accumulate in the type they are given, in rank order)"]
PRIMS = ["transpose", "transpose", "copy", "reduce", "reduce", "scatter", "gather", "reduce_scatter", "reduce_scatter", "gather_copy", "halo", "halo", "split", "pad", "neighbors", "own"]
ROUNDS = 2
REQUIRED_EVENTS = ["forward-" + p for p in sorted(set(PRIMS)) if p not in ("split", "pad", "neighbors", "own")] + ["backward-" + p for p in sorted(set(PRIMS)) if p not in ("split", "pad", "neighbors", "own")] + ["split", "pad", "neighbors", "own-sizes", "input-untouched", "half-accumulation", "debug-detects"]
DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "c128": torch.complex128, "c64": torch.complex64, "i64": torch.int64, "i32": torch.int32}


def cases(rng, tier):
    for i in range(6000 if tier == "quick" else 80000):
        p = PRIMS[i % len(PRIMS)]
        g = vd.grid(rng, single=rng.random() < 0.06)
        g["debug"] = rng.random() < 0.35
        az = p in ("transpose", "copy", "reduce", "reduce_scatter", "own") and bool(rng.integers(2))
        n = gen.ri(rng, 1, 5)
        if p in ("transpose", "pad", "own"):
            n = max(2, n)
        if p == "halo":
            n = 4
        k = g["A"] if az else g["P"]
        shape = [gen.ri(rng, 1, 4) for _ in range(n)]
        d0 = gen.ri(rng, 0, n - 1)
        d1 = (d0 + gen.ri(rng, 1, n - 1)) % n if n > 1 else 0
        if p == "halo":
            d0 = 2
        for d in {d0, d1}:
            shape[d] = gen.ri(rng, k, 3 * k + 2)
        r = 0
        if p == "halo":
            r = gen.ri(rng, 0, shape[2] // k)
        yield {"p": p, "g": g, "az": az, "shape": shape, "d0": d0 - n if rng.random() < 0.5 and p != "halo" else d0, "d1": d1 - n if rng.random() < 0.5 else d1, "r": r,
               "dt": gen.choice(rng, ["f64", "f64", "f32", "f16", "bf16", "c128", "c64", "i64", "i32"]), "lay": gen.choice(rng, ["c", "c", "strided", "transposed", "expanded", "offset"]),
               "gl": gen.choice(rng, ["c", "strided", "expanded"]), "shp": gen.choice(rng, ["list", "list", "none"]), "u": int(rng.integers(10**6))}


def values(shape, dt, u, salt, small=False):
    """every element distinct where the type can hold that, otherwise pseudo-random"""
    n = int(np.prod(shape)) if len(shape) else 1
    r = np.random.default_rng([u, salt])
    if dt in (torch.int64, torch.int32):
        return torch.from_numpy(r.permutation(n) + 1000 * salt).to(dt).reshape(shape)
    if dt in (torch.float16, torch.bfloat16):
        return torch.from_numpy(r.integers(-16, 17, n).astype(np.float64)).to(dt).reshape(shape)
    if dt.is_complex:
        re = torch.from_numpy(r.permutation(n).astype(np.float64) + r.integers(0, 64, n) / 64)
        return torch.complex(re, torch.from_numpy(r.integers(-512, 512, n) / 8.0)).to(dt).reshape(shape)
    v = r.permutation(n).astype(np.float64) + r.integers(0, 64, n) / 64
    if dt == torch.float64:
        v = v + r.integers(0, 1 << 10, n) * 2.0**-38  # lost if anything passes through single precision
    return torch.from_numpy(v).to(dt).reshape(shape)


def relayout(t, how):
    if t.dim() == 0 or how == "c":
        return t.clone()
    if how == "strided":
        b = torch.stack([t, torch.zeros_like(t)], -1).flatten(-2)
        return b[..., ::2]
    if how == "transposed":
        return t.clone().transpose(0, -1).contiguous().transpose(0, -1)
    if how == "offset":
        b = torch.zeros(t.numel() + 3, dtype=t.dtype)
        b[3:] = t.flatten()
        return b[3:].view(t.shape)
    if how == "expanded":
        return t.clone()  # handled by the caller: values constant along the first dimension
    raise ValueError(how)


def run(case, mon):
    p, g, dt = case["p"], case["g"], DT[case["dt"]]
    P, A = g["P"], g["A"]
    if p == "split":
        return run_split(case, mon)
    if p == "pad":
        return run_pad(case, mon)
    if p == "own":
        return run_own(case, mon)
    w = vd.world(g, case["u"])
    shape, d0, d1, r = tuple(case["shape"]), case["d0"], case["d1"], case["r"]
    az = case["az"]
    k = A if az else P
    idx = lambda pp, aa: aa if az else pp
    fl = dt.is_floating_point or dt.is_complex
    half = dt in (torch.float16, torch.bfloat16)
    if p == "neighbors":
        def body(pp, aa, wd):
            out = []
            for grp in (thd.polar_group(), thd.azimuth_group()):
                out.append(None if grp is None else thd.get_group_neighbors(grp))
            return out, thd.polar_group_rank(), thd.azimuth_group_rank(), thd.polar_group_size(), thd.azimuth_group_size(), torch.distributed.get_rank()
        res = w.run(body)
        me = {pa: x[-1] for pa, x in zip(w.grid, res)}
        for (pp, aa), (nb, pr, ar, ps, as_, _) in zip(w.grid, res):
            mon.check((pr, ar, ps, as_) == (pp, aa, P, A), "neighbors", f"rank ({pp},{aa}) of {P}x{A} is told {pr},{ar} of {ps}x{as_}")
            for grp, got in zip(("p", "a"), nb):
                if got is None:
                    continue
                if grp == "p":
                    want = (me[((pp - 1) % P, aa)], me[((pp + 1) % P, aa)])
                else:
                    want = (me[(pp, (aa - 1) % A)], me[(pp, (aa + 1) % A)])
                mon.check(tuple(got) == want, "neighbors", f"neighbours {got}, expected {want}")
        mon.state("neighbors", P, A, g["layout"], g["off"], g["stride"])
        return
    # a global tensor per "other" coordinate: ranks that share the communicating group hold parts of the same one
    other = lambda pp, aa: pp if az else aa
    G = {o: values(shape, dt, case["u"], o) for o in range(P if az else A)}
    # partial contributions for reductions: one per rank
    R = {pa: values(shape, dt, case["u"], 7 + i) for i, pa in enumerate(w.grid)}
    if half and p in ("reduce", "reduce_scatter") and case["u"] % 2:
        # one large and several small contributions: half precision accumulation would lose the small ones
        big, n = (2048.0, 1.0) if dt == torch.float16 else (256.0, 1.0)
        for pa in R:
            R[pa] = torch.full(shape, big if idx(*pa) == 0 else n, dtype=dt)
        if k > 2:
            mon.event("half-accumulation")
    members = lambda pa: [q for q in w.grid if other(*q) == other(*pa)]  # in group order
    sizes = lambda d: split_sizes(shape[d], k)
    if case["lay"] == "expanded":
        G = {o: t[:1].expand(shape).clone() for o, t in G.items()}
        R = {o: t[:1].expand(shape).clone() for o, t in R.items()}

    def start(pa):
        if p in ("copy",):
            x = G[other(*pa)]
        elif p in ("reduce", "reduce_scatter"):
            x = R[pa]
        elif p == "scatter":
            x = G[other(*pa)]
        elif p == "transpose":
            x = shard(G[other(*pa)], d1, k, idx(*pa))
        else:  # gather, gather_copy, halo
            x = shard(G[other(*pa)], d0, k, idx(*pa))
        x = relayout(x, case["lay"])
        if case["lay"] == "expanded" and x.dim() and (p not in ("transpose", "gather", "gather_copy") or x.shape[0] == shape[0]):
            x = x[:1].expand(x.shape)
        return x

    def total(pa):
        t = [R[q] for q in members(pa)]
        acc = torch.zeros(shape, dtype=torch.float64 if not dt.is_complex else torch.complex128)
        for s in t:
            acc = acc + s.to(acc.dtype)
        return acc.to(dt)

    def want_fwd(pa):
        i = idx(*pa)
        if p == "copy":
            return G[other(*pa)]
        if p == "reduce":
            return total(pa)
        if p == "reduce_scatter":
            return shard(total(pa), d0, k, i)
        if p == "scatter":
            return shard(G[other(*pa)], d0, k, i)
        if p in ("gather", "gather_copy"):
            return G[other(*pa)]
        if p == "transpose":
            return shard(G[other(*pa)], d0, k, i)
        if p == "halo":
            x = G[other(*pa)]
            s = split_sizes(shape[2], k)
            lo, hi = sum(s[:i]) - r, sum(s[: i + 1]) + r
            pad = torch.zeros_like(x[:, :, :1]).expand(-1, -1, r, -1)
            ext = torch.cat([pad, x, pad], 2)
            return ext[:, :, lo + r : hi + r]

    if p == "halo" and k == 1 and r:
        r = 0  # without neighbours the caller does not exchange
    up = {}
    for i, pa in enumerate(w.grid):
        sh = tuple(want_fwd(pa).shape)
        t = values(sh, dt, case["u"], 101 + i)
        if case["gl"] == "expanded" and t.dim():
            t = t[:1].expand(sh)
        if half and p in ("copy", "gather_copy") and case["u"] % 2:
            t = torch.full(sh, (2048.0 if dt == torch.float16 else 256.0) if idx(*pa) == 0 else 1.0, dtype=dt)
        up[pa] = t

    def want_bwd(pa):
        i, mem = idx(*pa), members(pa)
        wide = torch.complex128 if dt.is_complex else torch.float64
        if p == "copy":
            return sum(up[q].to(wide) for q in mem).to(dt)
        if p == "reduce":
            return up[pa]
        if p in ("reduce_scatter", "scatter"):
            return torch.cat([up[q] for q in mem], d0)
        if p == "gather":
            return shard(up[pa], d0, k, i)
        if p == "gather_copy":
            return shard(sum(up[q].to(wide) for q in mem).to(dt), d0, k, i)
        if p == "transpose":
            full = torch.cat([up[q] for q in mem], d0)
            return shard(full, d1, k, i)
        if p == "halo":
            s = split_sizes(shape[2], k)
            acc = torch.zeros(*shape[:2], shape[2] + 2 * r, shape[3], dtype=wide)
            for j, q in enumerate(mem):
                lo = sum(s[:j])
                acc[:, :, lo : lo + s[j] + 2 * r] += up[q].to(wide)
            return acc[:, :, r + sum(s[:i]) : r + sum(s[: i + 1])].to(dt)

    shp = (lambda d: sizes(d)) if case["shp"] == "list" else (lambda d: None)

    def call(x):
        if p == "transpose":
            return (thd.distributed_transpose_azimuth if az else thd.distributed_transpose_polar)(x, (d0, d1), sizes(d1))
        if p == "copy":
            return (thd.copy_to_azimuth_region if az else thd.copy_to_polar_region)(x)
        if p == "reduce":
            return (thd.reduce_from_azimuth_region if az else thd.reduce_from_polar_region)(x)
        if p == "reduce_scatter":
            return (thd.reduce_from_scatter_to_azimuth_region if az else thd.reduce_from_scatter_to_polar_region)(x, d0)
        if p == "scatter":
            return thd.scatter_to_polar_region(x, d0)
        if p == "gather":
            return thd.gather_from_polar_region(x, d0, shp(d0))
        if p == "gather_copy":
            return thd.gather_from_copy_to_polar_region(x, d0, shp(d0))
        if p == "halo":
            return thd.polar_halo_exchange(x, r)

    def body(pp, aa, wd):
        pa = (pp, aa)
        x = start(pa)
        keep = x.clone()
        # through a non-leaf, as in a network
        leaf = x.detach()
        if fl:
            leaf.requires_grad_(True)
        y = call(leaf)
        out = y.detach().clone()
        gx = None
        if fl:
            go = relayout(up[pa], "strided") if case["gl"] == "strided" else up[pa]
            kept = go.clone()
            if tuple(y.shape) != tuple(go.shape):
                raise Violation(f"rank {pa}: {p} returns shape {tuple(y.shape)}, expected {tuple(go.shape)}", "shape")
            (gx,) = torch.autograd.grad(y, [leaf], go)
            gx = gx.detach().clone()
            if not torch.equal(go, kept):
                raise Violation(f"rank {pa}: {p} modified the incoming gradient", "gradient-modified")
        if not torch.equal(x.detach(), keep):
            raise Violation(f"rank {pa}: {p} modified its input", "input-modified")
        return out, gx

    thd.config.debug = g["debug"]
    try:
        res = w.run(body)
    finally:
        thd.config.debug = False
    vd.observe(mon, w)
    for pa, (y, gx) in zip(w.grid, res):
        mon.check(y.dtype == dt, "type-kept", f"{p}: {dt} became {y.dtype}")
        mon.equal(y, want_fwd(pa), "forward-" + p)
        if gx is not None:
            mon.check(gx.dtype == dt, "type-kept", f"{p}: gradient of {dt} is {gx.dtype}")
            mon.equal(gx, want_bwd(pa), "backward-" + p)
    mon.event("input-untouched", len(res))
    if g["debug"] and p in ("transpose", "gather", "gather_copy") and k > 1:
        wrong(case, mon, start, d0, d1, sizes, az, k)
    mon.state(p, P, A, az, d0, d1, shape[d0] % k == 0, case["dt"], case["lay"], case["gl"], g["debug"], r)


def wrong(case, mon, start, d0, d1, sizes, az, k):
    """debug mode: sizes that do not describe the ranks' shards are reported on every rank"""
    p, g = case["p"], case["g"]
    w = vd.world(g, case["u"] + 1)
    s = list(sizes(d1 if p == "transpose" else d0))
    s[case["u"] % k] += 1

    def body(pp, aa, wd):
        x = start((pp, aa)).detach()
        try:
            if p == "transpose":
                (thd.distributed_transpose_azimuth if az else thd.distributed_transpose_polar)(x, (d0, d1), s)
            elif p == "gather":
                thd.gather_from_polar_region(x, d0, s)
            else:
                thd.gather_from_copy_to_polar_region(x, d0, s)
        except ValueError:
            return True
        return False

    thd.config.debug = True
    try:
        res = w.run(body)
    finally:
        thd.config.debug = False
    mon.check(all(res), "debug-detects", f"{p} with wrong shard sizes {s} was not reported in debug mode")


def run_own(case, mon):
    """transposes and gathers of data that the caller distributed with sizes of its own"""
    g, dt = case["g"], DT[case["dt"]]
    az, (d0, d1), shape = case["az"], (case["d0"], case["d1"]), tuple(case["shape"])
    k = g["A"] if az else g["P"]
    idx = lambda pa: pa[1] if az else pa[0]
    other = lambda pa: pa[0] if az else pa[1]
    r = np.random.default_rng([case["u"], 5])
    cuts = np.sort(r.choice(np.arange(1, shape[d1]), k - 1, replace=False)) if k > 1 else np.array([], dtype=int)
    sizes = [int(v) for v in np.diff(np.concatenate([[0], cuts, [shape[d1]]]))]
    G = {o: values(shape, dt, case["u"], o) for o in range(g["P"] if az else g["A"])}
    gather = not az and case["u"] % 3 == 0
    w = vd.world(g, case["u"])
    thd.config.debug = g["debug"]

    def body(pp, aa, wd):
        x = relayout(torch.split(G[other((pp, aa))], sizes, d1)[idx((pp, aa))], case["lay"])
        if gather:
            return thd.gather_from_polar_region(x, d1, sizes if case["shp"] == "list" else None)
        return (thd.distributed_transpose_azimuth if az else thd.distributed_transpose_polar)(x, (d0, d1), sizes)

    try:
        res = w.run(body)
    finally:
        thd.config.debug = False
    for pa, y in zip(w.grid, res):
        full = G[other(pa)]
        mon.equal(y, full if gather else shard(full, d0, k, idx(pa)), "own-sizes")
    mon.state("own", az, gather, k, sizes, d0, d1, len(shape))


def run_split(case, mon):
    g = np.random.default_rng(case["u"])
    for _ in range(20):
        n, k = int(g.integers(1, 300)), int(g.integers(1, 40))
        if n < k:
            try:
                thd.compute_split_shapes(n, k)
            except RuntimeError:
                mon.event("split-rejected")
            else:
                mon.fail("split", f"splitting {n} elements over {k} ranks was accepted")
            continue
        s = thd.compute_split_shapes(n, k)
        mon.check(list(s) == split_sizes(n, k), "split", f"split of {n} over {k} is {s}")
    x = values(tuple(case["shape"]), DT[case["dt"]], case["u"], 1)
    d, k = case["d0"], case["g"]["P"]
    parts = thd.split_tensor_along_dim(x, d, k)
    mon.check(len(parts) == k, "split", f"{len(parts)} parts")
    for i, t in enumerate(parts):
        mon.equal(t, shard(x, d, k, i), "split")
    try:
        thd.split_tensor_along_dim(x, d, x.shape[d] + 1)
    except RuntimeError:
        mon.event("split-rejected")
    else:
        mon.fail("split", "empty chunks were accepted")
    mon.state("split", k, d, case["dt"])


def run_pad(case, mon):
    dt = DT[case["dt"]]
    x = values(tuple(case["shape"]), dt, case["u"], 1)
    x = relayout(x, case["lay"])
    keep = x.clone()
    nt = 1 + case["u"] % (x.dim())
    m = case["u"] // 7 % 9
    fl = dt.is_floating_point or dt.is_complex
    if fl:
        x = x.detach().requires_grad_(True)
    y, lead, n = thd.flatten_and_pad_leading_dims(x, m, nt)
    L = int(np.prod(x.shape[: x.dim() - nt])) if x.dim() > nt else 1
    mon.check(n == L and tuple(lead) == tuple(x.shape[: x.dim() - nt]), "pad", f"lead {tuple(lead)} size {n}")
    mon.check(tuple(y.shape) == (max(L, m), *x.shape[x.dim() - nt :]) and y.dtype == dt and y.is_contiguous(), "pad", f"padded shape {tuple(y.shape)} from {tuple(x.shape)}, {nt} trailing, at least {m}")
    mon.equal(y[:L].detach(), keep.reshape(L, *x.shape[x.dim() - nt :]), "pad")
    mon.check(not bool(y[L:].detach().any()), "pad", "padding is not zero")
    z = thd.unpad_and_unflatten_leading_dims(y * 1, lead, n, nt)
    mon.equal(z.detach(), keep, "pad")
    if fl:
        u = values(tuple(z.shape), dt, case["u"], 5)
        (gx,) = torch.autograd.grad(z, [x], u.clone())
        mon.equal(gx, u, "pad-gradient")
    mon.equal(x.detach(), keep, "pad-input")
    mon.state("pad", x.dim(), nt, L < m, case["dt"], case["lay"])
