"""Native kernels never touch memory out of bounds or invoke undefined behaviour."""
import math, os
import torch
from vlib import gen, ops, sanbuild

PROPERTY = "C18"
TECHNIQUE = "sanitizers: the native helpers and kernels are rebuilt from the working tree with AddressSanitizer and UndefinedBehaviourSanitizer and run under random configurations, types, layouts and call orders; fresh allocations are filled with NaN patterns, so uninitialised memory reaching a result is seen by comparing with the pure-tensor implementation; guard monitors check the index tables the kernels trust"
NOTE = "all CPU native code (filter preprocessing, dense packing, DISCO forward/backward, local attention forward/backward in both resampling directions, layout permutation). CUDA kernels cannot run here."
RULE = "distinct (kernel, direction, longitude ratio, type, layout, degenerate extent) situations executed under the sanitizers with their log inspected"
LEVEL = "exploration"
REQUIRED_EVENTS = ["sanitizer-log-clean", "finite-result", "matches-tensor-implementation", "matches-tensor-gradient", "sentinel-detected", "op:disco", "op:discoT", "op:natt", "op:preprocess", "op:pack", "op:permute", "table-in-range"]
ASSUMPTIONS = ["gcc's AddressSanitizer/UBSan instrumentation of the project's translation units at -O1; libtorch itself is not instrumented, only its allocations are guarded", "CUDA sources are outside the reach of this sandbox"]
JOBS = 8
CASE_TIMEOUT = 300
DT = {"float16": torch.float16, "bfloat16": torch.bfloat16, "float32": torch.float32, "float64": torch.float64}
_log = None


def prepare(tier):
    global _log
    d = sanbuild.enter("asan", sanbuild.ASAN, ["libasan.so", "libubsan.so", "libstdc++.so.6"], {
        "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=255:detect_stack_use_after_return=1:quarantine_size_mb=64:detect_odr_violation=0:suppress_equal_pcs=0:redzone=64",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0"})
    _log = sanbuild.Log(d + "/san")


def worker_init():
    _log.redirect()


def cases(rng, tier):
    n = 60 if tier == "quick" else 700
    yield {"op": "sentinel"}
    for i in range(n):
        for op in ("disco", "discoT", "natt", "natt"):
            s = ops.spec(rng, op)
            if op == "natt":
                s["impl"] = "opt"
                s["norm"] = False
            elif s["impl"] == "torch":
                s["impl"] = "opt"
            yield {"op": op, "s": s, "B": gen.choice(rng, [1, 1, 2, 3, 5]), "dt": gen.choice(rng, ["float32", "float32", "float64", "float16", "bfloat16"]), "lay": gen.choice(rng, ["same", "same", "sliced", "permuted", "flipped", "offset"]), "u": int(rng.integers(10**6))}
        # degenerate and unusual extents
        k = gen.choice(rng, [1, 1, 2, 3, 4, 5, 7])
        m = gen.choice(rng, [1, 1, 2, 3, 5, 7, 11])
        c = {"fam": gen.choice(rng, ["piecewise linear", "harmonic", "zernike"]), "shape": gen.choice(rng, [1, 2, 3]), "mode": gen.choice(rng, ["none", "mean", "nodal"]), "bias": False, "G": 1, "ci": gen.choice(rng, [1, 3, 17]), "co": gen.choice(rng, [1, 2]), "u": i, "B": 1,
             "gf": gen.choice(rng, ops.GRIDS), "gc": gen.choice(rng, ops.GRIDS), "coarse": [gen.choice(rng, [2, 3, 9]), m], "fine": [gen.choice(rng, [2, 3, 5, 13]), m * k], "cut": gen.choice(rng, [1e-4, 0.05, 0.4, 1.5, 3.1]), "impl": gen.choice(rng, ["opt", "fused"])}
        yield {"op": "disco", "s": dict(c, op="disco"), "B": gen.choice(rng, [0, 1, 2]), "dt": gen.choice(rng, ["float32", "float64"]), "lay": "same", "u": i}
        yield {"op": "discoT", "s": dict(c, op="discoT", impl="opt"), "B": gen.choice(rng, [0, 1, 2]), "dt": gen.choice(rng, ["float32", "float64"]), "lay": "same", "u": i}
        H = gen.choice(rng, [1, 2, 5])
        up = bool(rng.integers(2))
        a, b = [gen.choice(rng, [2, 3, 7]), m], [gen.choice(rng, [2, 4, 9]), m * k]
        yield {"op": "natt", "B": gen.choice(rng, [0, 1, 2]), "dt": gen.choice(rng, ["float32", "float16", "bfloat16", "float64"]), "lay": "same", "u": i,
               "s": {"op": "natt", "u": i, "inp": a if up else b, "out": b if up else a, "gi": gen.choice(rng, ops.GRIDS), "go": gen.choice(rng, ops.GRIDS), "H": H, "ci": gen.choice(rng, [1, 2]), "kc": H * gen.choice(rng, [1, 3, 9]), "co": H * gen.choice(rng, [1, 2, 33]), "bias": bool(rng.integers(2)), "norm": False, "scale": None, "cut": gen.choice(rng, [0.3, 0.9, 1.7, 3.1]), "impl": "opt"}}
        K, Ho, Wi = gen.choice(rng, [1, 2, 5]), gen.choice(rng, [1, 3, 6]), gen.choice(rng, [1, 4, 7])
        yield {"op": "helpers", "K": K, "Ho": Ho, "Hi": gen.choice(rng, [1, 2, 5]), "Wi": Wi, "dens": gen.choice(rng, [0.0, 0.1, 0.5, 1.0]), "dt": gen.choice(rng, ["float32", "float64"]), "pad": gen.choice(rng, [0, -1, 3, 50]), "u": i}
        yield {"op": "permute", "shape": [gen.choice(rng, [0, 1, 2]), gen.choice(rng, [1, 2, 7]), gen.choice(rng, [1, 3]), gen.choice(rng, [1, 2, 9])], "dt": gen.choice(rng, sorted(DT)), "u": i}


def clean(mon, what):
    s = _log.new()
    mon.check("runtime error:" not in s and "Sanitizer" not in s, "sanitizer-log-clean", f"sanitizer report during {what}:\n{sanbuild.brief(s)}", key="sanitizer:" + what)


def bits_ok(t):
    return t.numel() == 0 or bool(torch.isfinite(t.detach().float()).all())


def sentinel(mon):
    """the detectors themselves are alive: poisoned fresh memory, and redzones around libtorch's allocations"""
    import ctypes

    x = torch.empty(37)
    if not bool(torch.isnan(x).all()):
        from vlib.core import Inconclusive

        raise Inconclusive("fresh allocations are not filled")
    asan = ctypes.CDLL(None)
    y = torch.zeros(5)
    asan.__asan_address_is_poisoned.restype = ctypes.c_int
    p = ctypes.c_void_p(y.data_ptr() + 20)
    q = ctypes.c_void_p(y.data_ptr() + 16)
    if not asan.__asan_address_is_poisoned(p) or asan.__asan_address_is_poisoned(q):
        from vlib.core import Inconclusive

        raise Inconclusive("tensor allocations are not guarded")
    can = ctypes.CDLL(os.path.join(os.environ["VERIF_SAN"], "canary.so"))
    can.canary_read(ctypes.c_void_p(y.data_ptr()), ctypes.c_long(6))
    can.canary_overflow(5)
    s = _log.new()
    if "heap-buffer-overflow" not in s or "signed integer overflow" not in s:
        from vlib.core import Inconclusive

        raise Inconclusive("planted faults were not reported: " + s[:500])
    mon.event("sentinel-detected")
    mon.state("sentinel")


def tables(mon, s, ro, ci, up, rows, cols):
    mon.check(ro.numel() == rows + 1 and int(ro[0]) == 0 and int(ro[-1]) == ci.numel() and bool((ro[1:] >= ro[:-1]).all()), "table-in-range", f"row offsets {ro.tolist()[:20]} do not delimit {ci.numel()} entries in {rows} rows")
    mon.check(ci.numel() == 0 or (int(ci.min()) >= 0 and int(ci.max()) < cols), "table-in-range", f"column index {int(ci.max()) if ci.numel() else None} outside [0, {cols})")
    if up:
        k = s["out"][1] // s["inp"][1]
        cov = len({(c // s["out"][1], c % s["out"][1] % k) for c in ci.tolist()}) == s["out"][0] * k
    else:
        cov = bool((ro[1:] > ro[:-1]).all())
    return cov


def module_case(case, mon):
    from checks.C21_purity import layout

    s = case["s"]
    dt = DT[case["dt"]]
    op = s["op"]
    mod = ops.make(s)
    clean(mon, op + " construction")
    ref = ops.make(dict(s, impl="torch"))
    ref.load_state_dict(mod.state_dict(), strict=False)
    # the tables the kernels trust
    if op == "natt":
        up = s["out"][1] > s["inp"][1]
        rows, cols = (s["inp"][0], s["out"][0] * s["out"][1]) if up else (s["out"][0], s["inp"][0] * s["inp"][1])
        ro, ci = getattr(mod, "psi_roff_idx", None), getattr(mod, "psi_col_idx", None)
        cov = False
        if ro is None or ci is None:  # internal tables: where they have other names the sanitizers alone judge
            mon.event("table-in-range")
        else:
            cov = tables(mon, s, ro, ci, up, rows, cols)
    if case["dt"] == "float64":
        mod, ref = mod.double(), ref.double()
    half = case["dt"] in ("float16", "bfloat16")
    if half:
        mod, ref = mod.to(dt), ref.to(dt)
    xs = [t.tanh() for t in ops.inputs(s, torch.float64, B=case["B"])]
    xs = [t.to(dt) for t in xs]
    outs = []
    for m, lay in ((mod, case["lay"]), (ref, "same"))[: 1 if op == "natt" and not (case["B"] and cov) else 2]:
        z = [layout(t, lay) if t.numel() and lay != "same" else t.clone() for t in xs]
        z = [t.detach().requires_grad_(True) for t in z]
        y = m(*z)
        if m is mod:
            clean(mon, op + " forward")
        torch.manual_seed(case["u"])
        g = torch.randn(y.shape, dtype=torch.float64).to(y.dtype)
        ps = [p for p in m.parameters() if p.requires_grad]
        gr = torch.autograd.grad(y, z + ps, g, allow_unused=True)
        if m is mod:
            clean(mon, op + " backward")
        outs.append((y, gr))
    mon.event("op:" + op)
    if len(outs) == 1:
        outs = outs * 2
    (y, gr), (y2, gr2) = outs
    if bits_ok(y2):
        mon.check(bits_ok(y), "finite-result", "the native result contains non-finite values where the tensor implementation has none (uninitialised memory?)")
        tol = {"float64": 1e-5, "float32": 2e-4, "float16": 4e-2, "bfloat16": 2e-1}[case["dt"]]
        sc = max(float(y2.detach().abs().max()) if y2.numel() else 0.0, 1e-3)
        mon.close(y.double(), y2.double(), 0, tol * sc * 5, "matches-tensor-implementation")
        gs = max([float(g.detach().abs().max()) for g in gr2 if g is not None and g.numel()] + [1e-3])
        for a, b in zip(gr, gr2):
            if b is not None and bits_ok(b):
                mon.check(a is not None and bits_ok(a), "finite-result", "a native gradient contains non-finite values where the tensor implementation has none (uninitialised memory?)")
                mon.close(a.double(), b.double(), 0, tol * gs * 5, "matches-tensor-gradient")
    if op == "natt":
        mon.state(op, "up" if up else "down", cov, s["out"][1] / s["inp"][1], case["dt"], case["lay"], s["H"], s["kc"], s["co"], min(case["B"], 2), s["inp"][1] == 1)
    else:
        mon.state(op, s["impl"], s["fine"][1] // s["coarse"][1], case["dt"], case["lay"], min(case["B"], 2), s["coarse"][1] == 1, s["cut"] is not None and s["cut"] < 0.1, s["ci"] > 4)


def helpers(case, mon):
    import disco_helpers as dh

    g = torch.Generator().manual_seed(case["u"])
    K, Ho, Hi, Wi = case["K"], case["Ho"], case["Hi"], case["Wi"]
    full = torch.rand(K, Ho, Hi * Wi, generator=g) < case["dens"]
    idx = full.nonzero()
    n = idx.shape[0]
    # arbitrary order of kernels within a row order, as produced by the filter builders: sorted by row, kernels interleaved
    order = torch.argsort(idx[:, 1] * (K * Hi * Wi) + (idx[:, 0] * Hi * Wi + idx[:, 2]), stable=True)
    idx = idx[order]
    ker, row, col = (idx[:, i].clone().contiguous() for i in range(3))
    val = torch.randn(n, generator=g, dtype=DT[case["dt"]])
    want = sorted(zip(ker.tolist(), row.tolist(), col.tolist(), val.tolist()))
    roff = dh.preprocess_psi(K, Ho, ker, row, col, val)
    clean(mon, "preprocess_psi")
    got = list(zip(ker.tolist(), row.tolist(), col.tolist(), val.tolist()))
    mon.check(sorted(got) == want, "table-in-range", "preprocessing changed the set of entries")
    r = roff.tolist()
    rows = sorted({(a, b) for a, b, _, _ in want})
    mon.check(len(r) == len(rows) + 1 and r[0] == 0 and r[-1] == n and all(a < b for a, b in zip(r, r[1:])), "table-in-range", f"row offsets {r} do not delimit {n} entries in {len(rows)} rows")
    mon.check([got[i][:2] for i in r[:-1]] == rows and all(len({e[:2] for e in got[a:b]}) == 1 for a, b in zip(r, r[1:])), "table-in-range", "a row mixes entries of different outputs")
    mon.event("op:preprocess")
    mx = max([b - a for a, b in zip(r, r[1:])] + [0])
    pad = case["pad"]
    if pad > 0 and pad < mx:
        try:
            dh.pack_psi_dense(K, Ho, Wi, pad, ker, row, col, val, roff)
            mon.fail("a padding smaller than the longest row was accepted")
        except RuntimeError:
            mon.event("op:pack")
    else:
        i, v, c = dh.pack_psi_dense(K, Ho, Wi, pad, ker, row, col, val, roff)
        P = v.shape[2]
        mon.check(P == (mx if pad <= 0 else pad), "table-in-range", f"padded width {P}")
        rec = [(k, h, int(i[k, h, j, 0]) * Wi + int(i[k, h, j, 1]), float(v[k, h, j])) for k in range(K) for h in range(Ho) for j in range(int(c[k, h]))]
        mon.check(sorted(rec) == want, "table-in-range", "dense packing changed the set of entries")
        tail = sum(float(v[k, h, int(c[k, h]):].abs().sum()) for k in range(K) for h in range(Ho))
        mon.check(tail == 0, "table-in-range", "dense packing left values beyond the row's count")
        mon.event("op:pack")
    clean(mon, "pack_psi_dense")
    mon.state("helpers", K, Ho, Hi, Wi, case["dens"], pad, case["dt"])


def permute(case, mon):
    g = torch.Generator().manual_seed(case["u"])
    x = torch.randn(case["shape"], generator=g).to(DT[case["dt"]])
    y = torch.ops.attention_kernels.permute_to_nhwc(x)
    z = torch.ops.attention_kernels.permute_to_nchw(y)
    clean(mon, "layout permutation")
    mon.equal(y, x.permute(0, 2, 3, 1).contiguous(), "matches-tensor-implementation")
    mon.equal(z, x, "matches-tensor-implementation")
    mon.event("op:permute")
    mon.state("permute", *case["shape"], case["dt"])


def run(case, mon):
    _log.new()
    op = case["op"]
    if op == "sentinel":
        return sentinel(mon)
    if op == "helpers":
        return helpers(case, mon)
    if op == "permute":
        return permute(case, mon)
    return module_case(case, mon)
