"""Precision, types and persistence of every operator."""
import copy, io, pickle
import torch
from vlib import gen, ops

PROPERTY = "C22"
TECHNIQUE = "runtime monitoring: twin runs of every operator in both precisions, under automatic mixed precision, after copying, pickling, saving and loading state and converting precision back and forth, with outputs and gradients compared (bitwise where the arithmetic is the same) and the saved state inspected"
NOTE = "all serial operators. By design attention kernels and the spectral layer compute in single precision, quadrature/resampling weights are single precision, and the transforms must be called outside of autocast (documented); these are held to single precision. Mixed precision is exercised on CPU (bfloat16 and float16)."
RULE = "distinct (operator, options, precision or persistence path) situations compared"
LEVEL = "exploration"
ASSUMPTIONS = ["Module.to(float64) is not applied to modules with complex parameters, which PyTorch converts to real"]
ROUNDS = 2
REQUIRED_EVENTS = ["single-vs-double", "double-resolution", "output-type", "deepcopy", "copy-independent", "pickle", "state", "state-keys", "roundtrip", "autocast", "autocast-gradient", "built-in-double"] + ["op:" + k for k in ops.KINDS]
JOBS = 8
LINEAR = ("sht", "isht", "vsht", "ivsht", "disco", "discoT")
AUTO = ("quad", "resample", "specconv", "disco", "discoT", "natt", "gatt")


def cases(rng, tier):
    for i in range(130 if tier == "quick" else 1500):
        for k in ops.KINDS:
            yield {"s": ops.spec(rng, k), "ac": gen.choice(rng, ["bfloat16", "bfloat16", "float16"]), "u": int(rng.integers(10**6))}


def run(case, mon):
    s = case["s"]
    k = s["op"]
    f32, f64 = torch.float32, torch.float64
    mod = ops.make(s)
    sph = k == "resample" and s["mode"] == "bilinear-spherical"
    cplx = any(p.is_complex() for p in mod.parameters())
    x32 = ops.inputs(s, f32)
    if sph:
        x32 = [t.tanh() * 0.7 for t in x32]
    if k in ("natt", "gatt"):
        x32 = [t * 0.6 for t in x32]
    up = lambda t: t.to(torch.complex128 if t.is_complex() else f64)
    x64 = [up(t) for t in x32]
    y32 = mod(*x32).detach()
    if not bool(torch.isfinite(torch.view_as_real(y32) if y32.is_complex() else y32).all()):
        mon.event("empty-neighbourhood")
        return
    sc = ops.out_scale(mod, x32, y32)
    rel = ops.tol(s, f32) * (20 if sph else 1)
    nrm = s.get("norm") is True  # rms_norm's epsilon depends on the type: types are not comparable
    out_c = k in ("sht", "vsht")
    mon.check(y32.dtype == (torch.complex64 if out_c else f32), "output-type", f"single precision input gives {y32.dtype}")
    # double precision twin
    dbl = mod if cplx or k in ("sht", "isht", "vsht", "ivsht", "quad", "resample") else copy.deepcopy(mod).double()
    y64 = dbl(*x64).detach()
    mon.check(y64.dtype == (torch.complex128 if out_c else f64), "output-type", f"double precision input gives {y64.dtype}")
    if not nrm:
        mon.close(up(y32), y64, rel, 1e-30, "single-vs-double", scale=sc)
    if k in LINEAR:
        d = [torch.randn_like(t) for t in x64]
        e = 2.0**-34
        lin = (lambda xs: dbl(*xs).detach()) if not s.get("bias") else (lambda xs: dbl(*xs).detach() - dbl(*[torch.zeros_like(t) for t in xs]).detach())
        lhs = dbl(*[a + e * b for a, b in zip(x64, d)]).detach() - y64
        mon.close(lhs, e * lin(d), 0, 3e-13 * max(sc, float(lin(d).abs().max())), "double-resolution")
    # copies
    c = copy.deepcopy(mod)
    mon.equal(c(*x32).detach(), y32, "deepcopy")
    with torch.no_grad():
        for t in list(c.parameters()) + [b for b in c.buffers() if b.is_floating_point()]:
            t.zero_()
    mon.equal(mod(*x32).detach(), y32, "copy-independent")
    p = pickle.loads(pickle.dumps(mod))
    mon.equal(p(*x32).detach(), y32, "pickle")
    b = io.BytesIO()
    torch.save(mod, b)
    b.seek(0)
    mon.equal(torch.load(b, weights_only=False)(*x32).detach(), y32, "pickle")
    # saved state
    sd = mod.state_dict()
    pn = dict(mod.named_parameters())
    mon.event("state-keys")
    other = ops.make(dict(s, u=s["u"] + 1))
    b = io.BytesIO()
    torch.save(sd, b)
    b.seek(0)
    missing = other.load_state_dict(torch.load(b), strict=True)
    mon.equal(other(*x32).detach(), y32, "state")
    # state of an object whose tables were converted or rebuilt: derived tables come from the arguments, not from the state
    if k in ("disco", "discoT", "natt") and s["impl"] in ("opt", "torch", "fused"):
        alt = ops.make(dict(s, u=s["u"] + 2, impl="torch" if s["impl"] != "torch" else "opt"))
        alt.load_state_dict({n: t for n, t in sd.items()}, strict=True)
        mon.close(alt(*x32).detach(), y32, rel, 1e-30, "state-other-implementation", scale=sc)
    as_ = ops.make(dict(s, u=s["u"] + 3))
    as_.load_state_dict({n: t.clone() for n, t in sd.items()}, strict=True, assign=True)
    mon.equal(as_(*x32).detach(), y32, "state")
    # back and forth
    if not cplx and not nrm:
        rt = copy.deepcopy(mod).double().float()
        mon.close(rt(*x32).detach(), y32, rel, 1e-30, "roundtrip", scale=sc)
        rt = rt.double()
        yr = rt(*x64).detach()
        mon.check(yr.dtype == y64.dtype, "output-type", f"after conversions {yr.dtype}")
        mon.close(yr, y64, rel, 1e-30, "roundtrip", scale=sc)
        fl = copy.deepcopy(mod).float()
        mon.close(fl(*x32).detach(), y32, rel, 1e-30, "roundtrip", scale=sc)
        st = copy.deepcopy(mod).double()
        st.load_state_dict(sd)
        mon.close(st(*x64).detach(), y64, rel, 1e-30, "roundtrip", scale=sc)
    # built while double precision is the default
    torch.set_default_dtype(f64)
    try:
        bd = ops.make(s)
        with torch.no_grad():
            for n, q in bd.named_parameters():
                q.copy_(pn[n])
        yb = bd(*x64).detach()
        mon.check(yb.dtype == y64.dtype, "output-type", f"built in double precision: {yb.dtype}")
        mon.close(yb, y64, ops.tol(s, f64) * (20 if sph else 1), 1e-30, "built-in-double", scale=sc)
    finally:
        torch.set_default_dtype(f32)
    # mixed precision
    if k in AUTO:
        lx = [t.clone().requires_grad_(True) for t in x32]
        ps = list(mod.parameters())
        with torch.autocast("cpu", dtype=getattr(torch, case["ac"])):
            ya = mod(*lx)
        mon.check(ya.is_floating_point() and bool(torch.isfinite(ya).all()), "autocast", "output is not finite")
        lim = 0.04 if k not in ("natt", "gatt") else 0.3
        if not nrm:
            mon.close(ya.detach().float(), y32, lim, 1e-30, "autocast", scale=sc)
        g = torch.randn_like(y32)
        ref = torch.autograd.grad(mod(*[t for t in lx]), lx + ps, g.clone(), allow_unused=True)
        got = torch.autograd.grad(ya, lx + ps, g.to(ya.dtype), allow_unused=True)
        top = max(float(t.abs().max()) for t in ref if t is not None)
        for a, r in zip(got, ref):
            if r is None:
                continue
            mon.check(a is not None and a.dtype == r.dtype, "autocast-gradient", "gradient missing or of another type")
            mon.check(bool(torch.isfinite(torch.view_as_real(a) if a.is_complex() else a).all()), "autocast-gradient", "gradient is not finite")
            if not nrm and top > 0.1:
                mon.close(a, r, 2 * lim, 1e-30, "autocast-gradient", scale=max(float(r.abs().max()), 0.5 * top))
    mon.event("op:" + k)
    mon.state(k, s.get("impl"), s.get("grid"), s.get("mode"), s.get("fam"), s.get("norm"), s.get("bias"), case["ac"])
