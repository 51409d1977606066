"""C17: longitude rotations and north-south reflection commute with every operator."""
import math
import torch
from vlib import ops, gen, attn, disco, basis

PROPERTY = "C17"
TECHNIQUE = "runtime monitor: metamorphic oracle; every operator is run on a field and on its rotated (every whole-step shift, wrap-around included) or mirrored copy and the two outputs are compared"
NOTE = "Held on every operator instance, shift and field executed; agreement is to the operator's rounding."
RULE = "a case is (operator spec, shift or reflection); distinct by operator kind, grids, sizes, options and the shift"
LEVEL = "exploration"
ASSUMPTIONS = ["reflection is judged for operators whose filters are mirror symmetric, and where no neighbour lies within rounding of the cutoff"]
ROUNDS = 4
REQUIRED_EVENTS = ["rot_" + k for k in ops.KINDS] + ["mir_" + k for k in ops.KINDS] + ["rot_grad"]


def cases(rng, tier):
    n = 4400 if tier == "quick" else 40000
    for i in range(n):
        k = ops.KINDS[i % len(ops.KINDS)]
        sp = ops.spec(rng, k, rot=True, small=rng.random() < 0.6)
        if k == "specconv":
            sp["bias"] = False  # the spectral bias is a fixed, generally unsymmetric field
        mir = not (i // len(ops.KINDS)) % 2
        if mir and k in ("disco", "discoT"):
            sp.update(fam="piecewise linear", shape=gen.choice(rng, [2, 3, 4, 5, [1, 1], [3, 1]]))
        yield dict(sp, kind="mir" if mir else "rot", dt=gen.choice(rng, ["float32", "float64"]), grad=rng.random() < 0.4, j=int(rng.integers(1, 10**6)))


def grids(s):
    k = s["op"]
    if k in ("sht", "isht", "vsht", "ivsht", "quad"):
        return [s["nlat"], s["nlon"]], [s["nlat"], s["nlon"]]
    if k == "disco":
        return s["fine"], s["coarse"]
    if k == "discoT":
        return s["coarse"], s["fine"]
    return s["inp"], s["out"]


def ambiguous(s):
    if s["op"] in ("disco", "discoT"):
        (a, ga), (b, gb) = ((s["coarse"], s["gc"]), (s["fine"], s["gf"]))
        cut = s["cut"] or math.pi / (s["coarse"][0] - 1)
        r, phi = disco.geometry(a[0], ga, b[0], b[1], gb)
        rc = 1.001 * cut
        if bool((abs(r - rc) < 1e-9).any()):
            return True
        sh = tuple(s["shape"]) if isinstance(s["shape"], list) else s["shape"]
        S, E = disco.support(s["fam"], sh, r, phi, rc)
        return bool(E.any()) and s["mode"] in ("support", "modal")
    if s["op"] == "natt":
        try:
            m = attn.mask(s["inp"], s["out"], s["gi"], s["go"], s["cut"])
        except attn.Ambiguous:
            return True
        return not bool(m.any(1).all())
    return False


def run(case, mon):
    s = case
    k = s["op"]
    if ambiguous(s):
        mon.event("ambiguous")
        return
    dt = getattr(torch, case["dt"])
    if k in ops.FP32_ONLY:
        dt = torch.float32
    mod = ops.make(s)
    if k in ("disco", "discoT", "gatt"):
        mod = mod.to(dt)
    x = ops.inputs(s, dt)
    if k in ("natt", "gatt"):
        x = [t * 0.7 for t in x]
    if k == "resample":
        x = [torch.tanh(t) for t in x]  # spherical interpolation is singular where neighbouring values differ by pi
    gi, go = grids(s)
    tol = ops.tol(s, dt)
    cplx = x[0].is_complex()

    def call(v):
        return mod(*v)

    if case["kind"] == "rot":
        g = math.gcd(gi[1], go[1])
        if k in ("sht", "isht", "vsht", "ivsht"):
            g = s["nlon"]
        t = case["j"] % g if g > 1 else 0
        t = t or g - 1
        si, so = t * gi[1] // g, t * go[1] // g
        y = call(x)
        if k in ("sht", "vsht"):
            M = y.shape[-1]
            ph = torch.exp(-2j * math.pi * torch.arange(M, dtype=torch.float64) * t / s["nlon"]).to(y.dtype)
            want, got = y * ph, call([torch.roll(x[0], t, -1)])
        elif k in ("isht", "ivsht"):
            M = x[0].shape[-1]
            ph = torch.exp(-2j * math.pi * torch.arange(M, dtype=torch.float64) * t / s["nlon"]).to(x[0].dtype)
            z = x[0].clone()
            if s["nlon"] % 2 == 0 and M > s["nlon"] // 2:
                # the Nyquist order has no imaginary part on the grid; keep it real so that a shift by one step is its sign change
                z[..., s["nlon"] // 2:] = 0
            z[..., 0].imag.zero_()
            want, got = torch.roll(call([z]), t, -1), call([z * ph])
        elif k == "quad":
            want, got = y, call([torch.roll(x[0], t, -1)])
        else:
            shifts = [so, si, si] if len(x) == 3 else [si]
            want, got = torch.roll(y, so, -1), call([torch.roll(v, h, -1) for v, h in zip(x, shifts)])
        sc = max(float(want.detach().abs().max()), float(x[0].abs().max()) * 1e-2)
        mon.close(got, want, 4 * tol, 1e-7 if dt == torch.float32 else 1e-12, "rot_" + k, scale=sc)
        mon.state("rot", k, gi, go, t, case["dt"], *[str(s.get(q)) for q in ("grid", "gi", "go", "gf", "gc", "fam", "mode", "norm", "impl")])
        if case["grad"] and not cplx and k not in ("sht", "vsht", "quad"):
            # the backward pass commutes too
            up = torch.randn_like(y)
            a = [v.clone().requires_grad_(True) for v in x]
            ga = torch.autograd.grad(call(a), a, up)
            shifts = [so, si, si] if len(x) == 3 else [si]
            b = [torch.roll(v, h, -1).requires_grad_(True) for v, h in zip(x, shifts)]
            gb = torch.autograd.grad(call(b), b, torch.roll(up, so, -1))
            for p, q, h in zip(ga, gb, shifts):
                mon.close(q, torch.roll(p, h, -1), 20 * tol, 1e-6 if dt == torch.float32 else 1e-11, "rot_grad", scale=float(max(v.abs().max() for v in ga)) + float(up.abs().max()))
        return
    # reflection
    if k in ("disco", "discoT"):
        sh = tuple(s["shape"]) if isinstance(s["shape"], list) else s["shape"]
        if not all(basis.isotropic(s["fam"], sh)):
            mon.event("not_mirror_symmetric")
            return
    y = call(x)
    f = lambda v: torch.flip(v, [-2])
    if k in ("sht", "isht"):
        L, M = (y if k == "sht" else x[0]).shape[-2:]
        sg = (-1.0) ** (torch.arange(L)[:, None] + torch.arange(M)[None, :])
        sg = sg.to(dt)
        want, got = (y * sg, call([f(x[0])])) if k == "sht" else (f(y), call([x[0] * sg]))
    elif k in ("vsht", "ivsht"):
        L, M = (y if k == "vsht" else x[0]).shape[-2:]
        sg = ((-1.0) ** (torch.arange(L)[:, None] + torch.arange(M)[None, :])).to(dt)
        fs = torch.tensor([-1.0, 1.0], dtype=dt).reshape(2, 1, 1)  # colatitude component changes sign
        cs = torch.tensor([1.0, -1.0], dtype=dt).reshape(2, 1, 1)  # toroidal part is a pseudoscalar
        want, got = (y * sg * cs, call([f(x[0]) * fs])) if k == "vsht" else (f(y) * fs, call([x[0] * sg * cs]))
    elif k == "quad":
        want, got = y, call([f(x[0])])
    else:
        want, got = f(y), call([f(v) for v in x])
    sc = max(float(want.detach().abs().max()), float(x[0].abs().max()) * 1e-2)
    mon.close(got, want, (100 if k == "resample" else 10) * tol, 1e-6 if dt == torch.float32 else 1e-10, "mir_" + k, scale=sc)
    mon.state("mir", k, gi, go, case["dt"], *[str(s.get(q)) for q in ("grid", "gi", "go", "gf", "gc", "fam", "mode", "norm", "impl")])
