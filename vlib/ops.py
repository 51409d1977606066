"""A catalogue of the project's operators, built from JSON specs, for checks that speak about all of them."""
import math
import torch
from . import gen, basis

KINDS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "specconv", "disco", "discoT", "natt", "gatt"]
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
DISCO_SHAPES = {"piecewise linear": [3, [3], [2, 3], [1, 4], [4, 2], [3, 1], [2, 1]], "harmonic": [2, 3, [2, 3]], "zernike": [1, 2, 3], "fourier-bessel": [1, 2, [2, 3]], }


def spec(rng, kind=None, rot=False, small=False):
    """rot: choose sizes with a common longitude symmetry"""
    kind = kind or gen.choice(rng, KINDS)
    s = {"op": kind, "B": gen.batch(rng, [1, 2, 3]), "u": int(rng.integers(10**6))}
    n = gen.ri(rng, 3, 8 if small else 13)
    m = gen.choice(rng, [2, 3, 4, 5, 6, 8, 9, 10, 12] if small else [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24])
    if kind in ("sht", "isht", "vsht", "ivsht"):
        s.update(nlat=n, nlon=gen.choice(rng, [m, 2 * n, 2 * n - 1]), grid=gen.choice(rng, gen.SHT_GRIDS), norm=gen.choice(rng, gen.NORMS), cs=bool(rng.integers(2)))
        if rng.random() < 0.5:
            s.update(lmax=None, mmax=None)
        else:
            s.update(lmax=gen.ri(rng, 1, n), mmax=gen.choice(rng, [None, gen.ri(rng, 1, s["nlon"] // 2 + 1)]))
    elif kind == "quad":
        s.update(nlat=n, nlon=m, grid=gen.choice(rng, GRIDS), normalize=bool(rng.integers(2)))
    elif kind == "resample":
        k = gen.choice(rng, [1, 2, 3])
        a, b = (m, m * k) if rng.random() < 0.5 else (m * k, m)
        if not rot and rng.random() < 0.5:
            a, b = m, gen.ri(rng, 2, 20)
        s.update(inp=[n, a], out=[gen.ri(rng, 2, 14), b], gi=gen.choice(rng, GRIDS), go=gen.choice(rng, GRIDS), mode=gen.choice(rng, ["bilinear", "bilinear-spherical"]))
    elif kind == "specconv":
        G = gen.choice(rng, [1, 2])
        k = gen.choice(rng, [1, 1, 2])
        a, b = (m * k, m) if rng.random() < 0.5 else (m, m * k)
        a, b = max(a, 2), max(b, 2)
        s.update(inp=[n, a], out=[gen.choice(rng, [n, gen.ri(rng, 2, 12)]), b], gi=gen.choice(rng, gen.SHT_GRIDS), go=gen.choice(rng, gen.SHT_GRIDS), G=G, ci=G * gen.ri(rng, 1, 2), co=G * gen.ri(rng, 1, 2), bias=bool(rng.integers(2)))
    elif kind in ("disco", "discoT"):
        fam = gen.choice(rng, sorted(DISCO_SHAPES))
        G = gen.choice(rng, [1, 1, 2])
        k = gen.choice(rng, [1, 1, 2, 3, 5] if m < 10 else [1, 1, 2, 3])
        cl = gen.ri(rng, 2, 8)
        fl = gen.choice(rng, [cl, 2 * cl - 1, 2 * cl, gen.ri(rng, 2, 12)])
        s.update(fine=[fl, m * k], coarse=[cl, m], gf=gen.choice(rng, GRIDS), gc=gen.choice(rng, GRIDS), fam=fam, shape=gen.choice(rng, DISCO_SHAPES[fam]),
                 mode=gen.choice(rng, ["none", "nodal", "modal", "mean", "support", "geometric"]), cut=gen.choice(rng, [None, round(float(rng.uniform(0.3, 1.4)), 3)]), G=G, ci=G * gen.choice(rng, [1, 2, 4]), co=G * gen.ri(rng, 1, 3),
                 bias=bool(rng.integers(2)), impl=gen.choice(rng, ["opt", "opt", "fused", "torch"]))
    elif kind in ("natt", "gatt"):
        k = gen.choice(rng, [1, 1, 2, 3, 5] if m < 7 else [1, 1, 2, 3])
        up = kind == "natt" and rng.random() < 0.4
        H = gen.choice(rng, [1, 2, 3])
        n2 = gen.choice(rng, [n, n, 2 * n, n + 1])
        m = min(m, 10)
        i, o = ([n, m], [n2, m * k]) if up else ([n2, m * k], [n, m])
        s.update(inp=i, out=o, gi=gen.choice(rng, GRIDS), go=gen.choice(rng, GRIDS), H=H, ci=gen.ri(rng, 1, 3), kc=H * gen.ri(rng, 1, 3), co=H * gen.ri(rng, 1, 3), bias=bool(rng.integers(2)), norm=rng.random() < 0.3,
                 scale=gen.choice(rng, [None, 0.5, "tensor"]))
        if kind == "natt":
            s.update(cut=round(float(math.pi / (min(n, n2) - 1) * rng.uniform(1.05, 2.5)), 4), impl="opt" if n * n2 * m * k > 150 else gen.choice(rng, ["opt", "opt", "torch"]))
    if not small and rng.random() < 0.05:
        enlarge(rng, s, rot)
    return s


def enlarge(rng, s, rot=False):
    """an occasional larger instance: more latitudes and longitudes, channels, heads or batch entries"""
    k = s["op"]
    how = gen.choice(rng, ["size", "size", "channels", "batch"])
    if how == "batch":
        s["B"] = gen.choice(rng, [5, 8, 17])
    elif how == "channels" and k in ("disco", "discoT", "specconv"):
        s["G"] = gen.choice(rng, [1, 2, 4])
        s["ci"], s["co"] = s["G"] * gen.ri(rng, 2, 8), s["G"] * gen.ri(rng, 2, 8)
    elif how == "channels" and k in ("natt", "gatt"):
        s["H"] = gen.choice(rng, [1, 4, 8])
        s["ci"], s["kc"], s["co"] = gen.ri(rng, 1, 20), s["H"] * gen.ri(rng, 1, 4), s["H"] * gen.ri(rng, 1, 4)
    elif k in ("sht", "isht", "vsht", "ivsht"):
        n = gen.ri(rng, 24, 70)
        s.update(nlat=n, nlon=gen.choice(rng, [2 * n, 2 * n - 1, n]), lmax=gen.choice(rng, [None, n // 2]), mmax=None)
    elif k == "quad":
        s.update(nlat=gen.ri(rng, 24, 100), nlon=gen.ri(rng, 24, 200))
    elif k in ("resample", "specconv"):
        a, b = gen.ri(rng, 20, 90), gen.ri(rng, 20, 90)
        if rot:
            a = gen.ri(rng, 16, 40)
            a, b = gen.choice(rng, [(a, a), (2 * a, a), (a, 3 * a)])
        s.update(inp=[gen.ri(rng, 20, 50), a], out=[gen.ri(rng, 20, 50), b])
    elif k in ("disco", "discoT"):
        m, f = gen.choice(rng, [20, 30, 36]), gen.choice(rng, [1, 2])
        s.update(coarse=[gen.ri(rng, 12, 24), m], fine=[gen.ri(rng, 16, 32), m * f], cut=gen.choice(rng, [None, round(float(rng.uniform(0.1, 0.4)), 3)]), impl=gen.choice(rng, ["opt", "fused"]))
    else:
        m, f = gen.choice(rng, [16, 20, 24]), gen.choice(rng, [1, 2])
        a, b = [gen.ri(rng, 12, 24), m], [gen.ri(rng, 12, 24), m * f]
        up = k == "natt" and rng.random() < 0.5
        s.update(inp=a if up else b, out=b if up else a)
        if k == "natt":
            s.update(cut=round(float(rng.uniform(0.15, 0.4)), 4), impl="opt")



def make(s, seed=True):
    """the module of a spec; parameters are initialised reproducibly from the spec"""
    import torch_harmonics as th

    if seed:
        st = torch.random.get_rng_state()
        torch.manual_seed(s["u"])
    k = s["op"]
    if k in ("sht", "isht", "vsht", "ivsht"):
        cls = {"sht": th.RealSHT, "isht": th.InverseRealSHT, "vsht": th.RealVectorSHT, "ivsht": th.InverseRealVectorSHT}[k]
        m = cls(s["nlat"], s["nlon"], lmax=s["lmax"], mmax=s["mmax"], grid=s["grid"], norm=s["norm"], csphase=s["cs"])
    elif k == "quad":
        m = th.QuadratureS2((s["nlat"], s["nlon"]), grid=s["grid"], normalize=s["normalize"])
    elif k == "resample":
        m = th.ResampleS2(*s["inp"], *s["out"], grid_in=s["gi"], grid_out=s["go"], mode=s["mode"])
    elif k == "specconv":
        m = th.SpectralConvS2(tuple(s["inp"]), tuple(s["out"]), s["ci"], s["co"], num_groups=s["G"], grid_in=s["gi"], grid_out=s["go"], bias=s["bias"])
    elif k in ("disco", "discoT"):
        sh = tuple(s["shape"]) if isinstance(s["shape"], list) else s["shape"]
        kw = dict(kernel_shape=sh, basis_type=s["fam"], basis_norm_mode=s["mode"], groups=s["G"], bias=s["bias"], theta_cutoff=s["cut"], optimized_kernel=s["impl"] != "torch")
        if k == "disco":
            m = th.DiscreteContinuousConvS2(s["ci"], s["co"], tuple(s["fine"]), tuple(s["coarse"]), grid_in=s["gf"], grid_out=s["gc"], fused=s["impl"] == "fused", **kw)
        else:
            m = th.DiscreteContinuousConvTransposeS2(s["ci"], s["co"], tuple(s["coarse"]), tuple(s["fine"]), grid_in=s["gc"], grid_out=s["gf"], **kw)
    elif k == "natt":
        m = th.NeighborhoodAttentionS2(s["ci"], tuple(s["inp"]), tuple(s["out"]), grid_in=s["gi"], grid_out=s["go"], num_heads=s["H"], scale=torch.tensor(0.37) if s["scale"] == "tensor" else s["scale"], use_qknorm=s["norm"],
                                       bias=s["bias"], theta_cutoff=s["cut"], k_channels=s["kc"], out_channels=s["co"], optimized_kernel=s["impl"] == "opt")
    elif k == "gatt":
        m = th.AttentionS2(s["ci"], s["H"], tuple(s["inp"]), tuple(s["out"]), grid_in=s["gi"], grid_out=s["go"], scale=torch.tensor(0.37) if s["scale"] == "tensor" else s["scale"], use_qknorm=s["norm"], bias=s["bias"], k_channels=s["kc"], out_channels=s["co"])
    if seed:
        with torch.no_grad():
            for n, p in m.named_parameters():
                if "bias" in n or "norm" in n:
                    p.copy_(torch.randn_like(p) * 0.3)
        torch.random.set_rng_state(st)
    return m


def shapes_io(s, m=None):
    """(list of input tail shapes incl. channels, complex?, lead-flexible?)"""
    k = s["op"]
    if k in ("sht", "vsht"):
        return [([2] if k == "vsht" else []) + [s["nlat"], s["nlon"]]], False, True
    if k in ("isht", "ivsht"):
        L, M = gen.trunc(s["nlat"], s["nlon"], s["lmax"], s["mmax"], s["grid"])
        return [([2] if k == "ivsht" else []) + [L, M]], True, True
    if k == "quad":
        return [[s["nlat"], s["nlon"]]], False, True
    if k == "resample":
        return [list(s["inp"])], False, True
    if k == "specconv":
        return [[s["ci"]] + list(s["inp"])], False, False
    if k == "disco":
        return [[s["ci"]] + list(s["fine"])], False, False
    if k == "discoT":
        return [[s["ci"]] + list(s["coarse"])], False, False
    return [[s["ci"]] + list(s["out"]), [s["ci"]] + list(s["inp"]), [s["ci"]] + list(s["inp"])], False, False


def inputs(s, dtype=torch.float32, B=None, lead=None):
    tails, cplx, flex = shapes_io(s)
    lead = ([s["B"] if B is None else B]) if lead is None else lead
    dt = ({torch.float32: torch.complex64, torch.float64: torch.complex128}[dtype]) if cplx else dtype
    return [torch.randn(*lead, *t, dtype=dt) for t in tails]


FP32_ONLY = ("specconv", "natt")  # compute in single precision whatever the input type, by design


def tol(s, dtype):
    """relative rounding level of the operator's arithmetic for inputs of that type"""
    k = s["op"]
    if dtype == torch.float64:
        if k in FP32_ONLY:
            return 2e-4 if (k == "natt" and s["norm"]) else 2e-5
        if k in ("gatt", "quad", "resample"):
            return 2e-5 if k == "gatt" and s.get("norm") else 2e-6
        return 1e-9
    if k in ("natt", "gatt"):
        return 5e-4 if s["norm"] else 5e-5
    return 2e-5


def out_scale(mod, xs, *ys):
    """typical magnitude of the operator's output for inputs like xs: the level rounding errors are relative to, even where the output itself cancels"""
    m = max(float(y.detach().abs().max()) for y in ys if y.numel())
    with torch.no_grad():
        for f in (lambda t: t.abs().to(t.dtype), lambda t: torch.roll(t, 1, -1), lambda t: -t.flip(-2), lambda t: t.abs().flip(-1).to(t.dtype) - 0.5 * t):
            y = mod(*[f(t.detach()) for t in xs])
            v = float(y.abs().max())
            if v == v and v != float("inf"):
                m = max(m, v)
    return max(m, 1e-30)
