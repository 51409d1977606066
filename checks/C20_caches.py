"""Cached tables survive any history: what a program builds now is what a fresh process would build."""
import copy, gc, json, os, pickle, struct, sys, threading
import numpy as np
import torch
from vlib import core, gen, ops

PROPERTY = "C20"
TECHNIQUE = "runtime monitoring: random histories of constructions, in-place mutations of everything that was returned, conversions, copies, optimiser steps, deletions, cache evictions, unusual construction contexts and concurrent constructions; after every step newly built tables and modules are compared bit by bit with those of a freshly forked pristine process, and the storages of all live objects are checked to be disjoint"
NOTE = "quadrature tables, filter bases and every serial operator of the project with near-miss arguments (one argument changed, other call forms, other integer types); schedules come from up to 8 threads with a 1 microsecond switch interval. The oracle process shares only imported code with the monitored one."
RULE = "distinct (last disturbing step, probed object kind, relation to the disturbed object) situations in which a newly built object was compared with the pristine process"
LEVEL = "exploration"
FORKS = True
JOBS = 8
ROUNDS = 2
REQUIRED_EVENTS = ["table-as-fresh", "module-as-fresh", "output-as-fresh", "disjoint-storage", "threads", "context-build", "mutated", "evicted", "table-probe", "basis-as-fresh"]

GRIDS = ops.GRIDS
_z = None


# ---------------------------------------------------------------- the pristine process
def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    return pickle.loads(rd(struct.unpack("<Q", rd(8))[0]))


def worker_init():
    """must run before any table has been computed in this process"""
    global _z
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(w1), os.close(r2)
        try:
            while True:
                req = _recv(r1)
                p = os.fork()
                if p == 0:
                    try:
                        ans = ("ok", observe(req))
                    except Exception as e:
                        ans = ("error", type(e).__name__, str(e)[:300])
                    _send(w2, ans)
                    os._exit(0)
                _, st = os.waitpid(p, 0)
                if st != 0:
                    _send(w2, ("died", st))
        except EOFError:
            pass
        finally:
            os._exit(0)
    os.close(r1), os.close(w2)
    _z = {"w": w1, "r": r2, "memo": {}}


def fresh(req):
    k = json.dumps(req, sort_keys=True)
    if k not in _z["memo"]:
        _send(_z["w"], req)
        _z["memo"][k] = _recv(_z["r"])
        if len(_z["memo"]) > 400:
            _z["memo"].pop(next(iter(_z["memo"])))
    return _z["memo"][k]


# ---------------------------------------------------------------- what can be requested
def num(v, form):
    return np.int64(v) if form == "np" else v


def table(req):
    import torch_harmonics as th

    n, f = req["n"], req.get("form", "pos")
    if req["t"] == "lat":
        if f == "default":
            return list(th.quadrature.precompute_latitudes(n))
        if f == "kw":
            return list(th.quadrature.precompute_latitudes(nlat=n, grid=req["grid"]))
        if f == "half":
            return list(th.quadrature.precompute_latitudes(n, grid=req["grid"]))
        return list(th.quadrature.precompute_latitudes(num(n, f), req["grid"]))
    return [th.quadrature.precompute_longitudes(nlon=n) if f == "kw" else th.quadrature.precompute_longitudes(num(n, f))]


def tensors(m):
    """every tensor a module or object holds, by path (parameters apart)"""
    out, seen = {}, set()

    def walk(o, path):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            out[path] = o
        elif isinstance(o, torch.nn.Module):
            for k, v in o._buffers.items():
                if v is not None:
                    walk(v, path + "." + k)
            for k, v in o._parameters.items():
                if v is not None:
                    walk(v, path + ":" + k)
            for k, v in o._modules.items():
                if v is not None:
                    walk(v, path + "." + k)
            for k, v in vars(o).items():
                if k not in ("_buffers", "_parameters", "_modules") and isinstance(v, (torch.Tensor, list, tuple, dict)):
                    walk(v, path + "." + k)
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                if isinstance(v, (torch.Tensor, list, tuple, dict)):
                    walk(v, f"{path}[{i}]")
        elif isinstance(o, dict):
            for k, v in o.items():
                if isinstance(v, (torch.Tensor, list, tuple, dict)):
                    walk(v, f"{path}[{k}]")

    walk(m, "")
    return out


def arr(t):
    t = t.detach().to_dense() if t.is_sparse else t.detach()
    if t.device.type != "cpu":
        return (f"{t.dtype} on {t.device}", np.zeros(tuple(t.shape)))
    return (str(t.dtype), t.clone(memory_format=torch.contiguous_format).numpy() if t.dtype != torch.bfloat16 else t.float().numpy())


def basis_obs(req):
    from torch_harmonics.filter_basis import get_filter_basis

    sh = tuple(req["shape"]) if isinstance(req["shape"], list) else req["shape"]
    fb = get_filter_basis(sh, req["fam"]) if req["form"] == "pos" else get_filter_basis(kernel_shape=sh, basis_type=req["fam"])
    g = torch.Generator().manual_seed(3)
    r = torch.rand(5, 7, dtype=torch.float64, generator=g) * 1.2
    phi = torch.rand(5, 7, dtype=torch.float64, generator=g) * 6.0
    i, v = fb.compute_support_vals(r, phi, r_cutoff=req["cut"])
    return {"size": torch.tensor(fb.kernel_size), "idx": i, "vals": v, "init": fb.get_init_factors(), "iso": torch.tensor([bool(b) for b in fb.isotropic_mask]), "l2": fb.compute_l2_norms()}, fb


def grf(req):
    from torch_harmonics.random_fields import GaussianRandomFieldS2

    return GaussianRandomFieldS2(req["n"], alpha=req["alpha"], tau=req["tau"], radius=req["radius"], grid=req["grid"])


def build(req):
    return grf(req) if req["t"] == "grf" else ops.make(req["s"])


def observe(req, obj=None, run=True):
    """tables of the requested object, and its output for a fixed input, as plain arrays"""
    t = req["t"]
    if t in ("lat", "lon"):
        return {"tab": {str(i): arr(x) for i, x in enumerate(obj if obj is not None else table(req))}}
    if t == "basis":
        return {"tab": {k: arr(v) for k, v in basis_obs(req)[0].items()}}
    m = build(req) if obj is None else obj
    ts = tensors(m)
    res = {"tab": {k: arr(v) for k, v in ts.items() if not isinstance(v, torch.nn.Parameter)}, "par": {k: arr(v) for k, v in ts.items() if isinstance(v, torch.nn.Parameter)}}
    if run:
        torch.manual_seed(11)
        with torch.no_grad():
            res["out"] = arr(m(2) if t == "grf" else m(*ops.inputs(req["s"], B=1)))
    return res


def same_arr(a, b):
    return a[0] == b[0] and a[1].shape == b[1].shape and a[1].tobytes() == b[1].tobytes()


def compare(mon, req, got, why, par=True):
    want = fresh(req)
    if want[0] != "ok":
        raise core.Skip(f"a fresh process cannot build it either: {want}")
    want = want[1]
    name = {"lat": "table-as-fresh", "lon": "table-as-fresh", "basis": "basis-as-fresh"}.get(req["t"], "module-as-fresh")
    mon.check(set(got["tab"]) == set(want["tab"]), name, f"{req} after {why}: holds tensors {sorted(set(got['tab']) ^ set(want['tab']))} differently from a fresh process")
    for k in want["tab"]:
        g, w = got["tab"][k], want["tab"][k]
        if not same_arr(g, w):
            d = float(np.abs(g[1].astype(complex) - w[1].astype(complex)).max()) if g[1].shape == w[1].shape and g[1].size else "shape/type"
            mon.fail(f"{name}: tensor '{k}' of {json.dumps(req)} built after '{why}' differs from a fresh process: {g[0]} {g[1].shape} vs {w[0]} {w[1].shape}, max difference {d}", key=name)
    if par and "par" in want:
        for k in want["par"]:
            mon.check(same_arr(got["par"][k], want["par"][k]), "parameters-as-fresh", f"initial parameter '{k}' of {json.dumps(req)} built after '{why}' differs from a fresh process")
    if par and "out" in want and "out" in got:
        sc = max(float(np.nanmax(np.abs(want["out"][1]))), 1e-30)
        g, w = got["out"][1], want["out"][1]
        nan = np.isnan(g) & np.isnan(w)
        mon.close(torch.as_tensor(np.where(nan, 0, g)), torch.as_tensor(np.where(nan, 0, w)), 1e-5, 0.0, "output-as-fresh", scale=sc)


# ---------------------------------------------------------------- histories
def req_table(rng):
    if rng.random() < 0.6:
        g = gen.choice(rng, GRIDS)
        return {"t": "lat", "n": gen.ri(rng, 3, 14), "grid": g, "form": gen.choice(rng, ["pos", "kw", "half", "np"] + (["default"] if g == "equiangular" else []))}
    return {"t": "lon", "n": gen.ri(rng, 2, 24), "form": gen.choice(rng, ["pos", "kw", "np"])}


def req_basis(rng):
    fam = gen.choice(rng, sorted(ops.DISCO_SHAPES))
    return {"t": "basis", "fam": fam, "shape": gen.choice(rng, ops.DISCO_SHAPES[fam]), "cut": gen.choice(rng, [0.5, 1.0]), "form": gen.choice(rng, ["pos", "kw"])}


def req_any(rng):
    u = rng.random()
    if u < 0.2:
        return req_table(rng)
    if u < 0.28:
        return req_basis(rng)
    if u < 0.33:
        return {"t": "grf", "n": gen.ri(rng, 3, 9), "alpha": gen.choice(rng, [2.0, 1.5, 2]), "tau": gen.choice(rng, [3.0, 5.0]), "radius": gen.choice(rng, [1.0, 1, 2.0]), "grid": gen.choice(rng, gen.SHT_GRIDS)}
    s = ops.spec(rng, small=True)
    if s["op"] in ("natt", "gatt"):
        s["B"] = 1
    return {"t": "mod", "s": s}


def near(rng, req):
    """the same request with one thing changed (or the same request again)"""
    r = copy.deepcopy(req)
    if rng.random() < 0.35:
        return r, "same"
    if r["t"] == "lat":
        k = gen.choice(rng, ["n", "grid", "form"])
        r[k] = {"n": r["n"] + gen.choice(rng, [1, -1]), "grid": gen.choice(rng, GRIDS), "form": gen.choice(rng, ["pos", "kw", "half", "np"])}[k]
        if r["form"] == "default" and r["grid"] != "equiangular":
            r["form"] = "half"
        r["n"] = max(r["n"], 3)
    elif r["t"] == "lon":
        r["n"] = max(2, r["n"] + gen.choice(rng, [1, -1, 0]))
        r["form"] = gen.choice(rng, ["pos", "kw", "np"])
        k = "n"
    elif r["t"] == "basis":
        k = gen.choice(rng, ["shape", "cut", "fam"])
        if k == "fam":
            r["fam"] = gen.choice(rng, sorted(ops.DISCO_SHAPES))
        if k in ("shape", "fam"):
            r["shape"] = gen.choice(rng, ops.DISCO_SHAPES[r["fam"]])
        else:
            r["cut"] = 1.5 - r["cut"]
    elif r["t"] == "grf":
        k = gen.choice(rng, ["n", "alpha", "tau", "radius", "grid"])
        r[k] = {"n": r["n"] + 1, "alpha": 1.5 if r["alpha"] != 1.5 else 2.0, "tau": 8.0 - r["tau"], "radius": 2.0 if r["radius"] != 2.0 else 1.0, "grid": gen.choice(rng, gen.SHT_GRIDS)}[k]
    else:
        s = r["s"]
        o = s["op"]
        if o in ("sht", "isht", "vsht", "ivsht"):
            k = gen.choice(rng, ["norm", "cs", "grid", "op", "lmax", "nlon"])
            if k == "norm":
                s["norm"] = gen.choice(rng, gen.NORMS)
            elif k == "cs":
                s["cs"] = not s["cs"]
            elif k == "grid":
                s["grid"] = gen.choice(rng, gen.SHT_GRIDS)
            elif k == "op":
                s["op"] = gen.choice(rng, ["sht", "isht", "vsht", "ivsht"])
            elif k == "lmax":
                s["lmax"] = gen.ri(rng, 1, s["nlat"])
            else:
                s["nlon"] += 1
        elif o == "quad":
            k = gen.choice(rng, ["grid", "normalize", "nlon"])
            s[k] = {"grid": gen.choice(rng, GRIDS), "normalize": not s["normalize"], "nlon": s["nlon"] + 1}[k]
        elif o == "resample":
            k = gen.choice(rng, ["gi", "go", "mode"])
            s[k] = gen.choice(rng, GRIDS) if k != "mode" else gen.choice(rng, ["bilinear", "bilinear-spherical"])
        elif o == "specconv":
            k = gen.choice(rng, ["gi", "go", "bias"])
            s[k] = gen.choice(rng, gen.SHT_GRIDS) if k != "bias" else not s["bias"]
        elif o in ("disco", "discoT"):
            k = gen.choice(rng, ["gf", "gc", "mode", "cut", "shape", "op", "impl", "fam"])
            if k in ("gf", "gc"):
                s[k] = gen.choice(rng, GRIDS)
            elif k == "mode":
                s[k] = gen.choice(rng, ["none", "nodal", "modal", "mean", "support", "geometric"])
            elif k == "cut":
                s[k] = gen.choice(rng, [None, (s["cut"] or 0.6) * 1.01, 1, 1.0])
            elif k == "op":
                s["op"] = "discoT" if o == "disco" else "disco"
            elif k == "impl":
                s[k] = gen.choice(rng, ["opt", "fused", "torch"])
            else:
                if k == "fam":
                    s["fam"] = gen.choice(rng, sorted(ops.DISCO_SHAPES))
                s["shape"] = gen.choice(rng, ops.DISCO_SHAPES[s["fam"]])
        else:
            k = gen.choice(rng, ["gi", "go", "cut", "bias"])
            if k == "cut" and "cut" in s:
                s["cut"] = round(s["cut"] * 1.05, 4)
            elif k == "bias":
                s["bias"] = not s["bias"]
            else:
                s["gi" if k == "cut" else k] = gen.choice(rng, GRIDS)
    return r, k


STEPS = ["mutate", "mutate", "mutate", "table", "table", "convert", "copy", "optim", "delete", "evict", "context", "context", "threads", "run", "state"]


def cases(rng, tier):
    n = 130 if tier == "quick" else 900
    for i in range(n):
        yield {"h": int(rng.integers(2**31)), "steps": gen.ri(rng, 6, 14)}


def poison(t, how):
    with torch.no_grad():
        t = t.detach()
        if t.is_sparse:
            t = t._values()
        if t.numel() == 0 or t.is_inference():
            return False
        if t.dtype.is_floating_point or t.dtype.is_complex:
            if how == "nan":
                t.fill_(float("nan"))
            elif how == "scale":
                t.mul_(1.5)
            elif how == "one":
                t.view(-1)[t.numel() // 2] += 1.0 if t.is_contiguous() else 0.0
            else:
                t.zero_()
        else:
            t.zero_()
    return True


def storages(obj):
    ts = tensors(obj) if not isinstance(obj, list) else {str(i): t for i, t in enumerate(obj)}
    out = {}
    for k, t in ts.items():
        parts = [t.detach()._indices(), t.detach()._values()] if t.is_sparse else [t]
        for p in parts:
            if p.device.type == "cpu" and p.untyped_storage().nbytes() > 0:
                out[p.untyped_storage().data_ptr()] = k
    return out


def disjoint(mon, pool):
    owner = {}
    for i, (req, obj) in enumerate(pool):
        for p, k in storages(obj).items():
            if p in owner and owner[p][0] != i:
                j, k2 = owner[p]
                mon.fail(f"disjoint-storage: tensor '{k}' of {json.dumps(req)} shares its memory with '{k2}' of {json.dumps(pool[j][0])}", key="disjoint-storage")
            owner[p] = (i, k)
    mon.event("disjoint-storage", len(owner))


def now(req, run=True):
    """build the requested object in this process, now"""
    if req["t"] in ("lat", "lon"):
        o = table(req)
        return o, observe(req, o)
    if req["t"] == "basis":
        return None, observe(req)
    o = build(req)
    return o, observe(req, o, run)


def run(case, mon):
    rng = np.random.default_rng(case["h"])
    gc.collect()
    pool, why, hurt = [], "start", []  # hurt: modules whose tables were overwritten; they are never run
    base = [req_any(rng) for _ in range(gen.ri(rng, 1, 3))]
    for b in base:
        o, obs = now(b)
        try:
            compare(mon, b, obs, "start" if not pool else "earlier constructions")
        except core.Skip:
            continue
        if o is not None:
            pool.append((b, o))
    for _ in range(case["steps"]):
        step = gen.choice(rng, STEPS)
        mods = [(r, o) for r, o in pool if isinstance(o, torch.nn.Module)]
        if step == "mutate" and pool:
            how = gen.choice(rng, ["nan", "scale", "zero", "one"])
            i = gen.ri(rng, 0, len(pool) - 1)
            r, o = pool[i]
            hurt.append(o)
            n = sum(poison(t, how) for t in (tensors(o).values() if isinstance(o, torch.nn.Module) else o))
            mon.event("mutated", n)
            why = f"in-place {how} of everything held by {r['t'] if r['t'] != 'mod' else r['s']['op']}"
        elif step == "table":
            r = req_table(rng) if rng.random() < 0.4 else near(rng, gen.choice(rng, [b for b in base]))[0]
            if r["t"] not in ("lat", "lon"):
                s = r.get("s", {})
                n = s.get("nlat") or (s.get("inp") or s.get("fine") or [r.get("n", 6)])[0]
                r = {"t": "lat", "n": max(n, 3), "grid": s.get("grid") or s.get("gi") or s.get("gf") or "equiangular", "form": "half"}
            o = table(r)
            pool.append((r, o))
            for t in o:
                poison(t, gen.choice(rng, ["nan", "scale", "zero"]))
            mon.event("table-probe")
            why = "in-place change of a returned table"
        elif step == "convert" and mods:
            r, o = mods[gen.ri(rng, 0, len(mods) - 1)]
            dt = gen.choice(rng, [torch.float64, torch.float16, torch.bfloat16])
            o._apply(lambda t: t.to(dt) if t.is_floating_point() and not t.is_sparse else t)
            why = f"conversion to {dt}"
        elif step == "copy" and mods:
            r, o = mods[gen.ri(rng, 0, len(mods) - 1)]
            c = copy.deepcopy(o) if rng.random() < 0.6 else pickle.loads(pickle.dumps(o))
            pool.append((r, c))
            hurt.append(c)
            for t in tensors(c).values():
                poison(t, "nan")
            why = "poisoned copy"
        elif step == "optim" and mods:
            r, o = mods[gen.ri(rng, 0, len(mods) - 1)]
            ps = list(o.parameters())
            for p in ps:
                p.grad = torch.full_like(p, 0.3)
            if ps:
                torch.optim.SGD(ps, lr=5.0).step()
            why = "optimiser step"
        elif step == "state" and mods:
            r, o = mods[gen.ri(rng, 0, len(mods) - 1)]
            sd = o.state_dict()
            for v in sd.values():
                if isinstance(v, torch.Tensor):
                    poison(v, "scale")
            o.load_state_dict({k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in sd.items()})
            why = "changed and reloaded state"
        elif step == "run" and mods:
            r, o = mods[gen.ri(rng, 0, len(mods) - 1)]
            if r["t"] == "mod" and not any(o is h for h in hurt):
                try:
                    y = o(*[x.requires_grad_(True) for x in ops.inputs(r["s"], B=1)])
                    (y.abs() if y.is_complex() else y).sum().backward()
                except Exception:
                    pass  # a converted module need not run
            why = "forward and backward of a used module"
        elif step == "delete" and pool:
            pool.pop(gen.ri(rng, 0, len(pool) - 1))
            gc.collect()
            why = "deletion"
        elif step == "evict":
            import torch_harmonics as th

            a = gen.ri(rng, 30, 60)
            for n in range(a, a + 22):
                th.quadrature.precompute_latitudes(n, gen.choice(rng, GRIDS[:2] + GRIDS[3:]))
                th.quadrature.precompute_longitudes(n)
            for k in range(21):
                from torch_harmonics.filter_basis import get_filter_basis

                get_filter_basis((k % 7 + 1, k // 7 + 1), "piecewise linear")
            mon.event("evicted")
            why = "eviction from the caches"
        elif step == "context":
            c = gen.choice(rng, ["inference", "nograd", "meta", "float64", "autocast"])
            r, _ = near(rng, gen.choice(rng, base)) if rng.random() < 0.7 else (req_any(rng), "")
            old = torch.get_default_dtype()
            try:
                if c == "float64":
                    torch.set_default_dtype(torch.float64)
                with {"inference": torch.inference_mode, "nograd": torch.no_grad, "meta": lambda: torch.device("meta"), "float64": torch.enable_grad, "autocast": lambda: torch.autocast("cpu", torch.bfloat16)}[c]():
                    if r["t"] in ("lat", "lon"):
                        o = table(r)
                    elif r["t"] == "basis":
                        basis_obs(r)
                    else:
                        build(r)
            except (RuntimeError, ValueError, NotImplementedError, TypeError, AssertionError):
                pass  # whether it can be built in such a context is not the question here
            finally:
                torch.set_default_dtype(old)
            mon.event("context-build")
            why = f"construction under {c}"
            base.append(r)
        elif step == "threads":
            k = gen.ri(rng, 2, 8)
            reqs = [near(rng, gen.choice(rng, base))[0] for _ in range(k)]
            results, sw = [None] * k, sys.getswitchinterval()
            bar = threading.Barrier(k)

            def job(i):
                try:
                    bar.wait(20)
                    o, obs = now(reqs[i], run=False)
                    results[i] = ("ok", o, obs)
                except Exception as e:
                    results[i] = ("error", e)

            sys.setswitchinterval(1e-6)
            st = torch.random.get_rng_state()
            try:
                ths = [threading.Thread(target=job, args=(i,)) for i in range(k)]
                [t.start() for t in ths]
                [t.join(60) for t in ths]
            finally:
                sys.setswitchinterval(sw)
                torch.random.set_rng_state(st)
            mon.event("threads", k)
            mine = []
            for r, res in zip(reqs, results):
                f = fresh(r)
                if f[0] != "ok" or res is None:
                    continue
                if res[0] == "error":
                    raise res[1]
                compare(mon, r, res[2], f"concurrent construction in {k} threads", par=False)
                mon.state("threads", kind(r))
                if res[1] is not None:
                    mine.append((r, res[1]))
            disjoint(mon, pool + mine)
            pool += mine[:2]
            why = "concurrent constructions"
        else:
            continue
        for _ in range(gen.ri(rng, 1, 2)):
            req, rel = near(rng, gen.choice(rng, base)) if rng.random() < 0.85 else (req_any(rng), "new")
            if fresh(req)[0] != "ok":
                continue
            o, obs = now(req)
            compare(mon, req, obs, why)
            mon.state(why, kind(req), rel)
            if o is not None:
                pool.append((req, o))
        if len(pool) > 14:
            del pool[:4]
        disjoint(mon, pool)


def kind(r):
    return r["s"]["op"] if r["t"] == "mod" else r["t"]
