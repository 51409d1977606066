"""What tracing believes about the native operations and modules is what running them does."""
import contextlib, os, shutil, tempfile
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_leaves
from vlib import core, gen, ops
from checks.C21_purity import layout

PROPERTY = "C30"
TECHNIQUE = "runtime monitoring: a dispatch monitor intercepts every call of the project's registered operations inside real forward and backward passes, replays it on fake tensors and compares declared with real shapes, types, strides and aliasing, and compares all arguments before and after; modules run through the graph compiler, fake execution, functional calls and checkpointing are compared with their eager runs"
NOTE = "all serial operators and registered CPU operations; float16/bfloat16/float32/float64, automatic mixed precision, non-contiguous inputs and gradients, every subset of requested gradients; compiler back ends aot_eager (static, dynamic shapes) and, in the thorough tier, inductor. CUDA-only operations cannot run here."
RULE = "distinct (registered operation or operator, options, execution path, request pattern, type, layout) situations compared"
LEVEL = "exploration"
JOBS = 8
CASE_TIMEOUT = 300
REQUIRED_EVENTS = ["declared-shape", "declared-type", "declared-strides", "no-alias", "arguments-untouched", "compiled-output", "compiled-gradient", "dynamic-output", "fake-module", "functional-output", "functional-gradient", "checkpoint-gradient", "opcheck", "contract-compiled"] + [
    "native:" + o for o in ("disco_kernels.forward", "disco_kernels.backward", "disco_kernels._disco_s2_contraction_optimized", "disco_kernels._disco_s2_transpose_contraction_optimized", "disco_kernels._disco_s2_fused_conv_optimized", "attention_kernels.forward", "attention_kernels.backward",
                            "attention_kernels._neighborhood_s2_attention_optimized", "attention_kernels._neighborhood_s2_attention_torch", "attention_kernels.permute_to_nhwc", "attention_kernels.permute_to_nchw")]
NS = ("disco_kernels", "attention_kernels")
_dir = None
NATIVE = ["disco", "disco", "discoT", "discoT", "natt", "natt"]


def prepare(tier):
    global _dir
    _dir = tempfile.mkdtemp(prefix="c30-")
    os.environ["TORCHINDUCTOR_CACHE_DIR"] = _dir
    os.environ["TORCHINDUCTOR_COMPILE_THREADS"] = "1"


def cleanup():
    shutil.rmtree(_dir, ignore_errors=True)


def worker_init():
    import torch._dynamo

    torch._dynamo.config.disable = False
    torch._dynamo.config.recompile_limit = 64


def cases(rng, tier):
    q = tier == "quick"

    def c(k, kind, **kw):
        return dict(k=k, s=ops.spec(rng, kind, small=True), u=int(rng.integers(10**6)), lay=gen.choice(rng, ["same", "sliced", "permuted", "offset", "expanded"]), dt=gen.choice(rng, ["float32", "float32", "float64", "bfloat16", "float16", "autocast"]), ask=int(rng.integers(1, 64)), **kw)

    for i in range(260 if q else 2500):
        yield c("cross", gen.choice(rng, NATIVE + ops.KINDS))
    for i in range(50 if q else 500):
        yield c("opcheck", gen.choice(rng, ["disco", "discoT", "natt"]))
    for i in range(8 if q else 60):
        for kind in ops.KINDS:
            yield c("compile", kind, backend=gen.choice(rng, ["aot_eager", "aot_eager", "eager", "aot_eager_decomp_partition"]), dyn=gen.choice(rng, [None, False, True]), grad=bool(rng.integers(4)))
    for i in range(20 if q else 150):
        for kind in ops.KINDS:
            yield c("fake", kind)
            yield c("func", kind)
    for i in range(3 if q else 12):
        yield c("contract", "specconv")
    if not q:
        for i in range(6):
            for kind in ops.KINDS:
                yield c("compile", kind, backend="inductor", dyn=gen.choice(rng, [None, False, True]), grad=bool(rng.integers(2)))


# ------------------------------------------------------------------ the dispatch monitor
def bits(t):
    return t.detach().resolve_conj().resolve_neg().contiguous().clone()


def same_bits(a, b):
    a, b = (torch.view_as_real(x) if x.is_complex() else x for x in (a, b))
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


class Monitor(TorchDispatchMode):
    def __init__(self, mon, tag, depth=0, skip=None):
        super().__init__()
        self.mon, self.tag, self.depth, self.calls = mon, tag, depth, []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        ns = func.namespace
        if ns not in NS or any(isinstance(t, torch._subclasses.FakeTensor) for t in tree_leaves((args, kwargs))):
            return func(*args, **kwargs)
        return self.watch(func, args, kwargs)

    def watch(self, func, args, kwargs):
        mon, name = self.mon, f"{func.namespace}.{func._schema.name.split('::')[1]}"
        mon.event("native:" + name)
        ins = [t for t in tree_leaves((args, kwargs)) if isinstance(t, torch.Tensor)]
        before = [bits(t) for t in ins]
        if len(self.calls) < 3:
            self.calls.append((func, tree_map(lambda t: t.detach().clone(memory_format=torch.preserve_format) if isinstance(t, torch.Tensor) else t, args), name))
        out = func(*args, **kwargs)
        for i, (t, b) in enumerate(zip(ins, before)):
            mon.check(same_bits(bits(t), b), "arguments-untouched", f"{name} changed its tensor argument {i} although it declares none as mutable")
        outs = [t for t in tree_leaves(out) if isinstance(t, torch.Tensor)]
        st = {t.untyped_storage().data_ptr() for t in ins if t.untyped_storage().nbytes()}
        for i, t in enumerate(outs):
            mon.check(not t.untyped_storage().nbytes() or t.untyped_storage().data_ptr() not in st, "no-alias", f"output {i} of {name} shares memory with an argument although it declares new outputs")
        from torch._subclasses.fake_tensor import FakeTensorMode

        with FakeTensorMode() as fm:
            fa, fk = tree_map(lambda t: fm.from_tensor(t) if isinstance(t, torch.Tensor) else t, (args, kwargs))
            fo = func(*fa, **fk)
        fouts = [t for t in tree_leaves(fo) if isinstance(t, torch.Tensor)]
        mon.check(len(outs) == len(fouts), "declared-shape", f"{name} returns {len(outs)} tensors, declares {len(fouts)}")
        for i, (r, f) in enumerate(zip(outs, fouts)):
            mon.check(tuple(r.shape) == tuple(f.shape), "declared-shape", f"output {i} of {name} has shape {tuple(r.shape)}, tracing is told {tuple(f.shape)}")
            mon.check(r.dtype == f.dtype and r.device == f.device, "declared-type", f"output {i} of {name} has type {r.dtype} on {r.device}, tracing is told {f.dtype} on {f.device}")
            sr, sf = [[s for s, n in zip(x.stride(), x.shape) if n > 1] for x in (r, f)]
            mon.check(sr == sf or r.numel() == 0, "declared-strides", f"output {i} of {name} with shape {tuple(r.shape)} has strides {r.stride()}, tracing is told {f.stride()}")
        mon.state("native", name, self.tag)
        # operations implemented in Python hide the calls they make: watch those as well
        if self.depth == 0:
            opdef = getattr(torch._library.custom_ops, "OPDEFS", {}).get(func._schema.name)
            if opdef is not None:
                fn = opdef._backend_fns.get(ins[0].device.type) or opdef._backend_fns.get(None) or opdef._init_fn
                with torch.no_grad(), Monitor(mon, self.tag, 1) as inner:
                    fn(*args, **kwargs)
                self.calls += inner.calls[:1]
        return out


def dtypes(case, s):
    d = case["dt"]
    if s["op"] in ("sht", "isht", "vsht", "ivsht", "specconv", "resample", "quad") and d in ("bfloat16", "float16", "autocast"):
        d = "float32"
    if s["op"] == "natt" and d == "float64":
        d = "float32"
    if s["op"] == "gatt" and d in ("bfloat16", "float16"):
        d = "float32"
    if s.get("impl") == "torch" and d in ("bfloat16", "float16", "autocast"):
        d = "float32"
    return d


def setup(case, B=None):
    s = case["s"]
    if s["op"] in ("natt", "gatt") and case["dt"] in ("bfloat16", "float16", "autocast"):
        s = dict(s, scale=0.5)
    d = dtypes(case, s)
    m = ops.make(s)
    base = torch.float64 if d == "float64" else torch.float32
    if d == "float64" and s["op"] != "specconv":
        m = m.double()
    xs = ops.inputs(s, base, B=B)
    if d in ("bfloat16", "float16"):
        hd = getattr(torch, d)
        for p in m.parameters():
            p.data = p.data.to(hd)
        xs = [x.to(hd) for x in xs]
    ctx = torch.autocast("cpu", torch.bfloat16) if d == "autocast" else contextlib.nullcontext()
    return s, d, m, xs, ctx


def request(case, m, xs):
    """a subset of leaves whose gradient is requested"""
    leaves = [p for p in m.parameters()]
    for j, p in enumerate(leaves):
        p.requires_grad_(bool((case["ask"] >> (3 + j % 3)) & 1))
    xs = [x.requires_grad_(bool((case["ask"] >> j) & 1)) for j, x in enumerate(xs)]
    if not any(t.requires_grad for t in leaves + xs):
        xs[0].requires_grad_(True)
    return xs


def grads(y, m, xs, g):
    want = [t for t in list(xs) + list(m.parameters()) if t.requires_grad]
    if not want or not y.requires_grad:
        return []
    return torch.autograd.grad(y, want, g, allow_unused=True)


def rerr(mon, got, want, t, name, extra=0.0):
    """relative to the size of the eager result; NaN where eager has NaN"""
    if got is None or want is None:
        mon.check(got is None and want is None, name, "a gradient exists in one execution only")
        return
    w = want.detach()
    mon.check(tuple(got.shape) == tuple(w.shape) and got.dtype == w.dtype, name, f"{tuple(got.shape)} {got.dtype} instead of {tuple(w.shape)} {w.dtype}")
    g = got.detach()
    if g.is_complex():
        g, w = torch.view_as_real(g), torch.view_as_real(w)
    bad = ~torch.isfinite(w)
    mon.check(bool((torch.isfinite(g) == ~bad).all()), name, "not finite in different places")
    g, w = torch.where(bad, 0, g.double()), torch.where(bad, 0, w.double())
    sc = max(float(w.abs().max()) if w.numel() else 0.0, extra)
    mon.close(g, w, t, 1e-30, name, scale=sc)


def tolerance(s, d):
    if d in ("bfloat16", "autocast"):
        return 6e-2
    if d == "float16":
        return 1e-2
    return max(ops.tol(s, torch.float64 if d == "float64" else torch.float32), 1e-6 if d != "float64" else 0)


def tag(case, s, d):
    return f"{s['op']}/{s.get('impl', '')}/{d}/{case['lay']}"


def run(case, mon):
    globals()["run_" + case["k"]](case, mon)


def run_cross(case, mon):
    s, d, m, xs, ctx = setup(case)
    xs = request(case, m, [layout(x, case["lay"]) for x in xs])
    t = f"{tag(case, s, d)}/{case['ask']}"
    with Monitor(mon, t), ctx:
        y = m(*xs)
    with Monitor(mon, t):
        if y.requires_grad:
            g = layout(torch.randn_like(y).contiguous(), case["lay"])
            grads(y, m, xs, g)
            if y.dim() >= 2:
                y2 = m(*xs) if d != "autocast" else None
                if y2 is not None:  # a gradient of broadcast (stride 0) layout, as sum() produces
                    (y2.abs() if y2.is_complex() else y2).sum().backward()
    mon.state("cross", t)


def run_opcheck(case, mon):
    s, d, m, xs, ctx = setup(case)
    xs = request(case, m, xs)
    M = Monitor(mon, tag(case, s, d))
    with M, ctx:
        y = m(*xs)
    with M:
        if y.requires_grad:
            grads(y, m, xs, torch.randn_like(y))
    for func, args, name in M.calls[:4]:
        if d == "float16" or d == "bfloat16" or d == "autocast":
            tests = ("test_schema", "test_faketensor")
        else:
            tests = ("test_schema", "test_autograd_registration", "test_faketensor", "test_aot_dispatch_dynamic")
        if "forward" == name.split(".")[1] or "backward" == name.split(".")[1]:
            tests = ("test_schema", "test_faketensor")
        args = tuple(a.clone().requires_grad_(True) if isinstance(a, torch.Tensor) and a.is_floating_point() and j < 3 and len(tests) > 2 and "permute" not in name and j == 0 else a for j, a in enumerate(args))
        mon.event("opcheck")
        try:
            torch.library.opcheck(func, args, {}, test_utils=tests)
        except Exception as e:
            cause = f"{e.__class__.__name__}: {e}"
            if "OpCheckError" in cause or "opcheck" in cause.lower():
                mon.fail(f"opcheck: {name} {tag(case, s, d)}: {cause[:500]}", key=f"opcheck:{name}")
            raise
        mon.state("opcheck", name, tag(case, s, d))


def run_compile(case, mon):
    import torch._dynamo

    torch._dynamo.reset()
    if case["dt"] == "autocast":
        case = dict(case, dt="float32")
    s, d, m, xs, ctx = setup(case)
    if s["op"] == "natt" and s.get("impl") == "torch":
        s = dict(s, impl="opt")
        m = ops.make(s)
    t = tolerance(s, d)
    xs = request(case, m, xs) if case["grad"] else xs
    f = torch.compile(m, backend=case["backend"], dynamic=case["dyn"])
    how = f"{case['backend']}/{case['dyn']}"
    for rnd in range(3 if case["dyn"] else 2):
        if rnd:
            xs2 = ops.inputs(s, xs[0].real.dtype if xs[0].real.dtype in (torch.float32, torch.float64) else torch.float32, B=s["B"] + (rnd if case["dyn"] else 0))
            xs2 = [x.to(o.dtype) for x, o in zip(xs2, xs)]
            xs = [x.requires_grad_(o.requires_grad) for x, o in zip(xs2, xs)]
        with contextlib.nullcontext() if case["grad"] else torch.no_grad():
            with torch.compiler.set_stance("force_eager"):
                want = m(*xs)
            got = f(*xs)
        sc = ops.out_scale(m, [x.detach() for x in xs], want) if d in ("float32", "float64") else 0.0
        rerr(mon, got, want, t, "compiled-output" if not rnd else "dynamic-output", sc)
        if case["grad"] and want.requires_grad:
            g = torch.randn_like(want)
            with torch.compiler.set_stance("force_eager"):
                wg = grads(want, m, xs, g)
            gg = grads(got, m, xs, g)
            sg = max([float(w.abs().max()) for w in wg if w is not None and w.numel() and bool(torch.isfinite(torch.view_as_real(w) if w.is_complex() else w).all())] + [0.0])
            for a, b in zip(gg, wg):
                rerr(mon, a, b, 10 * t, "compiled-gradient", sg)
        mon.state("compile", s["op"], s.get("impl", ""), how, case["grad"], d, rnd)
    torch._dynamo.reset()


def run_fake(case, mon):
    from torch._subclasses.fake_tensor import FakeTensorMode

    s, d, m, xs, ctx = setup(case)
    if s.get("impl") == "torch" or d == "autocast":
        raise core.Skip("sparse tensors and autocast are outside fake execution")
    xs = [layout(x, case["lay"]) for x in xs]
    with torch.no_grad(), torch.compiler.set_stance("force_eager"):
        want = m(*xs)
        with FakeTensorMode(allow_non_fake_inputs=True) as fm:
            st = {k: fm.from_tensor(v) for k, v in list(m.named_parameters()) + list(m.named_buffers())}
            got = torch.func.functional_call(m, st, tuple(fm.from_tensor(x) for x in xs))
    mon.check(tuple(got.shape) == tuple(want.shape) and got.dtype == want.dtype, "fake-module", f"{s['op']} on fake tensors gives {tuple(got.shape)} {got.dtype}, really {tuple(want.shape)} {want.dtype}")
    mon.state("fake", tag(case, s, d))


def run_func(case, mon):
    from torch.func import functional_call
    from torch.utils.checkpoint import checkpoint

    if case["dt"] == "autocast":
        case = dict(case, dt="float32")
    s, d, m, xs, ctx = setup(case)
    t = tolerance(s, d)
    with torch.compiler.set_stance("force_eager"):
        xs = request(case, m, xs)
        want = m(*xs)
        g = torch.randn_like(want)
        wg = grads(want, m, xs, g)
        sg = max([float(w.detach().abs().max()) for w in wg if w is not None and w.numel()] + [0.0])
        # state handed in from outside, the module itself holding other values
        st = {k: v.detach().clone().requires_grad_(v.requires_grad) for k, v in list(m.named_parameters()) + list(m.named_buffers())}
        m2 = ops.make(dict(s, u=s["u"] + 1))
        if d == "float64" and s["op"] != "specconv":
            m2 = m2.double()
        xs2 = [x.detach().clone().requires_grad_(x.requires_grad) for x in xs]
        got = functional_call(m2, st, tuple(xs2))
        rerr(mon, got, want, t, "functional-output", ops.out_scale(m, [x.detach() for x in xs], want) if d in ("float32", "float64") else 0.0)
        leaves = [x for x in xs2 if x.requires_grad] + [st[k] for k, p in m.named_parameters() if p.requires_grad]
        if leaves and got.requires_grad:
            gg = torch.autograd.grad(got, leaves, g, allow_unused=True)
            for a, b in zip(gg, wg):
                rerr(mon, a, b, 10 * t, "functional-gradient", sg)
        # recomputation in the backward pass
        if wg:
            y = checkpoint(m, *xs, use_reentrant=False)
            for a, b in zip(grads(y, m, xs, g), wg):
                rerr(mon, a, b, 10 * t, "checkpoint-gradient", sg)
        # transforms of functions
        if d in ("float32", "float64") and not xs[0].is_complex() and s["op"] not in ("disco", "discoT", "natt"):  # the framework has no function transforms for registered operations
            x0 = [x.detach() for x in xs]
            y, vjp = torch.func.vjp(lambda *a: m(*a), *x0)
            vg = vjp(g)
            eg = torch.autograd.grad(m(*[x.requires_grad_(True) for x in x0]), x0, g)
            se = max(float(w.abs().max()) for w in eg)
            for a, b in zip(vg, eg):
                rerr(mon, a, b, 10 * t, "functional-gradient", se)
            mon.state("vjp", s["op"], d)
    mon.state("func", tag(case, s, d), case["ask"])


def run_contract(case, mon):
    """the spectral layer compiles its contraction by itself: as shipped vs. compiler off"""
    s = case["s"]
    m = ops.make(s)
    for B in (1, 2):
        xs = [x.requires_grad_(True) for x in ops.inputs(s, B=B)]
        with torch.compiler.set_stance("force_eager"):
            want = m(*xs)
            g = torch.randn_like(want)
            wg = grads(want, m, xs, g)
        got = m(*xs)
        gg = grads(got, m, xs, g)
        sc = ops.out_scale(m, [x.detach() for x in xs], want)
        rerr(mon, got, want, 2e-5, "contract-compiled", sc)
        sg = max(float(w.abs().max()) for w in wg)
        for a, b in zip(gg, wg):
            rerr(mon, a, b, 1e-4, "contract-compiled", sg)
        mon.state("contract", s["G"], s["ci"], s["co"], B)
