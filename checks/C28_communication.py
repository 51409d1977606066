"""Communication protocol and timing independence of all distributed operations."""
from vlib import simdist  # before torch_harmonics
import torch
from vlib import attn, dist as vd, gen, ring
from checks import C14_neighborhood_attention as c14, C23_distributed_sht as c23, C24_distributed_disco as c24, C25_distributed_attention as c25, C26_distributed_other as c26

PROPERTY = "C28"
TECHNIQUE = "runtime monitoring: programs of one to three real distributed modules (constructed, run forward, and differentiated in varying order, over several steps) are executed on an emulated transport under many seeded schedules; an online checker of the trace specification judges every collective and point-to-point call, receive buffers hold poison until waited for, and results, communication logs and termination are compared between schedules"
NOTE = "process grids up to 12 ranks; SHT and vector SHT, DISCO and its transpose (both orderings), attention, resampling, quadrature and spectral convolution. Schedules are seeded random, run-one-rank-as-far-as-it-goes, first-rank-first and last-rank-first, with early or late message arrival. The transport is emulated; NCCL/Gloo themselves are not."
RULE = "distinct (program, process grid, order of phases) situations and distinct interleavings (sequence of rank switches) observed without a protocol violation"
LEVEL = "exploration"
ASSUMPTIONS = ["the emulated collectives have the semantics torch.distributed documents"]
REQUIRED_EVENTS = ["timing-independent-output", "timing-independent-gradient", "same-protocol", "comm:all_to_all", "comm:all_reduce", "comm:reduce_scatter", "comm:all_gather", "comm:send", "comm:recv", "terminated", "lifecycle", "released-once"]
JOBS = 8
KINDS = ["sht", "isht", "vsht", "ivsht", "disco", "att", "att", "resample", "quad", "specconv"]


def worker_init(*a):
    ring.install()


def draw_op(rng, kind):
    if kind in ("sht", "isht", "vsht", "ivsht"):
        return {"kind": kind, "case": c23.draw(rng, kind)}
    if kind == "disco":
        return {"kind": kind, "case": c24.draw(rng)}
    if kind == "att":
        return {"kind": kind, "case": c25.draw(rng)}
    return {"kind": kind, "case": c26.draw(rng, kind)}


def cases(rng, tier):
    real = vd.grid
    for i in range(30 if tier == "quick" else 200):
        yield {"life": [gen.choice(rng, ["init", "init", "finalize", "debug", "env"]) for _ in range(gen.ri(rng, 2, 9))], "u": int(rng.integers(10**6))}
    for i in range(360 if tier == "quick" else 4000):
        g = real(rng)
        try:
            vd.grid = lambda rng, *a, **k: dict(g)
            ops = [draw_op(rng, gen.choice(rng, KINDS)) for _ in range(gen.choice(rng, [1, 1, 2, 3]))]
        finally:
            vd.grid = real
        for o in ops:
            o["case"].pop("g")
        yield {"g": g, "ops": ops, "order": gen.choice(rng, ["reverse", "same", "each"]), "steps": gen.choice(rng, [1, 1, 2]), "n": 5 if tier == "quick" else 10, "u": int(rng.integers(10**6))}


def prepare_op(o, g):
    case = dict(o["case"], g=g)
    k = o["kind"]
    if k in ("sht", "isht", "vsht", "ivsht"):
        ser, make, xs, ind, outd, _ = c23.setup(case)
        return make, None, vd.data(xs, ind, g), ind
    if k == "disco":
        ser, make, load, xs, ind, outd, _ = c24.setup(case)
    elif k == "att":
        c = case["c"]
        try:
            msk, _, _ = c14.geometry(c)
        except attn.Ambiguous:
            return None
        if not bool(msk.any(1).all()):
            return None
        ser, make, load, xs, ind, outd = c25.setup(case)
    else:
        ser, make, load, xs, ind, outd, _ = c26.setup(case)
    return make, load, vd.data(xs, ind, g), ind


class Fake:
    """a process group that only knows its size and this rank"""

    def __init__(self, n, r):
        self.n, self.r, self.released = n, r, 0


def lifecycle(case, mon):
    """init / finalize / configuration in any order, against a state machine of the documentation"""
    import os
    import random
    import torch.distributed as dist
    import torch_harmonics.distributed as thd
    from torch_harmonics.distributed import utils as U

    rnd = random.Random(case["u"])
    names = {n: getattr(dist, n) for n in ("destroy_process_group", "get_world_size", "get_rank")}
    env = os.environ.get("TORCH_HARMONICS_DISTRIBUTED_DEBUG")
    alive = []

    def destroy(group=None):
        mon.check(isinstance(group, Fake), "released-once", f"finalize releases {group!r}, which is not a registered group (None is the whole job)")
        group.released += 1

    pol = azi = None
    debug = None
    try:
        cfg = type(thd.config)()  # untouched by earlier cases
    except TypeError:
        cfg = None
    try:
        dist.destroy_process_group = destroy
        dist.get_world_size = lambda group=None: group.n
        dist.get_rank = lambda group=None: group.r
        thd.finalize()
        state = False
        for step in case["life"]:
            if step == "init":
                pol, azi = [None if rnd.random() < 0.3 else Fake(rnd.randint(1, 5), 0) for _ in "pa"]
                for f in (pol, azi):
                    if f is not None:
                        f.r = rnd.randrange(f.n)
                        alive.append(f)
                thd.init(pol, azi)
                state = True
            elif step == "finalize":
                before = [f.released for f in alive]
                thd.finalize()
                for f, b in zip(alive, before):
                    mon.check(f.released - b == (f is pol or f is azi), "released-once", f"finalize released a group {f.released - b} times, registered: {f is pol or f is azi}")
                pol = azi = None
                state = False
            elif step == "debug":
                debug = rnd.random() < 0.5
                if cfg is not None:
                    cfg.debug = debug
            elif step == "env":
                os.environ["TORCH_HARMONICS_DISTRIBUTED_DEBUG"] = rnd.choice(["0", "1"])
            want = debug if debug is not None else os.environ.get("TORCH_HARMONICS_DISTRIBUTED_DEBUG", "0") == "1"
            if cfg is not None:
                mon.check(bool(cfg.debug) == want, "configuration", f"debug is {cfg.debug}, set to {debug}, environment {os.environ.get('TORCH_HARMONICS_DISTRIBUTED_DEBUG')}")
            got = (U.is_initialized(), U.is_distributed_polar(), U.is_distributed_azimuth(), U.polar_group_size(), U.azimuth_group_size(), U.polar_group_rank(), U.azimuth_group_rank())
            exp = (state, pol is not None, azi is not None, pol.n if pol else 1, azi.n if azi else 1, pol.r if pol else 0, azi.r if azi else 0)
            mon.check(got == exp, "lifecycle", f"after {step}: (initialized, polar, azimuth, sizes, ranks) = {got}, expected {exp}")
            mon.check(U.polar_group() is pol and U.azimuth_group() is azi, "lifecycle", f"after {step}: other groups are registered")
        thd.finalize()
    finally:
        for n, f in names.items():
            setattr(dist, n, f)
        thd.init(None, None)
        thd.finalize()
        os.environ.pop("TORCH_HARMONICS_DISTRIBUTED_DEBUG", None)
        if env is not None:
            os.environ["TORCH_HARMONICS_DISTRIBUTED_DEBUG"] = env
    mon.state("life", case["life"])


def run(case, mon):
    if "life" in case:
        return lifecycle(case, mon)
    import torch_harmonics.distributed as thd

    g = case["g"]
    progs = [p for p in (prepare_op(o, g) for o in case["ops"]) if p is not None]
    if not progs:
        mon.event("outside-domain")
        return
    order = case["order"]

    def body(p, a, wd):
        out = []
        try:
            mods = []
            for make, load, xs, ind in progs:
                m = make()
                if load is not None:
                    with torch.no_grad():
                        load(m, p, a)
                mods.append(m)
        except ValueError as e:
            return [f"rejected: {type(e).__name__}"]
        for step in range(case["steps"]):
            pend = []
            for (make, load, xs, ind), m in zip(progs, mods):
                loc = [vd.cut(x, d, g, p, a).detach().clone().requires_grad_(True) for x, d in zip(xs, ind)]
                if step:
                    vd.warm(m, loc, g["warm"])
                y = m(*loc)
                out.append(y.detach().clone())
                item = (y, loc, m)
                if order == "each":
                    back(item, out)
                else:
                    pend.append(item)
            for item in reversed(pend) if order == "reverse" else pend:
                back(item, out)
        return out

    def back(item, out):
        y, loc, m = item
        gen_ = torch.Generator().manual_seed(7)
        go = torch.randn(y.shape, generator=gen_, dtype=torch.float64).to(y.dtype)
        ps = [q for q in m.parameters() if q.requires_grad]
        gs = torch.autograd.grad(y, loc + ps, go, allow_unused=True)
        out.extend(None if t is None else t.detach().clone() for t in gs)

    ref = None
    thd.config.debug = g["debug"]
    try:
        for k in range(case["n"]):
            w = vd.world(g, case["u"] + k, ["random", "stick", "first", "last"][k % 4] if k < 4 else "random")
            res = w.run(body)
            mon.event("terminated")
            vd.observe(mon, w)
            logs = [list(w.log[r]) for r in w.glob]
            if any(isinstance(t, str) for r in res for t in r):
                mon.check(len({str([t for t in r if isinstance(t, str)]) for r in res}) == 1, "uniform-rejection", f"only some ranks reject the configuration: {[r[0] if r and isinstance(r[0], str) else 'accepted' for r in res]}")
                return
            if ref is None:
                ref = (res, logs)
                continue
            for i, (x, y) in enumerate(zip(ref[0], res)):
                mon.check(len(x) == len(y), "timing-independent-output", f"rank {i}: {len(x)} results, then {len(y)}")
                for j, (s, t) in enumerate(zip(x, y)):
                    if s is None or t is None:
                        mon.check(s is None and t is None, "timing-independent-gradient", "a gradient exists for one timing only")
                        continue
                    mon.equal(s, t, "timing-independent-output" if j == 0 else "timing-independent-gradient")
            mon.check(ref[1] == logs, "same-protocol", "a rank issued different communication calls under another timing")
    finally:
        thd.config.debug = False
    mon.state([o["kind"] for o in case["ops"]], g["P"], g["A"], order, case["steps"], g["debug"])
