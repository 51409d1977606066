"""Native kernels are free of data races and independent of the thread count; operators may be called concurrently."""
import ctypes, os, random, sys, threading, time
import torch
from vlib import gen, nbuild, ops, sanbuild
from vlib.core import Inconclusive

PROPERTY = "C19"
TECHNIQUE = "sanitizers: the native kernels are rebuilt from the working tree with threading on and ThreadSanitizer instrumentation, on a small pthread OpenMP runtime whose every ordering the sanitizer sees and which varies team size and injects delays; outputs and gradients are compared across team sizes; operators are called from several application threads with injected preemption at the project's Python lines, every result compared bitwise with the one obtained alone"
NOTE = "CPU kernels of DISCO and local attention, teams of 1 to 8 threads; all serial operators for concurrent callers. The tested build has threading off, so no test exercises any of this."
RULE = "distinct (kernel, direction, longitude ratio, team size, delays, batch/channel extents) situations run with at least one multi-threaded region, and distinct (operator set, number of callers) situations"
LEVEL = "exploration"
REQUIRED_EVENTS = ["canary-race-reported", "no-race-report", "team-size-independent", "team-size-independent-gradient", "parallel-region", "barrier", "caller-gets-own-result", "caller-gets-own-gradient", "preemption"] + ["callers:" + k for k in ops.KINDS]
ASSUMPTIONS = ["gcc's ThreadSanitizer instrumentation at -O1 of the project's translation units; libtorch is not instrumented", "the OpenMP runtime is the harness's own (static, dynamic, guided and runtime schedules, barriers, critical sections, singles, reductions); constructs beyond those would be reported as an error of the check"]
JOBS = 6
CASE_TIMEOUT = 400
HARD_EXIT = True
_log = _dir = None
_rt = []

RACE_CANARY = """
extern "C" long canary_race(long n) { long s = 0; volatile long *p = &s;
#pragma omp parallel
  { for (long i = 0; i < n; i++) *p = *p + 1; }
  return s; }
extern "C" long canary_fine(long n) { long s = 0;
#pragma omp parallel for reduction(+ : s)
  for (long i = 0; i < n; i++) s += i;
  return s; }
"""


def extra(d):
    o = os.path.join(d, "minigomp.o")
    sanbuild.sh(["g++", "-O1", "-g1", "-fPIC", "-fsanitize=thread", "-c", os.path.join(os.path.dirname(sanbuild.__file__), "minigomp.cpp"), "-o", o])
    src = os.path.join(d, "race.cpp")
    with open(src, "w") as fh:
        fh.write(RACE_CANARY)
    sanbuild.sh(["g++", "-shared", "-fPIC", "-O1", "-g1", "-fsanitize=thread", "-fopenmp", "-c", src, "-o", src + ".o"])
    sanbuild.sh(["g++", "-shared", "-Wl,-Bsymbolic", "-fsanitize=thread", src + ".o", o, "-o", os.path.join(d, "race.so")])
    return [o]


def prepare(tier):
    global _log, _dir
    _dir = sanbuild.enter("tsan", sanbuild.TSAN, ["libtsan.so"], {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:die_after_fork=0:history_size=4:second_deadlock_stack=0:detect_deadlocks=0:report_thread_leaks=0:atexit_sleep_ms=0"}, make_extra=extra, link=["-Wl,-Bsymbolic"])
    _log = sanbuild.Log(_dir + "/san")
    for m in ("torch_harmonics.disco._C", "torch_harmonics.attention._C"):
        f = os.path.join(_dir, m + sanbuild.SUF)
        und = [l.split()[-1] for l in sanbuild.sh(["nm", "-u", f]).splitlines() if "GOMP_" in l or " omp_" in l]
        if und:
            raise RuntimeError(f"OpenMP constructs this check's runtime does not provide: {und}")
        _rt.append(ctypes.CDLL(f))


def worker_init():
    _log.redirect()


def team(n, delay=0, seed=1):
    for r in _rt:
        r.mg_set(ctypes.c_int(n), ctypes.c_int(delay), ctypes.c_uint(seed))


def stats(mon):
    t = [0] * 4
    for r in _rt:
        b = (ctypes.c_long * 4)()
        r.mg_stats(b)
        t = [x + int(y) for x, y in zip(t, b)]
    mon.event("parallel-region", t[3])
    mon.event("team-member", t[1])
    mon.event("barrier", t[2])
    return t


def cases(rng, tier):
    n = 60 if tier == "quick" else 500
    yield {"k": "canary"}
    for i in range(n):
        for op in ("disco", "discoT", "natt", "natt"):
            s = ops.spec(rng, op)
            s["impl"] = "opt" if op == "natt" or s["impl"] == "torch" else s["impl"]
            if op == "natt":
                s["norm"] = False
            yield {"k": "kernel", "s": s, "B": gen.choice(rng, [1, 2, 3, 4]), "T": sorted(int(t) for t in rng.choice([2, 3, 4, 5, 8], 2, replace=False)), "delay": gen.choice(rng, [0, 1, 3]), "u": int(rng.integers(10**6)), "dt": gen.choice(rng, ["float32", "float32", "float64"])}
    m = 18 if tier == "quick" else 150
    for i in range(m):
        for k in ops.KINDS:
            ss = [ops.spec(rng, k, small=True)]
            if rng.random() < 0.5:
                ss.append(ops.spec(rng, gen.choice(rng, ops.KINDS), small=True))
            yield {"k": "callers", "s": ss, "N": gen.ri(rng, 2, 5), "T": gen.choice(rng, [1, 1, 2, 3]), "rounds": 2, "u": int(rng.integers(10**6)), "bs": [int(x) for x in rng.integers(1, 4, 6)]}


def reports(mon, what):
    s = _log.new()
    bad = []
    for r in s.split("=================="):
        if "ThreadSanitizer: data race" in r or "ThreadSanitizer: heap-use-after-free" in r:
            # an access by the project's instrumented code on either side
            if "torch_harmonics/" in r or "_helpers" in r or "verif-tsan" in r:
                bad.append(r)
        elif "ThreadSanitizer:" in r and "data race" not in r and ("torch_harmonics/" in r):
            bad.append(r)
    mon.check(not bad, "no-race-report", f"race reported during {what}:\n{sanbuild.brief(bad[0]) if bad else ''}", key="race:" + what)


def fb(mod, xs, g=None):
    z = [t.clone().requires_grad_(True) for t in xs]
    y = mod(*z)
    if g is None:
        g = torch.randn(y.shape, dtype=torch.float64).to(y.dtype)
    ps = [p for p in mod.parameters() if p.requires_grad]
    gr = torch.autograd.grad(y, z + ps, g.to(y.dtype), allow_unused=True)
    return y.detach(), [t for t in gr if t is not None], g


def kernel(case, mon):
    s = case["s"]
    dt = getattr(torch, case["dt"])
    team(1)
    mod = ops.make(s)
    if case["dt"] == "float64":
        mod = mod.double()
    xs = ops.inputs(s, dt, B=case["B"])
    y, gr, g = fb(mod, xs)
    if not bool(torch.isfinite(y).all()):  # empty neighbourhoods
        from vlib.core import Skip

        raise Skip("empty neighbourhood")
    stats(mon)
    what = s["op"]
    tol = ops.tol(s, dt)
    gs = max([float(t.abs().max()) for t in gr] + [1e-30])
    for T in case["T"]:
        team(T, case["delay"], case["u"])
        y2, gr2, _ = fb(mod, xs, g)
        reports(mon, f"{what} with {T} threads")
        st = stats(mon)
        mon.close(y2, y, tol, 1e-30, "team-size-independent")
        for a, b in zip(gr2, gr):
            mon.close(a, b, 0, tol * gs, "team-size-independent-gradient")
        io = [s["inp"], s["out"]] if what == "natt" else [s["fine"], s["coarse"]]
        if st[3]:
            mon.state("kernel", what, s["impl"], io[0][1] / io[1][1], T, case["delay"], case["B"], s["ci"], s.get("H"))
    team(1)


class Preempt:
    """gives other threads the processor at random lines of the project's Python code"""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.n = 0

    def line(self, frame, event, arg):
        if event == "line" and self.rng.random() < 0.2:
            self.n += 1
            time.sleep(0 if self.rng.random() < 0.8 else 0.0002)
        return self.line

    def call(self, frame, event, arg):
        return self.line if "/torch_harmonics/" in frame.f_code.co_filename else None


def callers(case, mon):
    team(1)
    mods = [ops.make(s) for s in case["s"]]
    N = case["N"]
    work = []
    for i in range(N):
        j = i % len(mods)
        s = case["s"][j]
        xs = ops.inputs(s, torch.float32, B=case["bs"][i % len(case["bs"])])
        if s["op"] == "resample" and s["mode"] == "bilinear-spherical":
            xs = [t.tanh() * 0.7 for t in xs]
        work.append((mods[j], xs, s))
    alone = []
    for m, xs, s in work:
        y, gr, g = fb(m, xs)
        alone.append((y, gr, g))
    team(case["T"], 0, case["u"])
    res = [[] for _ in range(N)]
    err = []
    pre = Preempt(case["u"])
    start = threading.Barrier(N)

    def go(i):
        sys.settrace(pre.call)
        try:
            start.wait()
            for r in range(case["rounds"]):
                m, xs, s = work[i]
                res[i].append(fb(m, xs, alone[i][2])[:2])
        except Exception as e:
            err.append((i, e))
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=go, args=(i,)) for i in range(N)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    team(1)
    if err:
        raise err[0][1]
    reports(mon, "concurrent callers of " + "+".join(s["op"] for s in case["s"]))
    mon.event("preemption", pre.n)
    for i in range(N):
        for y, gr in res[i]:
            s = work[i][2]
            native = s["op"] in ("disco", "discoT", "natt") and case["T"] > 1
            if native:
                tol = ops.tol(s, torch.float32)
                if bool(torch.isfinite(alone[i][0]).all()):
                    mon.close(y, alone[i][0], tol, 1e-30, "caller-gets-own-result")
                    gs = max([float(t.abs().max()) for t in alone[i][1]] + [1e-30])
                    for a, b in zip(gr, alone[i][1]):
                        mon.close(a, b, 0, tol * gs, "caller-gets-own-gradient")
            else:
                mon.equal(y, alone[i][0], "caller-gets-own-result", who=s["op"])
                for a, b in zip(gr, alone[i][1]):
                    mon.equal(a, b, "caller-gets-own-gradient", who=s["op"])
    for s in case["s"]:
        mon.event("callers:" + s["op"])
    mon.state("callers", "+".join(s["op"] for s in case["s"]), N, case["T"])


def canary(mon):
    lib = ctypes.CDLL(os.path.join(_dir, "race.so"))
    lib.mg_set(ctypes.c_int(4), ctypes.c_int(1), ctypes.c_uint(3))
    lib.canary_fine.restype = ctypes.c_long
    v = lib.canary_fine(ctypes.c_long(1000))
    s = _log.new()
    if v != 499500 or "data race" in s:
        raise Inconclusive("the runtime mishandles a correct region: " + s[:800])
    lib.canary_race(ctypes.c_long(200))
    s = _log.new()
    if "data race" not in s:
        raise Inconclusive("a planted race was not reported: " + s[:600])
    mon.event("canary-race-reported")
    mon.state("canary")


def run(case, mon):
    _log.new()
    {"canary": lambda: canary(mon), "kernel": lambda: kernel(case, mon), "callers": lambda: callers(case, mon)}[case["k"]]()
