"""Monitors, verdicts and the case runner shared by all checks."""
import collections, hashlib, json, math, os, signal, sys, time, traceback
import multiprocessing as mp
import multiprocessing.connection as mpc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property was observed to be broken. `key` names the mechanism (call site + kind), for known findings."""

    def __init__(self, msg, key="", **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class Inconclusive(Exception):
    """The harness could not observe what it needs; never a verdict."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Mon:
    """Collects what the monitors observed during one case."""

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.deferred = None
        self.worst = {}

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """Record a distinct, non-trivial situation that a monitor actually looked at."""
        self.keys.add("|".join(str(k) for k in key))

    def fail(self, msg, key="", **detail):
        raise Violation(msg, key, **detail)

    def defer(self, msg, key, **detail):
        """A violation that is reported when the case ends, unless another one comes first."""
        if self.deferred is None:
            self.deferred = Violation(msg, key, **detail)

    def check(self, cond, name, msg, key="", **detail):
        self.event(name)
        if not cond:
            raise Violation(f"{name}: {msg}", key or name, **detail)

    def close(self, got, want, rtol, atol, name, key="", scale=None, **detail):
        """Every element of `got` within atol + rtol*scale of `want`; scale defaults to max|want|."""
        import torch

        self.event(name)
        if got is None:
            raise Violation(f"{name}: there is no result", key or name, **detail)
        got = got.detach() if isinstance(got, torch.Tensor) else torch.as_tensor(got)
        want = want.detach() if isinstance(want, torch.Tensor) else torch.as_tensor(want)
        if tuple(got.shape) != tuple(want.shape):
            raise Violation(f"{name}: shape {tuple(got.shape)} != expected {tuple(want.shape)}", key or name, **detail)
        if got.numel() == 0:
            return 0.0
        ct = torch.complex128 if (got.is_complex() or want.is_complex()) else torch.float64
        g, w = got.to(ct), want.to(ct)
        if not bool(torch.isfinite(torch.view_as_real(g) if g.is_complex() else g).all()):
            wf = bool(torch.isfinite(torch.view_as_real(w) if w.is_complex() else w).all())
            if wf:
                raise Violation(f"{name}: non-finite value in the result", key or name, **detail)
        sc = float(w.abs().max()) if scale is None else float(scale)
        err = float((g - w).abs().max())
        tol = atol + rtol * sc
        self.worst[name] = max(self.worst.get(name, 0.0), err / tol if tol > 0 else (math.inf if err > 0 else 0.0))
        if not err <= tol:
            idx = int((g - w).abs().reshape(-1).argmax())
            raise Violation(
                f"{name}: max error {err:.3e} > tolerance {tol:.3e} (scale {sc:.3e}); worst element {idx}: got {g.reshape(-1)[idx].item()} want {w.reshape(-1)[idx].item()}",
                key or name, **detail)
        return err

    def equal(self, got, want, name, key="", **detail):
        """Bitwise equality (NaN equal to NaN)."""
        import torch

        self.event(name)
        same = tuple(got.shape) == tuple(want.shape) and got.dtype == want.dtype
        if same:
            if got.is_complex():
                got, want = torch.view_as_real(got.contiguous()), torch.view_as_real(want.contiguous())
            same = bool(((got == want) | ((got != got) & (want != want))).all())
        if not same:
            d = ""
            if tuple(got.shape) == tuple(want.shape):
                d = f" max diff {float((got.double() - want.double()).abs().max()):.3e}"
            raise Violation(f"{name}: results are not identical{d} ({got.dtype} {tuple(got.shape)} vs {want.dtype} {tuple(want.shape)})", key or name, **detail)


def rng_for(*parts):
    import numpy as np

    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def torch_seed(*parts):
    import torch

    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    torch.manual_seed(int.from_bytes(h[:7], "little"))


def case_id(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def unusable(e):
    """a tensor operation of the monitor failed on what the project returned; never seen where the property holds.
    Missing names, other signatures and exhausted resources are errors of the check instead."""
    m = str(e)
    if isinstance(e, ValueError):
        return "could not be broadcast" in m or "shape mismatch" in m
    words = ("size of tensor", "shape", "dimension", "expected scalar type", "same dtype", "must match", "out of range", "out of bounds", "not broadcastable", "does not match", "are not supported")
    return isinstance(e, (RuntimeError, IndexError)) and not isinstance(e, NotImplementedError) and any(w in m for w in words) and not any(w in m.lower() for w in ("memory", "allocat", "state_dict"))


def run_one(mod, case):
    """Run one case in this process. Returns a plain dict."""
    mon = Mon()
    t0 = time.time()
    res = {"status": "ok"}
    try:
        torch_seed(mod.PROPERTY, case_id(case))
        mod.run(case, mon)
        if mon.deferred is not None:
            raise mon.deferred
    except Skip as e:
        res = {"status": "skip", "msg": str(e)}
    except Violation as e:
        res = {"status": "violation", "msg": e.msg, "key": e.key, "detail": {k: repr(v)[:500] for k, v in e.detail.items()}}
    except Inconclusive as e:
        res = {"status": "inconclusive", "msg": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if "/torch_harmonics/" in f.filename]
        res = {"msg": f"{type(e).__name__}: {e}"[:2000], "trace": traceback.format_exc()[-4000:]}
        # an exception that came out of the project's code on an input the property covers is a violation;
        # one raised by the harness itself is an error of the check.
        if in_repo:
            f = in_repo[-1]
            res.update(status="violation", key=f"exception:{type(e).__name__}:{os.path.basename(f.filename)}:{f.name}", detail={})
            res["msg"] = "unexpected exception on a valid input: " + res["msg"]
        elif any(f.name == "_engine_run_backward" for f in tb[:-1]):  # raised by a custom function's backward, before its own frame
            res.update(status="violation", key=f"exception:{type(e).__name__}:backward", detail={})
            res["msg"] = "unexpected exception in the backward pass of a valid input: " + res["msg"]
        elif unusable(e):
            res.update(status="violation", key=f"unusable:{type(e).__name__}", detail={})
            res["msg"] = "the results cannot be compared with the reference (wrong shape or type): " + res["msg"]
        else:
            res.update(status="inconclusive")
    res["events"] = dict(mon.events)
    res["keys"] = sorted(mon.keys)
    res["worst"] = mon.worst
    res["wall"] = time.time() - t0
    return res


def _worker(mod, conn, threads):
    try:
        _worker_loop(mod, conn, threads)
    except BaseException:  # an error of the harness: a code of its own, so that exit() called by native code can be told apart
        traceback.print_exc()
        os._exit(99)
    os._exit(0) if getattr(mod, "HARD_EXIT", False) else None


def _worker_loop(mod, conn, threads):
    import torch

    torch.set_num_threads(threads)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        if item is None:
            return
        conn.send(run_one(mod, item))


class Pool:
    """Forked workers; a worker that dies names the case that killed it."""

    def __init__(self, mod, n, threads=1):
        self.mod, self.n, self.threads = mod, n, threads
        self.ctx = mp.get_context("fork")
        self.workers = {}

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.mod, b, self.threads), daemon=not getattr(self.mod, "FORKS", False))
        p.start()
        b.close()
        self.workers[a] = [p, None, 0.0]
        return a

    def run(self, cases, timeout, on_result, stop):
        it = iter(enumerate(cases))
        pending, done = True, False
        for _ in range(self.n):
            self.spawn()
        idle = list(self.workers)
        while True:
            while idle and pending and not stop():
                try:
                    i, c = next(it)
                except StopIteration:
                    pending = False
                    break
                w = idle.pop()
                self.workers[w][1:] = [(i, c), time.time()]
                w.send(c)
            if stop():
                pending = False
            busy = [w for w, v in self.workers.items() if v[1] is not None]
            if not busy:
                break
            for w in mpc.wait(busy, timeout=1.0):
                p, (i, c), t0 = self.workers[w]
                try:
                    res = w.recv()
                    self.workers[w][1] = None
                    idle.append(w)
                except (EOFError, ConnectionResetError):
                    p.join()
                    del self.workers[w]
                    code = p.exitcode
                    res = {"status": "crash", "signal": -code if code is not None and code < 0 else 0, "exit": code, "msg": f"process died (exit code {code}) while running the case", "events": {}, "keys": [], "worst": {}, "wall": time.time() - t0}
                    if pending:
                        idle.append(self.spawn())
                on_result(i, c, res)
            now = time.time()
            for w in list(self.workers):
                p, cur, t0 = self.workers[w]
                if cur is not None and now - t0 > timeout:
                    p.kill()
                    p.join()
                    del self.workers[w]
                    if pending:
                        idle.append(self.spawn())
                    on_result(cur[0], cur[1], {"status": "timeout", "msg": f"no answer after {timeout:.0f} s", "events": {}, "keys": [], "worst": {}, "wall": timeout})
        for w, v in list(self.workers.items()):
            try:
                w.send(None)
            except OSError:
                pass
            w.close()
        for w, v in list(self.workers.items()):
            v[0].join(5)
            if v[0].is_alive():
                v[0].kill()
