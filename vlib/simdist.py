"""An emulated torch.distributed: every rank is a thread of this process, exactly one runs at a time, and a seeded
scheduler decides at every communication call who goes on. Messages are moved by the emulator, which checks the
calls online: members of a group must issue the same collectives with consistent sizes and types, a send must meet
one receive of its size, receive buffers hold poison until they are waited for, send buffers must not change before
they are waited for, and a state in which nobody can go on is a deadlock.

Importing this module replaces functions of torch.distributed by wrappers that use the emulated world of the calling
thread, if there is one, and call the original otherwise. Import it before torch_harmonics.
"""
import hashlib, math, random, sys, threading, traceback
import torch
import torch.distributed as dist

from .core import Inconclusive, Violation

_tls = threading.local()
_orig = {}


def split_sizes(n, k):
    """documented balanced split: the first n % k chunks hold one element more"""
    b, r = divmod(n, k)
    return [b + 1] * r + [b] * (k - r)


def shard(x, dim, k, i):
    s = split_sizes(x.shape[dim], k)
    return x.narrow(dim, sum(s[:i]), s[i])


class Abort(BaseException):
    """unwinds a rank after another one failed"""


class Group:
    def __init__(self, ranks, name):
        self.ranks, self.name = list(ranks), name
        self.slots = []  # collectives in the order posted
        self.count = {r: 0 for r in ranks}

    def __repr__(self):
        return f"{self.name}{self.ranks}"


class Proxy:
    """what the process-wide registration holds: resolves to the calling rank's group"""

    def __init__(self, kind):
        self.kind = kind


class Slot:
    def __init__(self, kind, sig, rank):
        self.kind, self.sig, self.first = kind, sig, rank
        self.posts = {}
        self.done = False


def _me():
    w = getattr(_tls, "world", None)
    if w is None:
        raise Inconclusive("communication outside of a rank")
    return w, _tls.rank


def where():
    f = sys._getframe(1)
    while f is not None:
        if "/torch_harmonics/" in f.f_code.co_filename:
            return f"{f.f_code.co_filename.split('/torch_harmonics/')[-1]}:{f.f_code.co_name}"
        f = f.f_back
    return "harness"


def poison(t):
    if t.is_complex():
        t.fill_(complex(math.nan, math.nan))
    elif t.is_floating_point():
        t.fill_(math.nan)
    elif t.dtype == torch.bool:
        t.fill_(True)
    else:
        t.fill_(-7777777 if t.dtype in (torch.int32, torch.int64) else -77)


def bits_equal(a, b):
    if a.is_complex():
        a, b = torch.view_as_real(a), torch.view_as_real(b)
    return bool(((a == b) | ((a != a) & (b != b))).all())


def is_poison(t):
    p = torch.empty_like(t)
    poison(p)
    return bits_equal(t, p)


class Work:
    """handle of an asynchronous operation"""

    def __init__(self, world, rank, parts):
        self.world, self.rank, self.parts, self.waited = world, rank, parts, False

    def is_completed(self):
        return self.waited

    def wait(self, timeout=None):
        w, r = _me()
        w.sched(r)
        for p in self.parts:
            w.block(r, p.ready, f"wait for {p}")
        for p in self.parts:
            p.finish()
        self.waited = True
        return True


class P2P:
    def __init__(self, world, kind, tensor, me, peer, group, tag):
        self.world, self.kind, self.t, self.me, self.peer, self.group, self.tag = world, kind, tensor, me, peer, group, tag
        self.mate = None
        self.snap = tensor.detach().clone() if kind == "send" else None
        self.delivered = None
        self.finished = False
        self.site = where()

    def __repr__(self):
        return f"{self.kind} of {tuple(self.t.shape)} {self.t.dtype} by rank {self.me} {'to' if self.kind == 'send' else 'from'} rank {self.peer} in {self.group} at {self.site}"

    def ready(self):
        return self.mate is not None

    def deliver(self):
        """move the data into a receive buffer"""
        if self.delivered is None:
            if not is_poison(self.t):
                raise Violation(f"a receive buffer was written while its receive was pending: {self}", "recv-buffer-written")
            self.t.copy_(self.mate.snap.reshape(self.t.shape))
            self.delivered = self.t.detach().clone()

    def finish(self):
        if self.finished:
            return
        self.finished = True
        if self.kind == "send":
            if not bits_equal(self.t, self.snap):
                raise Violation(f"a send buffer was changed before its send was waited for: {self}", "send-buffer-changed")
        else:
            with torch.no_grad():
                self.deliver()
            if not bits_equal(self.t, self.delivered):
                raise Violation(f"a receive buffer was written before its receive was waited for: {self}", "recv-buffer-written")


class Coll:
    """one rank's part of an asynchronous collective"""

    def __init__(self, world, rank, slot, apply, outs, ins):
        self.world, self.rank, self.slot, self.apply, self.outs, self.ins = world, rank, slot, apply, outs, ins
        self.snaps = [t.detach().clone() for t in ins]
        self.done = False
        self.site = where()

    def __repr__(self):
        return f"{self.slot.kind} by rank {self.rank} at {self.site}"

    def ready(self):
        return self.slot.done

    def finish(self):
        if self.done:
            return
        self.done = True
        for t, s in zip(self.ins, self.snaps):
            if not bits_equal(t, s):
                raise Violation(f"an input of an asynchronous collective was changed before it was waited for: {self}", "coll-input-changed")
        for t in self.outs:
            if not is_poison(t):
                raise Violation(f"an output of an asynchronous collective was written before it was waited for: {self}", "coll-output-written")
        self.apply()


class World:
    """P x A process grid. layout: 'row' (azimuth fastest) or 'col'; offset/stride: global numbering of the ranks."""

    def __init__(self, P, A, seed=0, layout="row", offset=0, stride=1, none_p=False, none_a=False, policy="random"):
        self.P, self.A, self.n = P, A, P * A
        self.rng = random.Random(seed)
        self.policy = policy
        self.grid = [(i // A, i % A) if layout == "row" else (i % P, i // P) for i in range(self.n)]
        self.glob = [offset + (stride * i if stride else i * (i + 3) // 2) for i in range(self.n)]  # stride 0: unevenly spaced
        at = {pa: g for pa, g in zip(self.grid, self.glob)}
        self.world = Group(self.glob, "world")
        self.pol = {a: Group([at[p, a] for p in range(P)], f"polar[{a}]") for a in range(A)}
        self.azi = {p: Group([at[p, a] for a in range(A)], f"azimuth[{p}]") for p in range(P)}
        self.polar_arg = None if (none_p and P == 1) else Proxy("polar")
        self.azimuth_arg = None if (none_a and A == 1) else Proxy("azimuth")
        self.index = {g: i for i, g in enumerate(self.glob)}
        self.sem = {g: threading.Semaphore(0) for g in self.glob}
        self.state = {g: "ready" for g in self.glob}
        self.pred = {g: None for g in self.glob}
        self.what = {g: "" for g in self.glob}
        self.aborting = False
        self.errors = []
        self.trace = hashlib.sha256()
        self.switches = 0
        self.current = None
        self.channels = {}
        self.p2p = []
        self.log = {g: [] for g in self.glob}
        self.counts = {}

    # ---- scheduling
    def runnable(self):
        out = []
        for g in self.glob:
            if self.state[g] == "ready" or (self.state[g] == "blocked" and self.pred[g]()):
                out.append(g)
        return out

    def hand_over(self, me, blocked):
        """give the baton to somebody; returns when it is ours again"""
        c = self.runnable()
        if not c:
            if all(self.state[g] == "done" for g in self.glob):
                self.finished.set()
                return
            stuck = "; ".join(f"rank {g} {self.grid[self.index[g]]}: {self.what[g]}" for g in self.glob if self.state[g] == "blocked")
            gone = [g for g in self.glob if self.state[g] == "done"]
            self.fail(me, Violation(f"deadlock: {stuck}; finished ranks {gone}", "deadlock"))
            if blocked:
                raise Abort()
            return
        nxt = self.pick(c, me)
        if nxt == me:
            return
        self.switches += 1
        self.trace.update(bytes([self.index[nxt] & 255]))
        self.current = nxt
        self.sem[nxt].release()
        if self.state[me] != "done":
            self.sem[me].acquire()
            if self.aborting:
                raise Abort()

    def pick(self, c, me):
        if self.policy == "random":
            return self.rng.choice(c)
        if self.policy == "stick":  # run one rank as far as it goes
            return me if me in c and self.rng.random() < 0.9 else self.rng.choice(c)
        if self.policy == "first":
            return c[0]
        if self.policy == "last":
            return c[-1]
        raise AssertionError(self.policy)

    def sched(self, me):
        if self.aborting:
            raise Abort()
        self.state[me] = "ready"
        self.hand_over(me, False)

    def block(self, me, pred, what):
        if self.aborting:
            raise Abort()
        if pred():
            return
        self.state[me], self.pred[me], self.what[me] = "blocked", pred, what
        self.hand_over(me, True)
        self.state[me], self.pred[me], self.what[me] = "ready", None, ""

    def fail(self, rank, exc):
        if not self.aborting:
            self.errors.append((rank, exc))
            self.aborting = True
        for g in self.glob:
            if self.state[g] != "done" and g != rank:
                self.sem[g].release()

    def run(self, fn):
        """fn(p, a, world) on every rank; returns results in the order of self.grid"""
        import torch_harmonics.distributed as thd
        import torch_harmonics.distributed.utils as thu

        res = {}
        self.finished = threading.Event()
        alive = [self.n]

        def body(g):
            self.sem[g].acquire()
            _tls.world, _tls.rank = self, g
            try:
                if self.aborting:
                    raise Abort()
                i = self.index[g]
                res[g] = fn(*self.grid[i], self)
            except Abort:
                pass
            except BaseException as e:
                self.fail(g, e)
            finally:
                _tls.world = None
                self.state[g] = "done"
                alive[0] -= 1
                if self.aborting:
                    if alive[0] == 0:
                        self.finished.set()
                else:
                    try:
                        self.hand_over(g, False)
                    except Abort:
                        pass
                    if self.aborting and alive[0] == 0:
                        self.finished.set()

        saved = (thu._POLAR_PARALLEL_GROUP, thu._AZIMUTH_PARALLEL_GROUP, thu._IS_INITIALIZED) if hasattr(thu, "_POLAR_PARALLEL_GROUP") else None
        thd.init(self.polar_arg, self.azimuth_arg)
        ts = [threading.Thread(target=body, args=(g,), daemon=True) for g in self.glob]
        for t in ts:
            t.start()
        first = self.pick(self.glob, self.glob[0])
        self.current = first
        self.sem[first].release()
        ok = self.finished.wait(300)
        if ok:
            for t in ts:
                t.join(10)
        if saved is not None:
            thu._POLAR_PARALLEL_GROUP, thu._AZIMUTH_PARALLEL_GROUP, thu._IS_INITIALIZED = saved
        if not ok:
            raise Inconclusive("the emulated world did not finish")
        if self.errors:
            g, e = self.errors[0]
            if isinstance(e, Violation):
                e.msg = f"rank {g} {self.grid[self.index[g]]}: {e.msg}"
            raise e
        self.audit()
        return [res[g] for g in self.glob]

    def audit(self):
        """after all ranks returned: nothing may be left over"""
        for grp in [self.world] + list(self.pol.values()) + list(self.azi.values()):
            for i, s in enumerate(grp.slots):
                if not s.done:
                    raise Violation(f"collective {i} ({s.kind}) of {grp} was issued by ranks {sorted(s.posts)} only", "collective-unmatched")
        for p in self.p2p:
            if p.mate is None:
                raise Violation(f"unmatched {p}", "p2p-unmatched")
            if not p.finished:
                if p.kind == "recv":
                    raise Violation(f"never waited for: {p}", "p2p-unwaited")
                if not bits_equal(p.t, p.snap):
                    raise Violation(f"a send buffer was changed although its send was never waited for: {p}", "send-buffer-changed")

    # ---- groups
    def resolve(self, group, me):
        if group is None or group is getattr(dist.group, "WORLD", None):
            return self.world
        if isinstance(group, Proxy):
            p, a = self.grid[self.index[me]]
            return self.pol[a] if group.kind == "polar" else self.azi[p]
        if isinstance(group, Group):
            return group
        raise Inconclusive(f"unknown process group {group!r}")

    # ---- collectives
    def collective(self, kind, group, sig, payload, apply, outs, ins, async_op):
        """sig: what must agree on all members; payload: this rank's contribution; apply(posts) writes the outputs"""
        w, me = _me()
        grp = self.resolve(group, me)
        if me not in grp.ranks:
            raise Violation(f"rank {me} calls {kind} on {grp}, which it does not belong to", "not-a-member")
        for t in list(outs) + list(ins):
            if not t.is_contiguous():
                raise Violation(f"{kind} is given a non-contiguous tensor {tuple(t.shape)} {t.stride()} at {where()}", "non-contiguous")
        self.sched(me)
        self.counts[kind] = self.counts.get(kind, 0) + 1
        i = grp.count[me]
        grp.count[me] += 1
        self.log[me].append((grp.name, kind, sig))
        if i == len(grp.slots):
            grp.slots.append(Slot(kind, sig, me))
        s = grp.slots[i]
        if (s.kind, s.sig) != (kind, sig):
            raise Violation(f"collective {i} of {grp}: rank {s.first} issues {s.kind}{s.sig} but rank {me} issues {kind}{sig} (at {where()})", "collective-mismatch")
        s.posts[me] = payload
        if len(s.posts) == len(grp.ranks):
            s.done = True

        def go():
            with torch.no_grad():
                apply(grp, s.posts, me)

        if async_op:
            part = Coll(self, me, s, go, outs, ins)
            with torch.no_grad():
                alias = {t.data_ptr() for t in ins}
                for t in outs:
                    if t.data_ptr() not in alias:
                        poison(t)
                    else:
                        part.outs = [o for o in part.outs if o.data_ptr() != t.data_ptr()]
            return Work(self, me, [part])
        self.block(me, lambda: s.done, f"{kind}{sig} number {i} on {grp} at {where()}")
        go()
        return None

    # ---- point to point
    def post(self, kind, tensor, peer, group, tag):
        w, me = _me()
        grp = self.resolve(group, me)
        if peer not in grp.ranks or me not in grp.ranks:
            raise Violation(f"{kind}: rank {me} addresses rank {peer}, members of {grp} only", "p2p-peer")
        if not tensor.is_contiguous():
            raise Violation(f"{kind} is given a non-contiguous tensor at {where()}", "non-contiguous")
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.log[me].append((grp.name, kind, peer, tuple(tensor.shape), str(tensor.dtype)))
        for q in self.p2p:
            if q.me == me and not q.finished and q.t.untyped_storage().data_ptr() == tensor.untyped_storage().data_ptr() and "recv" in (q.kind, kind) and self._overlap(q.t, tensor):
                raise Violation(f"{kind} uses a buffer that is still in use by: {q}", "p2p-overlap")
        op = P2P(self, kind, tensor, me, peer, grp, tag)
        if kind == "recv":
            with torch.no_grad():
                poison(tensor)
        self.p2p.append(op)
        key = (grp.name, me, peer, tag) if kind == "send" else (grp.name, peer, me, tag)
        ch = self.channels.setdefault(key, {"send": [], "recv": []})
        other = "recv" if kind == "send" else "send"
        if ch[other]:
            q = ch[other].pop(0)
            if q.t.numel() != tensor.numel() or q.t.dtype != tensor.dtype:
                raise Violation(f"{op} meets {q}: sizes or types differ", "p2p-mismatch")
            q.mate, op.mate = op, q
            r = op if kind == "recv" else q
            if self.rng.random() < 0.4:  # arrives early
                with torch.no_grad():
                    r.deliver()
        else:
            ch[kind].append(op)
        return op

    @staticmethod
    def _overlap(a, b):
        if a.numel() == 0 or b.numel() == 0:
            return False
        a0, b0 = a.data_ptr(), b.data_ptr()
        return a0 < b0 + b.numel() * b.element_size() and b0 < a0 + a.numel() * a.element_size()


# ------------------------------------------------------------------ the torch.distributed functions


def _op_name(op):
    return str(op).split(".")[-1].upper()


def _dt(t):
    return str(t.dtype).replace("torch.", "")


def _reduced(tensors, op):
    n = _op_name(op)
    acc = tensors[0].clone()
    for t in tensors[1:]:
        if n in ("SUM", "AVG"):
            acc = acc + t
        elif n == "MAX":
            acc = torch.maximum(acc, t)
        elif n == "MIN":
            acc = torch.minimum(acc, t)
        elif n == "PRODUCT":
            acc = acc * t
        else:
            raise Inconclusive(f"reduction {n} is not emulated")
    return acc / len(tensors) if n == "AVG" else acc


def get_world_size(group=None):
    w, me = _me()
    return len(w.resolve(group, me).ranks)


def get_rank(group=None):
    w, me = _me()
    g = w.resolve(group, me)
    return me if g is w.world else g.ranks.index(me)


def get_process_group_ranks(group=None):
    w, me = _me()
    return list(w.resolve(group, me).ranks)


def get_group_rank(group, global_rank):
    w, me = _me()
    return w.resolve(group, me).ranks.index(global_rank)


def get_global_rank(group, group_rank):
    w, me = _me()
    return w.resolve(group, me).ranks[group_rank]


def is_initialized():
    return True


def is_available():
    return True


def get_backend(group=None):
    return "nccl"


def destroy_process_group(group=None):
    return None


def barrier(group=None, async_op=False, device_ids=None):
    w, me = _me()
    return w.collective("barrier", group, (), None, lambda g, p, r: None, [], [], async_op)


def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    w, me = _me()

    def apply(g, posts, r):
        tensor.copy_(_reduced([posts[k] for k in g.ranks], op).reshape(tensor.shape))

    return w.collective("all_reduce", group, (_dt(tensor), tensor.numel(), _op_name(op)), tensor.detach().clone(), apply, [], [tensor] if not async_op else [], async_op)


def broadcast(tensor, src=None, group=None, async_op=False, group_src=None):
    w, me = _me()
    g0 = w.resolve(group, me)
    root = g0.ranks[group_src] if group_src is not None else src

    def apply(g, posts, r):
        tensor.copy_(posts[root].reshape(tensor.shape))

    return w.collective("broadcast", group, (_dt(tensor), tensor.numel(), root), tensor.detach().clone(), apply, [], [tensor], async_op)


def all_gather(tensor_list, tensor, group=None, async_op=False):
    w, me = _me()
    g0 = w.resolve(group, me)
    if len(tensor_list) != len(g0.ranks):
        raise Violation(f"all_gather on {g0}: {len(tensor_list)} output tensors", "collective-arguments")

    def apply(g, posts, r):
        for t, k in zip(tensor_list, g.ranks):
            src = posts[k]
            if t.numel() != src.numel() or t.dtype != src.dtype:
                raise Violation(f"all_gather on {g}: rank {r} expects {tuple(t.shape)} {t.dtype} from rank {k}, which sends {tuple(src.shape)} {src.dtype}", "collective-mismatch")
            t.copy_(src.reshape(t.shape))

    return w.collective("all_gather", group, (_dt(tensor),), tensor.detach().clone(), apply, list(tensor_list), [tensor], async_op)


def all_gather_into_tensor(output_tensor, input_tensor, group=None, async_op=False):
    w, me = _me()

    def apply(g, posts, r):
        output_tensor.copy_(torch.cat([posts[k].reshape(-1) for k in g.ranks]).reshape(output_tensor.shape))

    n = len(w.resolve(group, me).ranks)
    if output_tensor.numel() != n * input_tensor.numel():
        raise Violation("all_gather_into_tensor: output size", "collective-arguments")
    return w.collective("all_gather_into_tensor", group, (_dt(input_tensor), input_tensor.numel()), input_tensor.detach().clone(), apply, [output_tensor], [input_tensor], async_op)


def reduce_scatter(output, input_list, op=dist.ReduceOp.SUM, group=None, async_op=False):
    w, me = _me()
    g0 = w.resolve(group, me)
    if len(input_list) != len(g0.ranks):
        raise Violation(f"reduce_scatter on {g0}: {len(input_list)} input tensors", "collective-arguments")
    if any(t.numel() != output.numel() or t.dtype != output.dtype for t in input_list):
        raise Violation(f"reduce_scatter on {g0} at {where()}: chunk sizes {[tuple(t.shape) for t in input_list]} differ (output {tuple(output.shape)})", "reduce-scatter-uneven")

    def apply(g, posts, r):
        i = g.ranks.index(r)
        output.copy_(_reduced([posts[k][i] for k in g.ranks], op).reshape(output.shape))

    return w.collective("reduce_scatter", group, (_dt(output), output.numel(), _op_name(op)), [t.detach().clone() for t in input_list], apply, [output], list(input_list), async_op)


def reduce_scatter_tensor(output, input, op=dist.ReduceOp.SUM, group=None, async_op=False):
    w, me = _me()
    n = len(w.resolve(group, me).ranks)
    if input.numel() != n * output.numel():
        raise Violation("reduce_scatter_tensor: input size", "collective-arguments")

    def apply(g, posts, r):
        i = g.ranks.index(r)
        output.copy_(_reduced([posts[k].reshape(n, -1)[i] for k in g.ranks], op).reshape(output.shape))

    return w.collective("reduce_scatter_tensor", group, (_dt(output), output.numel(), _op_name(op)), input.detach().clone(), apply, [output], [input], async_op)


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    w, me = _me()
    g0 = w.resolve(group, me)
    if len(output_tensor_list) != len(g0.ranks) or len(input_tensor_list) != len(g0.ranks):
        raise Violation(f"all_to_all on {g0}: {len(input_tensor_list)} inputs, {len(output_tensor_list)} outputs", "collective-arguments")

    def apply(g, posts, r):
        i = g.ranks.index(r)
        for t, k in zip(output_tensor_list, g.ranks):
            src = posts[k][i]
            if t.numel() != src.numel() or t.dtype != src.dtype:
                raise Violation(f"all_to_all on {g}: rank {r} expects {tuple(t.shape)} {t.dtype} from rank {k}, which sends {tuple(src.shape)} {src.dtype}", "collective-mismatch")
            t.copy_(src.reshape(t.shape))

    return w.collective("all_to_all", group, (_dt(input_tensor_list[0]),), [t.detach().clone() for t in input_tensor_list], apply, list(output_tensor_list), list(input_tensor_list), async_op)


def all_to_all_single(output, input, output_split_sizes=None, input_split_sizes=None, group=None, async_op=False):
    w, me = _me()
    n = len(w.resolve(group, me).ranks)
    osz = list(output_split_sizes) if output_split_sizes else [output.shape[0] // n] * n
    isz = list(input_split_sizes) if input_split_sizes else [input.shape[0] // n] * n
    outs, ins = list(torch.split(output, osz)), list(torch.split(input, isz))
    return all_to_all(outs, ins, group=group, async_op=async_op)


def _peer(w, me, peer, group, group_peer):
    return w.resolve(group, me).ranks[group_peer] if group_peer is not None else peer


def isend(tensor, dst=None, group=None, tag=0, group_dst=None):
    w, me = _me()
    w.sched(me)
    return Work(w, me, [w.post("send", tensor, _peer(w, me, dst, group, group_dst), group, tag)])


def irecv(tensor, src=None, group=None, tag=0, group_src=None):
    w, me = _me()
    w.sched(me)
    return Work(w, me, [w.post("recv", tensor, _peer(w, me, src, group, group_src), group, tag)])


def send(tensor, dst=None, group=None, tag=0, group_dst=None):
    isend(tensor, dst, group, tag, group_dst).wait()


def recv(tensor, src=None, group=None, tag=0, group_src=None):
    irecv(tensor, src, group, tag, group_src).wait()


class P2POp:
    def __init__(self, op, tensor, peer=None, group=None, tag=0, group_peer=None):
        self.op, self.tensor, self.peer, self.group, self.tag, self.group_peer = op, tensor, peer, group, tag, group_peer


def batch_isend_irecv(p2p_op_list):
    w, me = _me()
    w.sched(me)
    parts = []
    for o in p2p_op_list:
        kind = {"isend": "send", "irecv": "recv"}[getattr(o.op, "__name__", str(o.op))]
        parts.append(w.post(kind, o.tensor, _peer(w, me, o.peer, o.group, o.group_peer), o.group, o.tag))
    if w.rng.random() < 0.5:
        return [Work(w, me, parts)]
    return [Work(w, me, [p]) for p in parts]


NAMES = ["get_world_size", "get_rank", "get_process_group_ranks", "get_group_rank", "get_global_rank", "is_initialized", "is_available", "get_backend", "destroy_process_group", "barrier", "all_reduce", "broadcast",
         "all_gather", "all_gather_into_tensor", "reduce_scatter", "reduce_scatter_tensor", "all_to_all", "all_to_all_single", "isend", "irecv", "send", "recv", "batch_isend_irecv"]


def _install():
    import functools

    for n in NAMES:
        mine, orig = globals()[n], getattr(dist, n)
        _orig[n] = orig

        def wrap(*a, _mine=mine, _orig=orig, **k):
            if getattr(_tls, "world", None) is None:
                return _orig(*a, **k)
            return _mine(*a, **k)

        wrap.__name__ = n
        setattr(dist, n, wrap)
    orig_op = dist.P2POp
    dist.P2POp = lambda *a, **k: (orig_op if getattr(_tls, "world", None) is None else P2POp)(*a, **k)


_install()

