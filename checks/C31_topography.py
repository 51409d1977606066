"""C31: the cached topography download under failures, crashes, concurrency and repeated use."""
import io, json, os, pickle, shutil, signal, sys, tempfile, time, types, zlib
import numpy as np
import torch

PROPERTY = "C31"
TECHNIQUE = "runtime monitor with fault injection: the real loader runs in forked processes against a stand-in server and a stand-in image decoder, while the transfer is failed, cut short or killed and the file system refuses or kills a write at a chosen byte; an offline checker judges the result of every call of the recorded history against the served image"
NOTE = "failure points are the opening of the connection, every chunk of the transfer and chosen bytes of the write (error or process death), with up to five processes at once. Decoding is done by a stand-in (no image library is installed here), so the JPEG decoder is not judged."
RULE = "distinct (history of faults, requested size, directory choice) situations"
LEVEL = "exploration"
ASSUMPTIONS = ["a file that the decoder rejects makes the call raise", "rename is atomic"]
REQUIRED_EVENTS = ["image", "interpolated", "from-cache", "raised", "killed", "recovered", "concurrent", "default-directory"]
JOBS = 4


def picture(w, h, u):
    rng = np.random.default_rng(u)
    px = rng.integers(0, 256, (h, w), dtype=np.uint8)
    body = px.tobytes()
    return px, b"PIC %d %d %d\n" % (w, h, zlib.crc32(body)) + body


def cases(rng, tier):
    q = tier == "quick"
    steps = ["ok", "hit", "refused", "reset", "short", "killread", "nospace", "killwrite", "many", "manyfault"]
    for i in range(90 if q else 1500):
        hist = [steps[i % len(steps)]] + [steps[int(rng.integers(len(steps)))] for _ in range(int(rng.integers(0, 3)))] + ["ok"]
        w, h = int(rng.integers(2, 40)), int(rng.integers(2, 24))
        size = [None, None]
        if rng.random() < 0.6:
            size = [int(rng.integers(1, 50)), int(rng.integers(1, 60))]
        elif rng.random() < 0.3:
            size = [int(rng.integers(2, 30)), None] if rng.random() < 0.5 else [None, int(rng.integers(2, 30))]
        yield {"hist": hist, "w": w, "h": h, "size": size, "at": float(rng.random()), "dir": bool(rng.random() < 0.75), "u": int(rng.integers(10**6))}


class Reply:
    """a connection that hands out the body in the chunks asked for and may fail on the way"""

    def __init__(self, data, fault, at):
        self.d, self.i, self.fault, self.stop = data, 0, fault, int(at * len(data))
        self.headers = {"Content-Length": str(len(data))}
        self.status = 200

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def info(self):
        return self.headers

    def read(self, n=None):
        time.sleep(0.002)
        end = len(self.d) if n is None or n < 0 else min(len(self.d), self.i + n)
        if self.fault and end >= self.stop:
            if self.fault == "killread":
                os.kill(os.getpid(), signal.SIGKILL)
            if self.fault == "reset":
                raise ConnectionResetError("injected")
            import http.client

            raise http.client.IncompleteRead(self.d[self.i : self.stop])
        out = self.d[self.i : end]
        self.i = end
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def __iter__(self):
        while True:
            d = self.read(64)
            if not d:
                return
            yield d


class Img:
    def __init__(self, a):
        self.a = a

    def convert(self, mode):
        assert mode in ("L", "F")
        return self

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype) if dtype is not None else self.a.copy()


def decode(f, *a, **k):
    raw = f.read() if hasattr(f, "read") else open(f, "rb").read()
    head, _, body = raw.partition(b"\n")
    p = head.split()
    if len(p) != 4 or p[0] != b"PIC" or zlib.crc32(body) != int(p[3]):
        raise OSError("cannot identify image file")
    return Img(np.frombuffer(body, np.uint8).reshape(int(p[2]), int(p[1])))


def child(case, data, d, fault, res, delay):
    """runs in a forked process: one call of the loader, outcome pickled into res"""
    import resource, urllib.request
    import torch_harmonics.utils as U

    pil, im = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
    im.open = decode
    pil.Image = im
    sys.modules["PIL"], sys.modules["PIL.Image"] = pil, im
    asked = []

    def urlopen(req, *a, **k):
        asked.append(1)
        time.sleep(delay)
        if fault == "refused":
            import urllib.error

            raise urllib.error.URLError("injected")
        return Reply(data, fault if fault in ("reset", "short", "killread") else None, case["at"])

    def urlretrieve(url, filename, *a, **k):
        with open(filename, "wb") as f:
            f.write(urlopen(url).read())
        return filename, {}

    urllib.request.urlopen = urlopen
    urllib.request.urlretrieve = urlretrieve
    for n in ("urlopen", "urlretrieve"):
        if hasattr(U, n):
            setattr(U, n, urllib.request.__dict__[n])
    import socket

    socket.socket.connect = None  # nothing may reach a real network
    if fault in ("nospace", "killwrite"):
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault == "killwrite" else signal.SIG_IGN)
        soft = max(1, int(case["at"] * (len(data) - 1)))
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    out = {}
    try:
        kw = {k: v for k, v in zip(("nlat", "nlon"), case["size"]) if v is not None}
        if case["dir"]:
            kw["cache_dir"] = d
        y = U.load_mola_elevation(**kw)
        out = {"y": y.numpy(), "dtype": str(y.dtype)}
    except Exception as e:
        out = {"err": f"{type(e).__name__}: {e}"}
    if fault in ("nospace", "killwrite"):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    out["asked"] = len(asked)
    with open(res, "wb") as f:
        pickle.dump(out, f)


def launch(case, data, d, fault, n):
    pids, res = [], []
    for k in range(n):
        r = os.path.join(d, f"..", f"res{k}")
        if os.path.exists(r):
            os.remove(r)
        pid = os.fork()
        if pid == 0:
            try:
                f = fault[k] if isinstance(fault, list) else fault
                os.environ["TMPDIR"] = d
                tempfile.tempdir = None
                child(case, data, d, f, r, 0.003 * k)
            finally:
                os._exit(0)
        pids.append(pid)
        res.append(r)
    outs = []
    for pid, r in zip(pids, res):
        _, st = os.waitpid(pid, 0)
        outs.append(pickle.load(open(r, "rb")) if os.path.exists(r) else {"dead": os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1})
    return outs


def bilinear(a, H, W):
    """sampling at pixel centres, edge pixels continued outwards"""
    def axis(n, N):
        s = np.clip((np.arange(N) + 0.5) * n / N - 0.5, 0, None)
        i = np.minimum(np.floor(s).astype(int), n - 1)
        return i, np.minimum(i + 1, n - 1), s - i

    i, j, t = axis(a.shape[0], H)
    a = a[i] * (1 - t)[:, None] + a[j] * t[:, None]
    i, j, t = axis(a.shape[1], W)
    return a[:, i] * (1 - t) + a[:, j] * t


def run(case, mon):
    px, data = picture(case["w"], case["h"], case["u"])
    top = tempfile.mkdtemp(prefix="topo")
    d = os.path.join(top, "c")
    os.makedirs(d)
    want = px.astype(np.float64) / 255
    both = None not in case["size"]
    if both:
        want = bilinear(want, *case["size"])
    have, faulted = False, False  # whether a complete call has happened before

    def judge(o, what):
        mon.check("y" in o, "recovered" if faulted else "image", f"after {what} the call failed although the image was served: {o.get('err', o)}")
        mon.check(o["dtype"] == "torch.float32", "image", f"dtype {o['dtype']}")
        mon.check(o["y"].shape == want.shape, "image", f"shape {o['y'].shape}, expected {want.shape}")
        mon.close(torch.from_numpy(o["y"]).double(), torch.from_numpy(want), 1e-5, 2e-6, "interpolated" if both else "image")
        if not case["dir"]:
            mon.event("default-directory")

    try:
        for i, h in enumerate(case["hist"]):
            what = " then ".join(case["hist"][: i + 1])
            if h in ("ok", "hit"):
                (o,) = launch(case, data, d, None, 1)
                judge(o, what)
                if have:
                    mon.check(o["asked"] == 0, "from-cache", f"history {what}: the cached image was requested again")
                    # what is served now no longer matters
                    (o,) = launch(case, picture(3, 3, 1)[1], d, "refused" if h == "hit" else None, 1)
                    judge(o, what)
                have = True
            elif h in ("many", "manyfault"):
                n = 5
                f = [None] * n
                if h == "manyfault":
                    f = ["killread", None, "nospace", "short", None]
                outs = launch(case, data, d, f, n)
                mon.event("concurrent")
                for o, ff in zip(outs, f):
                    if ff is None or have:
                        judge(o, what)
                        have_now = True
                have = True
            else:
                (o,) = launch(case, data, d, h, 1)
                if have:
                    judge(o, what)
                elif "dead" in o:
                    mon.event("killed")
                    faulted = True
                else:
                    mon.check("err" in o, "raised", f"{h}: the call returned {o.get('y')} although the transfer or the write failed")
                    faulted = True
        mon.state(case["hist"], both, case["dir"])
    finally:
        shutil.rmtree(top, ignore_errors=True)
