"""C36: the Stanford 2D-3D-S download, extraction, conversion and readers, under failures and hostile archives."""
import hashlib, io, os, pickle, shutil, signal, sys, tarfile, tempfile, types
import numpy as np
import torch
from vlib import ref

PROPERTY = "C36"
TECHNIQUE = "runtime monitor with fault injection: the real downloader runs in forked, unprivileged processes in a scratch directory against a stand-in server (refusals, resets, silent truncation, tampering, honoured and ignored range requests), hostile archives and process death during the transfer or the extraction; an offline checker compares the files inside and outside the directory with the archive; the converter and the readers run on generated images with stand-ins for the image and HDF5 libraries and are judged against the pixels"
NOTE = "transfers fail at any byte, extraction dies at any member, archives carry escaping names and links; both the extraction filter of current Pythons and the fallback for older ones run. No image or HDF5 library is installed here, so stand-ins decode, resize and store."
RULE = "distinct (history of faults, archive kind, verification mode) or (image count, size, options) situations"
LEVEL = "exploration"
ASSUMPTIONS = ["the stand-ins for requests, PIL and h5py behave like the libraries in what the code uses (h5py returns copies, and keeps what was written when the body of the with statement raises)"]
REQUIRED_EVENTS = ["installed", "refused", "contained", "killed", "recovered", "resumed", "images", "labels", "depth", "statistics", "reader-segmentation", "reader-depth", "subset", "conversion-failed"]
JOBS = 4
STEPS = ["ok", "refused", "reset", "short", "tampered", "killread", "killextract", "stale"]
EVIL = ["dotdot", "absolute", "symlink", "hardlink", "nested", "chain"]


def cases(rng, tier):
    q = tier == "quick"
    for i in range(220 if q else 3000):
        checks = ["known", "known", "none", "missing"][int(rng.integers(4))]
        pool = STEPS if checks == "known" else ["ok", "refused", "reset", "killread", "killextract"]
        hist = [pool[i % len(pool)]] + [pool[int(rng.integers(len(pool)))] for _ in range(int(rng.integers(0, 4)))] + ["ok"]
        yield {"k": "fetch", "hist": hist, "checks": checks, "at": float(rng.random()), "range": bool(rng.random() < 0.6), "dirs": bool(rng.random() < 0.6), "old": bool(rng.random() < 0.3), "u": int(rng.integers(10**6))}
    for i in range(60 if q else 600):
        yield {"k": "evil", "kind": EVIL[i % len(EVIL)], "checks": ["known", "none"][int(rng.integers(2))], "old": bool(i // len(EVIL) % 2), "first": bool(rng.random() < 0.5), "u": int(rng.integers(10**6))}
    for i in range(90 if q else 1200):
        f = [1, 1, 2, 3][int(rng.integers(4))]
        yield {"k": "convert", "n": int(rng.integers(2, 5)), "h": int(rng.integers(3, 12)) * f, "w": int(rng.integers(4, 18)) * f, "f": f, "alpha": bool(rng.random() < 0.5), "fail": bool(rng.random() < 0.25), "polar": float([0, 0, 0.1, 0.26, 0.4][int(rng.integers(5))]), "log": bool(rng.random() < 0.5), "folders": int(rng.integers(1, 3)), "u": int(rng.integers(10**6))}


# ---------------------------------------------------------------- archives and server
def member(tar, name, data=None, **kw):
    t = tarfile.TarInfo(name)
    for k, v in kw.items():
        setattr(t, k, v)
    if data is not None:
        t.size = len(data)
    elif not kw:
        t.type, t.mode = tarfile.DIRTYPE, 0o755
    tar.addfile(t, io.BytesIO(data) if data is not None else None)


def archive(folder, u, dirs):
    rng = np.random.default_rng(u)
    files = {f"{folder}/{d}/f{i}.bin": rng.bytes(int(rng.integers(1, 6000))) for d in ("pano/rgb", "pano/depth") for i in range(int(rng.integers(1, 4)))}
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as tar:
        member(tar, folder)
        if dirs:
            for d in ("pano", "pano/rgb", "pano/depth"):
                member(tar, f"{folder}/{d}")
        for k, v in files.items():
            member(tar, k, v)
    return b.getvalue(), files


def evil(kind, top, first):
    b = io.BytesIO()
    out = os.path.join(top, "out")
    with tarfile.open(fileobj=b, mode="w") as tar:
        member(tar, "area")
        if not first:
            member(tar, "area/a.bin", b"harmless")
        if kind == "dotdot":
            member(tar, "area/../../out/x", b"evil")
        elif kind == "absolute":
            member(tar, out + "/x", b"evil")
        elif kind == "symlink":
            member(tar, "area/ln", type=tarfile.SYMTYPE, linkname=out)
            member(tar, "area/ln/x", b"evil")
        elif kind == "nested":
            member(tar, "area/ln", type=tarfile.SYMTYPE, linkname="../../out")
            member(tar, "area/ln/x", b"evil")
        elif kind == "hardlink":
            member(tar, "area/ln", type=tarfile.LNKTYPE, linkname="../out/keep")
            member(tar, "area/ln", b"evil")
        elif kind == "chain":
            member(tar, "area/s", type=tarfile.SYMTYPE, linkname="..")  # the directory itself
            member(tar, "area/s/t", type=tarfile.SYMTYPE, linkname="..")  # lands in the directory, points above it
            member(tar, "t/out/x", b"evil")
        if first:
            member(tar, "area/a.bin", b"harmless")
    return b.getvalue()


class HTTPError(OSError):
    pass


class Response:
    def __init__(self, body, status, fault=None, stop=None):
        self.body, self.status_code, self.fault, self.stop = body, status, fault, stop
        self.headers = {"content-length": str(len(body))}
        self.ok = status < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(self.status_code)

    def iter_content(self, chunk_size=1):
        for i in range(0, len(self.body), chunk_size):
            c = self.body[i : i + chunk_size]
            if self.fault and i + len(c) >= self.stop:
                yield c[: max(0, self.stop - i)]
                if self.fault == "killread":
                    os.kill(os.getpid(), signal.SIGKILL)
                if self.fault == "reset":
                    raise ConnectionResetError("injected")
                return  # cut short without notice
            yield c

    @property
    def content(self):
        return b"".join(self.iter_content(1024))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def json(self):
        return ["clutter_1"]


class Bar:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def close(self):
        pass


def fetch_child(case, data, digest, top, fault, res):
    """runs in a forked process without privileges: one call of the downloader"""
    import torch_harmonics.examples.stanford_2d3ds_dataset as S

    req, tq = types.ModuleType("requests"), types.ModuleType("tqdm")
    tq.tqdm = Bar
    log = {"asked": 0, "partial": 0}

    def get(url, headers=None, stream=False, timeout=None, **kw):
        if not url.endswith(".tar"):
            return Response(b"[]", 200)
        log["asked"] += 1
        if fault == "refused":
            raise ConnectionError("injected")
        r = (headers or {}).get("Range")
        body, status = data, 200
        if r and case["range"]:
            n = int(r.split("=")[1].rstrip("-"))
            if n >= len(data):
                return Response(b"", 416)
            body, status = data[n:], 206
            log["partial"] += 1
        f = fault if fault in ("reset", "short", "killread") else None
        return Response(body, status, f, max(1, int(case["at"] * (len(body) - 1))))

    req.get = get
    req.exceptions = types.SimpleNamespace(HTTPError=HTTPError, RequestException=OSError)
    sys.modules["requests"], sys.modules["tqdm"] = req, tq
    import socket

    socket.socket.connect = None  # nothing may reach a real network
    if case.get("old") and hasattr(tarfile, "data_filter"):
        del tarfile.data_filter
    if fault == "killextract":
        plain, left = tarfile.copyfileobj, [1 + int(case["at"] * 2)]

        def copy(src, dst, *a, **k):
            left[0] -= 1
            if left[0] < 0:
                os.kill(os.getpid(), signal.SIGKILL)
            return plain(src, dst, *a, **k)

        tarfile.copyfileobj = copy
    sums = {"known": {"area.tar": digest}, "none": None, "missing": {"other.tar": digest}}[case["checks"]]
    out = {}
    try:
        d = S.Stanford2D3DSDownloader(base_url="http://server/", local_dir=os.path.join(top, "data"), checksums=sums)
        out["folders"] = d.download_dataset([("area.tar", "area")])[0]
    except Exception as e:
        out["err"] = f"{type(e).__name__}: {e}"
    out.update(log)
    with open(res, "wb") as f:
        pickle.dump(out, f)


def launch(case, data, digest, top, fault):
    res = os.path.join(top, "res")
    if os.path.exists(res):
        os.remove(res)
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            fetch_child(case, data, digest, top, fault, res)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return pickle.load(open(res, "rb")) if os.path.exists(res) else {"dead": os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1}


def tree(root):
    got = {}
    for d, ds, fs in os.walk(root):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            got[os.path.relpath(p, root)] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return got


def scratch():
    top = tempfile.mkdtemp(prefix="area")
    os.makedirs(os.path.join(top, "out"))
    open(os.path.join(top, "out", "keep"), "wb").write(b"untouched")
    for p in (top, os.path.join(top, "out"), os.path.join(top, "out", "keep")):
        os.chown(p, 65534, 65534)
    return top


def outside(top):
    return {k: v for k, v in tree(top).items() if not k.startswith("data" + os.sep) and k != "res"}


def same(mon, got, want, name):
    mon.check(got == want, name, f"files differ: {sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[:5]}")


def fetch(case, mon):
    import torch_harmonics.examples.stanford_2d3ds_dataset  # noqa: F401  loaded before privileges are dropped

    top = scratch()
    try:
        data, files = archive("area", case["u"], case["dirs"])
        bad = bytearray(data)
        bad[int(case["at"] * (len(files) and 5000)) % len(data)] ^= 1
        digest = hashlib.sha256(data).hexdigest()
        local = os.path.join(top, "data", "area.tar")
        part = os.path.join(top, "data", "area.part")
        before = outside(top)
        have, faulted, dirty, torn = False, False, False, False
        for i, h in enumerate(case["hist"]):
            what = " then ".join(case["hist"][: i + 1])
            if h == "stale":  # an interrupted transfer of another version of the file
                if not have and not os.path.exists(part) and os.path.isdir(os.path.join(top, "data")):
                    with open(part, "wb") as f:
                        f.write(bytes(bad)[: 1 + len(data) // 2])
                    os.chown(part, 65534, 65534)
                    dirty = True
                continue
            o = launch(case, bytes(bad) if h == "tampered" else data, digest, top, h)
            same(mon, outside(top), before, "contained")
            if "folders" in o and o.get("partial"):
                mon.event("resumed")
            if "dead" in o:
                mon.event("killed")
                torn = torn or h == "killextract"
                faulted = True
                continue
            if "err" in o:
                mon.event("refused")
                if have:
                    mon.fail(f"history {what}: the data set is there, but the call failed: {o['err']}", "installed")
                if h == "ok" and not (dirty or os.path.exists(local) or os.path.exists(part) or faulted):
                    mon.fail(f"history {what}: a good transfer was refused: {o['err']}", "installed")
                if h != "ok":
                    mon.check(not os.path.exists(os.path.join(top, "data", "area")) or torn, "refused", f"history {what}: the call failed, but files were extracted")
                    faulted = True
                    continue
                # what the message asks for: remove the archive (and what is left of the transfer), retry
                for p in (local, part):
                    if os.path.exists(p):
                        os.remove(p)
                dirty = False
                o = launch(case, data, digest, top, None)
                mon.check("folders" in o, "recovered", f"history {what}: not repaired by removing the archive and trying again: {o}")
            if h in ("refused", "reset", "short", "tampered", "killread") and not have and not torn and o.get("asked") and not (h in ("short", "tampered") and o.get("partial")):
                mon.fail(f"history {what}: the call succeeded although the transfer failed", "refused")
            got = {k: v for k, v in tree(os.path.join(top, "data")).items() if k.startswith("area" + os.sep)}
            mon.check(o["folders"] == ["area"], "installed", f"folders {o['folders']}")
            if torn and not have and set(got) < set(files):
                mon.defer(f"history {what}: the folder of an interrupted extraction is taken for the data set, {len(got)} of {len(files)} files", "partial-extraction-taken-as-complete")
                return
            if torn and not have and set(got) == set(files) and any(got[k] != files[k] for k in files) and all(files[k].startswith(got[k]) for k in files):
                mon.defer(f"history {what}: the folder of an interrupted extraction is taken for the data set, with files cut short", "partial-extraction-taken-as-complete")
                return
            same(mon, got, files, "recovered" if faulted else "installed")
            have = True
        mon.state(case["hist"], case["checks"], case["range"], case["old"])
    finally:
        shutil.rmtree(top, ignore_errors=True)


def hostile(case, mon):
    import torch_harmonics.examples.stanford_2d3ds_dataset  # noqa: F401

    top = scratch()
    try:
        data = evil(case["kind"], top, case["first"])
        before = outside(top)
        o = launch({**case, "range": False, "at": 0.5}, data, hashlib.sha256(data).hexdigest(), top, None)
        after = outside(top)
        mon.event("contained")
        if after != before:
            msg = f"archive with {case['kind']} members wrote outside of the directory: {sorted(set(after) ^ set(before)) or 'changed a file'} ({o})"
            if case["old"] and case["kind"] in ("chain", "hardlink"):
                mon.defer(msg, f"{case['kind']}-escapes-without-data-filter")
            else:
                mon.fail(msg, "contained")
        mon.state(case["kind"], case["old"], case["checks"], case["first"])
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ---------------------------------------------------------------- images and dataset file
class Img:
    def __init__(self, a):
        self.a = np.asarray(a)

    @property
    def size(self):
        return self.a.shape[1], self.a.shape[0]

    def resize(self, size, resample=None, **k):
        w, h = size
        a = self.a
        i = ((np.arange(h) + 0.5) * a.shape[0] / h).astype(int)
        j = ((np.arange(w) + 0.5) * a.shape[1] / w).astype(int)
        if resample == 0:
            return Img(a[i][:, j])
        fi, fj = a.shape[0] // h, a.shape[1] // w
        b = a[: h * fi, : w * fj].astype(np.float64).reshape((h, fi, w, fj) + a.shape[2:]).mean((1, 3))
        return Img(np.rint(b).astype(a.dtype))

    def convert(self, mode):
        a = self.a
        if mode == "RGBA" and a.shape[2] == 3:
            a = np.concatenate([a, np.full_like(a[..., :1], 255)], 2)
        elif mode == "RGB":
            a = a[..., :3]
        else:
            assert mode == "RGBA"
        return Img(a)

    def __array__(self, dtype=None, copy=None):
        return self.a.astype(dtype) if dtype is not None else self.a.copy()


def compose(bg, fg):
    al = fg[..., 3:].astype(np.float64) / 255
    o = np.rint(fg[..., :3] * al + bg[..., :3] * (1 - al))
    return np.concatenate([o, np.full(o.shape[:2] + (1,), 255)], 2).astype(np.uint8)


class Data:
    def __init__(self, a):
        self.a = a

    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)

    def __len__(self):
        return len(self.a)

    def __getitem__(self, i):
        r = self.a[i]
        if self.a.dtype == object:
            enc = lambda x: x.encode() if isinstance(x, str) else x
            return np.array([enc(x) for x in r.ravel()], dtype=object).reshape(r.shape) if isinstance(r, np.ndarray) else enc(r)
        return np.array(r)

    def __setitem__(self, i, v):
        self.a[i] = v


class File:
    def __init__(self, path, mode="r", **k):
        self.path, self.mode, self.d = path, mode, {}
        if mode == "w":
            self.flush()
        else:
            self.d = {k: Data(v) for k, v in pickle.load(open(path, "rb")).items()}

    def flush(self):
        with open(self.path, "wb") as f:
            pickle.dump({k: v.a for k, v in self.d.items()}, f)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is not None:
            a = np.array(data, dtype=object) if len(np.shape(data)) and isinstance(data[0], str) else np.array(data)
        else:
            a = np.full(shape, "", dtype=object) if dtype == "str" else np.zeros(shape, dtype)
        self.d[name] = Data(a)
        return self.d[name]

    def __getitem__(self, k):
        return self.d[k]

    def keys(self):
        return self.d.keys()

    def close(self):
        if self.mode == "w":
            self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def convert(case, mon):
    import contextlib
    import torch_harmonics.examples.stanford_2d3ds_dataset as S

    top = tempfile.mkdtemp(prefix="conv")
    broken = set()

    def imopen(p, *a, **k):
        if os.path.basename(str(p)) in broken:
            raise OSError("cannot identify image file")
        return Img(np.load(open(p, "rb")))

    pil, im, h5, tq, rq = (types.ModuleType(n) for n in ("PIL", "PIL.Image", "h5py", "tqdm", "requests"))
    im.open, im.BILINEAR, im.NEAREST = imopen, 2, 0
    im.new = lambda mode, size, color: Img(np.broadcast_to(np.array(tuple(color) + (255,) * (4 - len(color)), np.uint8), (size[1], size[0], 4)).copy())
    im.alpha_composite = lambda bg, fg: Img(compose(bg.a, fg.a))
    pil.Image, h5.File, h5.string_dtype, tq.tqdm = im, File, (lambda *a, **k: "str"), Bar
    saved = {n: sys.modules.get(n) for n in ("PIL", "PIL.Image", "h5py", "tqdm", "requests")}
    sys.modules.update({"PIL": pil, "PIL.Image": im, "h5py": h5, "tqdm": tq, "requests": rq})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            body(case, mon, S, top, broken)
    finally:
        for n, m in saved.items():
            sys.modules.pop(n) if m is None else sys.modules.__setitem__(n, m)
        shutil.rmtree(top, ignore_errors=True)


def body(case, mon, S, top, broken):
    rng = np.random.default_rng(case["u"])
    n, h, w, f = case["n"], case["h"], case["w"], case["f"]
    names = ["<UNK>", "beam", "board", "chair", "clutter", "wall", "window"]
    labels = [names[int(rng.integers(len(names)))] + f"_{i}_office_3" for i in range(3400)]
    labels[3341] = "clutter_7_office_3"
    classes = sorted({s.split("_")[0] for s in labels})
    folders = [f"area_{i}" for i in range(case["folders"])]
    pix = {}
    for i in range(n):
        fo = folders[i % len(folders)]
        rgb = rng.integers(0, 256, (h, w, 4 if case["alpha"] else 3)).astype(np.uint8)
        rgb[..., :3] //= int(rng.integers(1, 4))
        ids = rng.integers(0, 3400, (h, w))
        col = np.where(rng.random((h, w)) < 0.2, 855309, ids)
        sem = np.stack([col >> 16, (col >> 8) & 255, col & 255], 2).astype(np.uint8)
        dep = rng.integers(0, 65536 // int(rng.integers(1, 5)), (h, w)).astype(np.uint16)
        stem = f"camera_{i}_room_1_frame_equirectangular_domain"
        for sub, a, suffix in (("rgb", rgb, "rgb"), ("semantic", sem, "semantic"), ("depth", dep, "depth")):
            d = os.path.join(top, fo, "pano", sub)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, f"{stem}_{suffix}.png"), "wb") as fh:
                np.save(fh, a)
        pix[os.path.join(top, fo, "pano/rgb", stem + "_rgb.png")] = (rgb, np.where(col == 855309, 3341, col), dep)
    dl = S.Stanford2D3DSDownloader(local_dir=top)
    if case["fail"]:
        broken.add(os.path.basename(sorted(pix)[-1]).replace("_rgb.png", "_depth.png"))
    dl.download_dataset = lambda *a, **k: (folders, labels)
    path = None
    try:
        path = dl.prepare_dataset([], downsampling_factor=f)
    except OSError:
        mon.event("conversion-failed")
    if case["fail"]:
        mon.check(path is None, "conversion-failed", "an unreadable image went unnoticed")
        broken.clear()
        path = dl.prepare_dataset([], downsampling_factor=f)
        if "class_histogram" not in File(path).d:
            mon.defer("the file left by a failed conversion is taken for the converted data set", "partial-dataset-taken-as-complete")
            return
    H, W = h // f, w // f
    F = File(path)
    src = [p.decode() for p in F["data_source_path"][...]]
    mon.check(sorted(src) == sorted(pix), "images", "the images recorded are not the images found")
    mon.check([c.decode() for c in F["class_labels"][...]] == classes, "labels", "class names")
    RGB, SEM, DEP = [], [], []
    for p in src:
        rgb, col, dep = pix[p]
        a = Img(rgb)
        a = (a.resize((W, H), 2) if f != 1 else a).convert("RGBA").a
        RGB.append(compose(np.full(a.shape, 255, np.uint8), a)[..., :3].transpose(2, 0, 1) / 255.0)
        idx = np.array([classes.index(s.split("_")[0]) for s in labels])
        SEM.append(idx[Img(col).resize((W, H), 0).a])
        DEP.append(Img(dep).resize((W, H), 0).a.astype(np.float64))
    RGB, SEM, DEP = np.array(RGB), np.array(SEM), np.array(DEP)
    T = torch.as_tensor
    mon.close(T(F["rgb"][...]), T(RGB), 1e-6, 1e-7, "images")
    mon.check(np.array_equal(F["semantic"][...], SEM), "labels", "class indices differ from the colours' classes")
    mon.close(T(F["depth"][...]), T(DEP / 65536), 1e-6, 1e-9, "depth")
    for a, b in zip(src, F["data_target_path"][...]):
        mon.check(os.path.basename(b.decode()) == os.path.basename(a).replace("_rgb.png", "_semantic.png") and os.path.dirname(os.path.dirname(a)) == os.path.dirname(os.path.dirname(b.decode())), "images", "input and target of different scenes")
    # area-weighted statistics of what was stored
    wq = np.asarray(ref.colat(H, "equiangular")[1], np.float64)
    wq = np.repeat(wq[:, None], W, 1)
    wq /= wq.sum()
    mon.close(T(F["min_rgb"][...]), T(RGB.min((0, 2, 3))), 1e-6, 1e-7, "statistics")
    mon.close(T(F["mean_rgb"][...]), T((RGB * wq).sum((2, 3)).mean(0)), 1e-5, 1e-6, "statistics")
    hist = np.array([[(wq * (s == c)).sum() for c in range(len(classes))] for s in SEM]).mean(0)
    mon.close(T(F["class_histogram"][...]), T(hist), 1e-5, 1e-6, "statistics")
    late = []
    mx, want = F["max_rgb"][...], RGB.max((0, 2, 3))
    if not np.allclose(mx, want, atol=1e-6):
        if np.allclose(mx, RGB.max((2, 3)).min(0), atol=1e-6):
            late.append((f"max_rgb is the smallest of the images' maxima: {mx} instead of {want}", "max-is-smallest-maximum"))
        else:
            mon.fail(f"max_rgb {mx}, expected {want}", "statistics")
    # deviations from the mean over all images and points; with n or n - 1 in the denominator
    def std_ok(got, var, m):
        m2 = var.sum(0) + ((m - m.mean(0)) ** 2).sum(0)
        return any(np.allclose(got, np.sqrt(m2 / k), rtol=1e-4, atol=1e-6) for k in (n, n - 1))

    m = (RGB * wq).sum((2, 3))
    var = ((RGB - m[:, :, None, None]) ** 2 * wq).sum((2, 3))
    std = F["std_rgb"][...]
    if not std_ok(std, var, m):
        mon.check(std_ok(std, np.repeat(var.sum(1, keepdims=True), 3, 1), m), "statistics", f"std_rgb {std}")
        late.append(("std_rgb adds up the deviations of all channels", "std-not-per-channel"))
    u = DEP / 65536
    got = [float(F[k][...]) for k in ("min_depth", "mean_depth")]
    exp = [u.min(), (u * wq).sum((1, 2)).mean()]
    if not np.allclose(got, exp, rtol=1e-5, atol=1e-7):
        mon.check(np.allclose(np.array(got) / 65536, exp, rtol=1e-5, atol=1e-7), "statistics", f"depth minimum and mean {got}, expected {exp}")
        md = (DEP * wq).sum((1, 2))
        mon.check(std_ok(F["std_depth"][...], ((DEP - md[:, None, None]) ** 2 * wq).sum((1, 2)), md), "statistics", "std_depth")
        late.append(("the depth statistics are 65536 times those of the stored depth", "depth-statistics-in-raw-units"))
    # readers
    p = case["polar"]
    cut = int(p * H)
    rows = np.r_[0:cut, H - cut : H]
    keep = open(path, "rb").read()
    ds = S.StanfordSegmentationDataset(path, exclude_polar_fraction=p)
    dd = S.StanfordDepthDataset(path, log_depth=case["log"], exclude_polar_fraction=p)
    mon.check(len(ds) == len(dd) == n and tuple(ds.input_shape) == (3, H, W) and tuple(ds.target_shape) == (H, W) == tuple(dd.target_shape) and ds.num_classes == len(classes) and ds.class_labels == classes, "reader-segmentation", "description of the data set")
    sub = None
    try:
        sub = S.StanfordDatasetSubset(ds, [n - 1, 0], return_index=True)
    except NotImplementedError as e:
        mon.event("subset")
        late.append((f"StanfordDatasetSubset cannot be created: {str(e)[:80]}", "subset-without-getitems"))
    for i in list(rng.permutation(n)) + [0]:
        i = int(i)
        x, s = ds[i]
        ws = SEM[i].copy()
        ws[rows] = -100
        mon.close(T(x), T(RGB[i]), 1e-6, 1e-7, "reader-segmentation")
        mon.check(np.array_equal(s, ws), "reader-segmentation", f"target {i} with {cut} excluded rows at each pole")
        x, z = dd[i]
        wd = u[i] * (u[i] != u[i].max())
        wd[rows] = 0
        mon.close(T(x), T(RGB[i]), 1e-6, 1e-7, "reader-depth")
        mon.close(T(np.asarray(z)), T(np.log1p(wd) if case["log"] else wd), 1e-6, 1e-7, "reader-depth")
        if rng.random() < 0.3:
            ds.reset()
            dd.reset()
    if sub is not None:
        x, s, j = sub[0]
        mon.check(j == n - 1 and np.array_equal(s, ds[n - 1][1]) and len(sub) == 2, "subset", "subset entry 0 is the last sample")
        sub.set_return_index(False)
        mon.check(len(sub[1]) == 2, "subset", "index returned although switched off")
    mon.check(open(path, "rb").read() == keep, "reader-segmentation", "reading changed the file")
    if late:  # one of them per case, in turn
        mon.defer(*late[case["u"] % len(late)])
    mon.state(n, H, W, f, case["alpha"], cut, case["log"])


def run(case, mon):
    {"fetch": fetch, "evil": hostile, "convert": convert}[case["k"]](case, mon)
