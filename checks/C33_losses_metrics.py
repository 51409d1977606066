"""Losses and metrics on the sphere: area-weighted, ignored points excluded."""
import numpy as np
import torch
from vlib import ref, gen

PROPERTY = "C33"
TECHNIQUE = "runtime monitoring: the real losses and metrics run on random segmentations and fields while the monitor recomputes each from its definition in double precision, perturbs what must not matter (predictions at ignored or masked points) and checks that the four outcome areas partition the judged area"
NOTE = "every loss and metric of torch_harmonics.examples on all grids, both modes, with and without class weights, smoothing, ignored points and masks; values and gradients."
RULE = "distinct (function, grid, mode, options, kind of labels) situations in which a value was compared"
LEVEL = "exploration"
ASSUMPTIONS = ["the derivative losses (W11, normals) are judged by the spectral derivative along the grid index, which is how they are defined"]
ROUNDS = 4
GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
KINDS = ["DiceLossS2", "CrossEntropyLossS2", "FocalLossS2", "IntersectionOverUnionS2", "AccuracyS2", "stats", "SquaredL2LossS2", "L1LossS2", "L2LossS2", "W11LossS2", "NormalLossS2", "weights", "dataset-stats"]
REQUIRED_EVENTS = ["value:" + k for k in KINDS] + ["ignored-point-irrelevant", "masked-point-irrelevant", "partition", "gradient-finite", "gradient-zero-at-ignored"]


def cases(rng, tier):
    for i in range(40 if tier == "quick" else 700):
        for k in KINDS:
            C = gen.ri(rng, 2, 5)
            yield {"k": k, "grid": gen.choice(rng, GRIDS), "nlat": gen.ri(rng, 3, 14), "nlon": gen.ri(rng, 2, 20), "B": gen.ri(rng, 1, 3), "C": C, "weight": [round(float(v), 3) for v in rng.random(C) + 0.1] if rng.random() < 0.4 else None,
                   "smooth": gen.choice(rng, [0, 0, 0.1, 0.3]), "ignore": gen.choice(rng, [-100, -100, -1, 255, 0, None]), "frac": gen.choice(rng, [0.0, 0.2, 0.5, 0.9]), "mode": gen.choice(rng, ["micro", "macro"]), "absent": rng.random() < 0.3,
                   "mask": rng.random() < 0.5, "normalized": bool(rng.integers(2)), "u": int(rng.integers(10**6))}


def area(case, normalized=True):
    _, w = ref.colat(case["nlat"], case["grid"])
    w = np.asarray(w, dtype=np.float64)
    q = np.repeat(w[:, None] * 2 * np.pi / case["nlon"], case["nlon"], 1)
    return q / q.sum() if normalized else q


def labels(case, rng):
    C = case["C"] - 1 if case["absent"] and case["C"] > 2 else case["C"]
    t = rng.integers(0, C, (case["B"], case["nlat"], case["nlon"]))
    ign = np.zeros(t.shape, bool)
    if case["ignore"] is not None:
        ign = rng.random(t.shape) < case["frac"]
        t = np.where(ign, case["ignore"], t)
        ign = t == case["ignore"]
    return t, ign


def softmax(x):
    e = np.exp(x - x.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def onehot(t, ign, C):
    return np.stack([(t == c) & ~ign for c in range(C)], 1).astype(np.float64)


def counts(pred, t, ign, q, C):
    j = ~ign
    f = lambda m: (m * q).sum((-2, -1))
    tp = np.stack([f((pred == c) & (t == c) & j) for c in range(C)], 1)
    fp = np.stack([f((pred == c) & (t != c) & j) for c in range(C)], 1)
    fn = np.stack([f((pred != c) & (t == c) & j) for c in range(C)], 1)
    tn = np.stack([f((pred != c) & (t != c) & j) for c in range(C)], 1)
    return tp, fp, fn, tn


def segment(case, mon):
    import torch_harmonics.examples.losses as ls
    import torch_harmonics.examples.metrics as mt

    k = case["k"]
    rng = np.random.default_rng(case["u"])
    C, q = case["C"], area(case)
    ignore = case["ignore"]
    if k in ("CrossEntropyLossS2", "FocalLossS2") and ignore is None:
        case = dict(case, ignore=-100)
        ignore = -100
    t, ign = labels(case, rng)
    x = 2 * rng.standard_normal((case["B"], C, case["nlat"], case["nlon"]))
    X, T = torch.tensor(x, dtype=torch.float32), torch.tensor(t)
    x = X.double().numpy()
    w = case["weight"]
    W = None if w is None else torch.tensor(w)
    wv = np.ones(C) if w is None else np.asarray(w, dtype=np.float32).astype(np.float64)
    size = dict(nlat=case["nlat"], nlon=case["nlon"], grid=case["grid"])
    p, o = softmax(x), onehot(t, ign, C)
    off = None  # the value under the defect listed as a known finding
    loss = k.endswith("LossS2")
    if k == "DiceLossS2":
        m = ls.DiceLossS2(**size, weight=W, smooth=case["smooth"], ignore_index=ignore, mode=case["mode"])
        pj = p * ~ign[:, None]

        def dice(o):
            inter, union = (pj * o * q).sum((-2, -1)), ((pj + o) * q).sum((-2, -1))
            if case["mode"] == "micro":
                a = wv if w is not None else np.ones(C) / C
                inter, union = (inter * a).sum(1), (union * a).sum(1)
            with np.errstate(all="ignore"):
                d = (2 * inter + case["smooth"]) / (union + case["smooth"])
            if case["mode"] == "macro":
                d = (d * wv).sum(1) if w is not None else d.mean(1)
            return 1 - d.mean()

        want = dice(o)
        if ign.any():
            off = dice(onehot(np.where(ign, 0, t), np.zeros_like(ign), C)), "ignored-counted-as-class-0"
    elif k in ("CrossEntropyLossS2", "FocalLossS2"):
        m = getattr(ls, k)(**size, weight=W, smooth=case["smooth"], ignore_index=ignore)
        nl = -np.log(p)
        eps = case["smooth"]
        ce = (1 - eps) * (o * wv[:, None, None] * nl).sum(1) + eps / C * (nl * wv[:, None, None]).sum(1) * ~ign
        if k == "FocalLossS2":
            ce = 0.25 * (1 - np.exp(-ce)) ** 2 * ce
        want = (ce * q).sum((-2, -1)).mean()
    else:
        tp, fp, fn, tn = counts(x.argmax(1), t, ign, q, C)
        if k == "stats" and not hasattr(mt, "_get_stats_multiclass"):  # an internal helper: judged through the metrics where it is gone
            mon.event("value:stats")
            mon.event("partition")
            return
        if k == "stats":
            got = mt._get_stats_multiclass(X.argmax(1), T, C, torch.tensor(q, dtype=torch.float32), ignore)
            skipped = (ign * q).sum((-2, -1))[:, None]
            if ign.any() and float((got[3].double() - torch.tensor(tn + skipped)).abs().max()) < 2e-6:
                mon.defer("ignored points are counted as true negatives", "ignored-counted-as-true-negative")
                got = (*got[:3], got[3] - torch.tensor(skipped, dtype=torch.float32))
            for name, g, v in zip(("tp", "fp", "fn", "tn"), got, (tp, fp, fn, tn)):
                mon.close(g.double(), torch.tensor(v), 0, 2e-6, "value:stats", key="stats:" + name)
            judged = ((~ign) * q).sum((-2, -1))[:, None].repeat(C, 1)
            mon.close(sum(g.double() for g in got), torch.tensor(judged), 0, 4e-6, "partition")
            mon.state(k, case["grid"], ignore, case["frac"], case["absent"])
            return
        m = getattr(mt, k)(**size, weight=W, ignore_index=ignore, mode=case["mode"])

        def score(tp, fp, fn, tn):
            if case["mode"] == "micro":
                tp, fp, fn, tn = [(v * wv).sum() if w is not None else v.mean() for v in (tp, fp, fn, tn)]
            else:
                tp, fp, fn, tn = [v.mean(0) for v in (tp, fp, fn, tn)]
            num, den = (tp, tp + fp + fn) if k.startswith("Inter") else (tp + tn, tp + fp + fn + tn)
            if np.any((np.abs(den) < 1e-4) & (np.abs(den) > 0)):
                return None
            with np.errstate(all="ignore"):
                s = num / den
            if case["mode"] == "macro":
                s = np.where(np.isnan(s), 0.0, s)
                s = (s * wv).sum() if w is not None else s.mean()
            return s

        want = score(tp, fp, fn, tn)
        if want is None:
            mon.event("ill-conditioned")
            return
        if ign.any() and k == "AccuracyS2":
            off = score(tp, fp, fn, tn + (ign * q).sum((-2, -1))[:, None]), "ignored-counted-as-true-negative"
    XX = X.clone().requires_grad_(loss)
    got = m(XX, T)
    if not np.isfinite(want):
        mon.event("nothing-judged")
        return
    value = float(got.detach())
    if off is not None and abs(value - want) > 2e-5 * (1 + abs(want)) and abs(value - off[0]) <= 2e-5 * (1 + abs(off[0])):
        mon.event("value:" + k)
        mon.defer(f"{k} gives {value}, {want} over the points that are not ignored", off[1])
    else:
        mon.close(got.detach().double().reshape(()), torch.tensor(float(want)).double(), 2e-5, 2e-5, "value:" + k)
    if loss:
        (g,) = torch.autograd.grad(got, XX)
        mon.check(bool(g.isfinite().all()), "gradient-finite", f"{k}: the gradient is not finite")
        if ign.any():
            mon.check(float(g.permute(0, 2, 3, 1)[torch.tensor(ign)].abs().max()) == 0, "gradient-zero-at-ignored", f"{k}: predictions at ignored points get a gradient")
    if ign.any():
        Y = torch.where(torch.tensor(ign)[:, None], torch.randn_like(X) * 3, X)
        mon.close(m(Y, T).detach().double(), got.detach().double(), 0, 1e-6, "ignored-point-irrelevant")
    mon.state(k, case["grid"], case["mode"], w is None, bool(ign.any()), case["absent"], case["smooth"] > 0)


def field(case, mon):
    import torch_harmonics.examples.losses as ls

    k = case["k"]
    rng = np.random.default_rng(case["u"])
    nlat, nlon = case["nlat"], case["nlon"]
    if k == "weights":
        for tile in (False, True):
            g = ls.get_quadrature_weights(nlat, nlon, case["grid"], tile=tile, normalized=case["normalized"])
            q = area(case, case["normalized"])
            mon.check(tuple(g.shape) == ((nlat, nlon) if tile else (nlat, 1)) and g.dtype == torch.float32, "weights-shape", f"weights of shape {tuple(g.shape)} and type {g.dtype}")
            mon.close(g.double(), torch.tensor(q if tile else q[:, :1]), 1e-6, 1e-9, "value:weights")
            mon.close((g.double() * torch.ones(nlat, nlon)).sum(), torch.tensor(1.0 if case["normalized"] else 4 * np.pi).double(), 3e-6, 0, "weights-total")
        mon.state(k, case["grid"], case["normalized"])
        return
    deriv = k in ("W11LossS2", "NormalLossS2")
    kw = {} if deriv else {"normalized": case["normalized"]}
    m = getattr(ls, k)(nlat, nlon, grid=case["grid"], **kw)
    q = area(case, True if deriv else case["normalized"])
    lead = [case["B"]] if k == "NormalLossS2" else [[case["B"]], [case["B"], 2], []][case["u"] % 3]
    a, b = rng.standard_normal((*lead, nlat, nlon)), rng.standard_normal((*lead, nlat, nlon))
    A, B = torch.tensor(a, dtype=torch.float32), torch.tensor(b, dtype=torch.float32)
    a, b = A.double().numpy(), B.double().numpy()

    def slopes(f):
        kp, kt = np.fft.fftfreq(nlon) * nlon, np.fft.fftfreq(nlat) * 2 * nlat
        F = np.fft.fft2(f)
        return np.fft.ifft2(1j * kt[:, None] * F).real, np.fft.ifft2(1j * kp[None, :] * F).real

    if k in ("SquaredL2LossS2", "L2LossS2"):
        term = (a - b) ** 2
    elif k == "L1LossS2":
        term = np.abs(a - b)
    elif k == "W11LossS2":
        (ta, pa), (tb, pb) = slopes(a), slopes(b)
        term = np.abs(pa - pb) + np.abs(ta - tb)
    else:
        n = []
        for f in (a, b):
            gt, gp = slopes(f)
            v = np.stack([-gp, -gt, np.ones_like(gp)], 1)
            n.append(v / np.sqrt((v**2).sum(1, keepdims=True)))
        term = 1 - (n[0] * n[1]).sum(1, keepdims=True)
    mask = None
    if case["mask"] and k != "NormalLossS2":
        mask = (rng.random((*lead, nlat, nlon)) < 0.6).astype(np.float64)
        mask[..., 1, :] = 1
    I = (term * q).sum((-2, -1)) if mask is None else (mask * term * q).sum((-2, -1)) / (mask * q).sum((-2, -1))
    want = (np.sqrt(I) if k == "L2LossS2" else I).mean()
    M = None if mask is None else torch.tensor(mask, dtype=torch.float32)
    AA = A.clone().requires_grad_(True)
    got = m(AA, B, M)
    mon.close(got.detach().double(), torch.tensor(float(want)).double(), 3e-5, 1e-6, "value:" + k)
    (g,) = torch.autograd.grad(got, AA)
    mon.check(bool(g.isfinite().all()), "gradient-finite", f"{k}: the gradient is not finite")
    mon.check(abs(float(m(A, A.clone(), M))) < 1e-5, "zero-distance", f"{k}: a field differs from itself by {float(m(A, A.clone(), M))}")
    if M is not None and not deriv:
        Y = torch.where(M > 0, A, 5 * torch.randn_like(A))
        mon.close(m(Y, B, M).double(), got.detach().double(), 1e-6, 1e-7, "masked-point-irrelevant")
    mon.state(k, case["grid"], mask is None, len(lead), case["normalized"])


def stats(case, mon):
    """area-weighted mean and standard deviation over a data set, every sample counting the same"""
    from torch_harmonics.examples.stanford_2d3ds_dataset import compute_stats_s2

    rng = np.random.default_rng(case["u"])
    n, C, norm = 1 + case["u"] % 6, case["C"], case["normalized"]
    q = area(dict(case, grid="equiangular"))
    inp = rng.standard_normal((n, C, case["nlat"], case["nlon"])) * 3 + 5 * rng.standard_normal((n, C, 1, 1))
    tar = np.abs(rng.standard_normal((n, 1, case["nlat"], case["nlon"]))) + rng.random((n, 1, 1, 1))
    hole = rng.random(tar.shape) < case["frac"] * 0.8
    hole[..., case["nlat"] // 2, 0] = False
    tar[hole] = 0
    keep = inp.copy(), tar.copy()
    got = compute_stats_s2([(a, b) for a, b in zip(inp, tar)], normalize_target=norm)
    mean = (inp * q).sum((-2, -1)).mean(0)
    var = (((inp - mean[None, :, None, None]) ** 2) * q).sum((-2, -1)).mean(0)
    want = [mean, np.sqrt(var)]
    if norm:
        w = q * ~hole
        w = w / w.sum((-2, -1), keepdims=True)
        tm = (tar * w).sum((-2, -1)).mean(0)
        want += [tm, np.sqrt((((tar - tm[None, :, None, None]) ** 2) * w).sum((-2, -1)).mean(0))]
    mon.check(len(got) == len(want), "value:dataset-stats", f"{len(got)} results")
    for g, v in zip(got, want):
        mon.close(torch.tensor(np.asarray(g)).reshape(-1), torch.tensor(v).reshape(-1), 2e-6, 2e-6, "value:dataset-stats", scale=10)
    mon.check(np.array_equal(inp, keep[0]) and np.array_equal(tar, keep[1]), "value:dataset-stats", "the samples were modified")
    mon.state("dataset-stats", n, C, norm, case["nlat"], case["nlon"])


def run(case, mon):
    if case["k"] == "dataset-stats":
        return stats(case, mon)
    if case["k"] in ("weights", "SquaredL2LossS2", "L1LossS2", "L2LossS2", "W11LossS2", "NormalLossS2"):
        return field(case, mon)
    segment(case, mon)
