"""CPU stand-ins for the CUDA-only ring-step attention kernels, so that the distributed attention's Python code (index
tables, halo, ring, state buffers, gradient reduction) can run here. They follow the documented kernel interface, take
their geometry only from their arguments, count every (output, input) pair they process and refuse indices outside the
tensors they were given."""
import torch
from .core import Violation

_lib = None
PAIRS = {"forward": 0, "pass1": 0, "pass2": 0}


def _need(cond, msg):
    if not cond:
        raise Violation("ring kernel call: " + msg, "ring-kernel-arguments")


def _common(kx, vx, qy, nlat_out, nlon_out):
    _need(kx.shape[:3] == vx.shape[:3], f"key chunk {tuple(kx.shape)} and value chunk {tuple(vx.shape)} differ")
    _need(tuple(qy.shape[1:3]) == (nlat_out, nlon_out), f"query is {tuple(qy.shape)}, not (.., {nlat_out}, {nlon_out}, ..)")
    for t in (kx, vx, qy):
        _need(t.is_contiguous(), "tensors must be contiguous NHWC")


def _gather_pairs(kx, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out):
    _need(row.numel() >= nlat_out and roff.numel() >= nlat_out + 1, "row tables shorter than the output latitudes")
    ho_l, c_l = [], []
    for r in range(nlat_out):
        ho = int(row[r])
        a, b = int(roff[ho]), int(roff[ho + 1])
        c = col[a:b].long()
        c_l.append(c)
        ho_l.append(torch.full_like(c, ho))
    c, ho = torch.cat(c_l), torch.cat(ho_l)
    hi, wi = c // nlon_in, c % nlon_in
    wo = torch.arange(nlon_out)
    w = (wi[:, None] + pscale * wo[None, :]) % nlon_in - lon_lo
    ok = (w >= 0) & (w < kx.shape[2])
    e, wo_i = ok.nonzero(as_tuple=True)
    hg = hi[e]
    hl = hg - lat_lo
    _need(hl.numel() == 0 or (int(hl.min()) >= 0 and int(hl.max()) < kx.shape[1]), f"neighbours on rows {int(hg.min()) if hg.numel() else 0}..{int(hg.max()) if hg.numel() else 0} are not in the chunk, which starts at row {lat_lo} and has {kx.shape[1]}")
    return ho[e], wo_i, hl, w[e, wo_i], hg


def _scatter_pairs(kx, col, roff, nlon_out_global, pscale_out, lon_lo, lat_lo, nlat_out, nlon_out):
    H, W = kx.shape[1:3]
    _need(roff.numel() == H + 1, f"{roff.numel() - 1} table rows for {H} input rows")
    n = (roff[1:] - roff[:-1]).long()
    hl = torch.repeat_interleave(torch.arange(H), n)
    c = col.long()
    ho, ws = c // nlon_out_global, c % nlon_out_global
    _need(ho.numel() == 0 or int(ho.max()) < nlat_out, "output row outside the shard")
    wi = torch.arange(W)
    w = (ws[:, None] + pscale_out * (lon_lo + wi)[None, :]) % nlon_out_global
    e, wi_i = (w < nlon_out).nonzero(as_tuple=True)
    return ho[e], w[e, wi_i], hl[e], wi_i, hl[e] + lat_lo


def _terms(kx, vx, qy, quad, pairs):
    ho, wo, hi, wi, hg = pairs
    _need(hg.numel() == 0 or (int(hg.min()) >= 0 and int(hg.max()) < quad.numel()), "global input row outside the grid")
    k, v, q = kx[:, hi, wi].double(), vx[:, hi, wi].double(), qy[:, ho, wo].double()
    return k, v, q, (q * k).sum(-1), quad.flatten()[hg].double(), ho * qy.shape[2] + wo, hi * kx.shape[2] + wi


def _fold(amax, dest, logit, mx):
    """new running maximum and the factor that rescales what was accumulated under the old one"""
    B = amax.shape[0]
    old = amax.reshape(B, -1).double()
    new = old.clone().scatter_reduce(1, dest.expand(B, -1), logit, "amax", include_self=True)
    f = torch.where(new == old, torch.ones_like(old), torch.exp(old - new))
    amax.copy_(new.reshape(amax.shape))
    return amax.reshape(B, -1).double(), f


def _acc(buf, dest, val, f=None):
    B = buf.shape[0]
    n = buf[0].numel() // (buf.shape[3] if buf.dim() == 4 else 1)
    cur = buf.reshape(B, n, -1).double()
    if f is not None:
        cur = cur * f.unsqueeze(-1)
    val = val if val.dim() == 3 else val.unsqueeze(-1)
    buf.copy_(cur.index_add(1, dest, val).reshape(buf.shape))


def _fwd(kx, vx, qy, y, asum, amax, quad, pairs):
    PAIRS["forward"] += int(pairs[0].numel())
    if pairs[0].numel() == 0:
        return
    k, v, q, L, w, d, s = _terms(kx, vx, qy, quad, pairs)
    m, f = _fold(amax, d, L, None)
    al = torch.exp(L - m[:, d]) * w
    _acc(asum, d, al, f)
    _acc(y, d, al.unsqueeze(-1) * v, f)


def _p1(kx, vx, qy, dy, asum, amax, integral, ak, akv, quad, pairs):
    PAIRS["pass1"] += int(pairs[0].numel())
    if pairs[0].numel() == 0:
        return
    k, v, q, L, w, d, s = _terms(kx, vx, qy, quad, pairs)
    if asum is not None:
        m, f = _fold(amax, d, L, None)
    else:
        m, f = amax.reshape(amax.shape[0], -1).double(), None
    al = torch.exp(L - m[:, d]) * w
    gv = (v * dy[:, pairs[0], pairs[1]].double()).sum(-1)
    if asum is not None:
        _acc(asum, d, al, f)
    _acc(integral, d, al * gv, f)
    _acc(ak, d, al.unsqueeze(-1) * k, f)
    _acc(akv, d, (al * gv).unsqueeze(-1) * k, f)


def _p2(kx, vx, qy, dy, asum, amax, inorm, dk, dv, quad, pairs):
    PAIRS["pass2"] += int(pairs[0].numel())
    if pairs[0].numel() == 0:
        return
    k, v, q, L, w, d, s = _terms(kx, vx, qy, quad, pairs)
    B = kx.shape[0]
    flat = lambda t: t.reshape(B, -1).double()[:, d]
    al = torch.exp(L - flat(amax)) * w / flat(asum)
    g = dy[:, pairs[0], pairs[1]].double()
    gv = (v * g).sum(-1)
    _acc(dk, s, (al * (gv - flat(inorm))).unsqueeze(-1) * q)
    _acc(dv, s, al.unsqueeze(-1) * g)


def split_csr_rows(row, roff, nlat_out):
    n = (roff[1:] - roff[:-1]).tolist()
    ls = [n[int(row[i])] for i in range(nlat_out)]
    return 0, max(ls, default=0), sorted(ls)[len(ls) // 2] if ls else 0


def forward_ring_step(kx, vx, qy, y, asum, amax, quad, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out, a, b, c):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _fwd(kx, vx, qy, y, asum, amax, quad, _gather_pairs(kx, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out))


def backward_ring_step_pass1(kx, vx, qy, dy, asum, amax, integral, ak, akv, quad, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out, a, b, c):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _p1(kx, vx, qy, dy, asum, amax, integral, ak, akv, quad, _gather_pairs(kx, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out))


def backward_ring_step_pass2(kx, vx, qy, dy, asum, amax, inorm, dk, dv, quad, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out, a, b, c):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _p2(kx, vx, qy, dy, asum, amax, inorm, dk, dv, quad, _gather_pairs(kx, col, roff, row, nlon_in, pscale, lon_lo, lat_lo, nlat_out, nlon_out))


def forward_ring_step_upsample(kx, vx, qy, y, asum, amax, quad, col, roff, nlon_in, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _fwd(kx, vx, qy, y, asum, amax, quad, _scatter_pairs(kx, col, roff, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out))


def backward_ring_step_upsample_pass1(kx, vx, qy, dy, amax, integral, ak, akv, quad, col, roff, nlon_in, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _p1(kx, vx, qy, dy, None, amax, integral, ak, akv, quad, _scatter_pairs(kx, col, roff, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out))


def backward_ring_step_upsample_pass2(kx, vx, qy, dy, asum, amax, inorm, dk, dv, quad, col, roff, nlon_in, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out):
    _common(kx, vx, qy, nlat_out, nlon_out)
    _p2(kx, vx, qy, dy, asum, amax, inorm, dk, dv, quad, _scatter_pairs(kx, col, roff, nog, ps, lon_lo, lat_lo, nlat_out, nlon_out))


def install():
    """register the stand-ins for every ring operation that has no CPU implementation"""
    global _lib
    if _lib is not None:
        return
    import torch_harmonics.attention  # defines the operator schemas
    _lib = torch.library.Library("attention_kernels", "IMPL")
    for f in (split_csr_rows, forward_ring_step, backward_ring_step_pass1, backward_ring_step_pass2, forward_ring_step_upsample, backward_ring_step_upsample_pass1, backward_ring_step_upsample_pass2):
        n = f.__name__
        if not torch._C._dispatch_has_kernel_for_dispatch_key("attention_kernels::" + n, "CPU"):
            _lib.impl(n, f, "CPU")
