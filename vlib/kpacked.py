"""CPU stand-in for the Hopper/Blackwell-only packed DISCO kernel, so that the packed tables and the Python code around
that kernel (its dispatch, weight contraction and gradients) can run here. It follows the kernel's interface: table of
(input latitude, input longitude at output longitude 0) per output latitude shared by all basis functions."""
import torch
from .core import Violation

_lib = None
CALLS = [0]


def _need(cond, msg):
    if not cond:
        raise Violation("packed kernel call: " + msg, "packed-kernel-arguments")


def _fwd(inp, idx, val, count, K, Ho, Wo):
    B, C, Hi, Wi = inp.shape
    _need(inp.dtype in (torch.bfloat16, torch.float16), f"input type {inp.dtype}")
    _need(inp.is_contiguous() and idx.is_contiguous() and count.is_contiguous() and val.is_contiguous(), "tensors must be contiguous")
    _need(idx.dim() == 3 and idx.shape[0] == Ho and idx.shape[2] == 2 and tuple(val.shape[:2]) == tuple(idx.shape[:2]) and count.shape == (Ho,), f"tables {tuple(idx.shape)} {tuple(val.shape)} {tuple(count.shape)} for {Ho} output latitudes")
    _need(val.shape[2] in (8, 16) and K <= val.shape[2], f"{val.shape[2]} padded basis functions for {K}")
    _need(Wi % Wo == 0 and Wo % 8 == 0, f"{Wi} input and {Wo} output longitudes")
    p = Wi // Wo
    out = torch.zeros(B, C, K, Ho, Wo, dtype=torch.float32)
    wo = torch.arange(Wo)
    x = inp.detach().as_subclass(torch.Tensor).float()
    v = val.to(inp.dtype).float()
    for ho in range(Ho):
        n = int(count[ho])
        _need(n <= idx.shape[1], f"row {ho} has {n} entries in a table of {idx.shape[1]}")
        if n == 0:
            continue
        hi, w0 = idx[ho, :n, 0], idx[ho, :n, 1]
        _need(int(hi.min()) >= 0 and int(hi.max()) < Hi and int(w0.min()) >= 0 and int(w0.max()) < Wi, f"row {ho} points outside the input")
        g = x[:, :, hi[:, None], (w0[:, None] + p * wo[None, :]) % Wi]
        out[:, :, :, ho] = torch.einsum("bcnw,nk->bckw", g, v[ho, :n, :K])
    CALLS[0] += 1
    return out.to(inp.dtype)


def install():
    global _lib
    if _lib is not None:
        return True
    try:
        torch.ops.disco_kernels.forward_kpacked.default
        if torch._C._dispatch_has_kernel_for_dispatch_key("disco_kernels::forward_kpacked", "CPU"):
            return False
        _lib = torch.library.Library("disco_kernels", "IMPL")
        _lib.impl("forward_kpacked", _fwd, "CPU")
    except (AttributeError, RuntimeError):
        return False
    return True


class Device(torch.Tensor):
    """a CPU tensor that says it lives on the accelerator"""
    is_cuda = True
    __torch_function__ = torch._C._disabled_torch_function_impl
