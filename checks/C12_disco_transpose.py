"""C12: transposed discrete-continuous convolution equals its defining sum."""
from checks import C11_disco as base

PROPERTY = "C12"
TECHNIQUE = "runtime monitor: module outputs (optimized and reference paths) compared with a dense evaluation of the transposed stencil by the harness; linearity, locality, group-isolation and normalisation-identity monitors"
NOTE = "Held on every configuration executed. Points exactly on a support edge, where rounding decides membership, are excluded or judged by normalisation identities instead."
RULE = "a case is (grids, sizes, basis, shape, normalisation, cutoff, groups, channels, implementation); distinct by that tuple; non-trivial when the stencil has entries"
LEVEL = "exploration"
ASSUMPTIONS = base.ASSUMPTIONS
ROUNDS = 4
REQUIRED_EVENTS = ["output", "linear_x", "linear_w", "groups", "local", "edge_modal", "edge_support", "nan_outside"]


def cases(rng, tier):
    for i in range(700 if tier == "quick" else 9000):
        c = base.case_of(rng, i, True)
        if c["impl"] == "fused":
            c["impl"] = "opt"
        yield c


def run(case, mon):
    base._run(case, mon, True)
