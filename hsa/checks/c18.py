"""The attributes left by fit of the Euler methods are compared with those of the documented least squares, written with
scalar sums. The iteration of Euler inversion is followed for limits of zero, one and two iterations, with symbolic tolerance,
balance and weights, and for a sequence of structural indices."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    cs = [c for c in cases(ctx, "euler") if c.label not in ("single", "sequence")]
    spec_check(ctx, cs, ["fitted"], limit=300)
    spec_check(ctx, cs, ["errors", "warnings"], limit=300)
