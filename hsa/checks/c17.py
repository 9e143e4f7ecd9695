"""Value-graph equivalence of every grid transformation with its reference: drop the non-dimensional
coordinates, pad as asked, Fourier transform, multiply by the documented filter, transform back, unpad and
put the coordinates back; and of the combined quantities, the finite-difference derivatives and the grids
that are refused."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["xrft and xarray operations are uninterpreted functions of their arguments"]


def check(ctx):
    spec_check(ctx, cases(ctx, "transforms"), ["value", "errors"])
