"""Value-graph equivalence of the transfer function of every filter with its documented formula at every
pair of frequencies (zero included), for every order and parameter."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    spec_check(ctx, cases(ctx, "kernels"), ["value", "errors"])
