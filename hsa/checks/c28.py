"""Value-graph equivalence of the distance between two points with the Euclidean distance of their
geocentric Cartesian positions, for the three coordinate systems, and of the refusal of any other."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    spec_check(ctx, cases(ctx, "simple", apis=("distance",)), ["value", "errors"])
