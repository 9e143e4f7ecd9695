"""Value-graph equivalence of prism_gravity and prism_magnetic with their reference, for every field
and switch: the result is the sum over all prisms of positive volume (and non-null density or
magnetisation) of the unit-converted kernel, with the documented sign, and NaN with a warning for the
tensor components on singular edges."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["choclo kernels are uninterpreted functions: their formulas are not analysed"]


def check(ctx):
    spec_check(ctx, cases(ctx, "prism_gravity", "prism_magnetic"), ["value"])
    spec_check(ctx, [c for c in cases(ctx, "prism_gravity")], ["warnings"])
