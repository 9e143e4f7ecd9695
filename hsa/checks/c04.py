"""Value-graph equivalence of point_gravity and dipole_magnetic with their reference, for every
field, coordinate system and switch: the result is the sum over all sources of the unit-converted
Newtonian (or dipole) kernel, with z pointing down, at every observation point."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["choclo kernels are uninterpreted functions: their formulas are not analysed"]


def check(ctx):
    spec_check(ctx, cases(ctx, "point_gravity", "dipole_magnetic"), ["value"])
