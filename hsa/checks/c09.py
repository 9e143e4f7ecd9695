"""Refusal conditions of the forward models: the disjunction of the path conditions of every raise
reachable from the entry point equals the documented condition (unknown field or coordinate system,
west > east, south > north, bottom > top, sources and properties of different sizes, observation points
inside tesseroids, ...), and the documented exception types are raised."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    keep = lambda c: not c.info.get("bar")
    spec_check(ctx, cases(ctx, "point_gravity", "dipole_magnetic", "prism_gravity", "prism_magnetic",
                          "tesseroid_gravity", select=keep), ["errors"])
