"""Symbolic shape inference over the value graph: every array returned by a forward model has the
broadcast shape of the three coordinate arrays, whatever the number of sources, and is folded in the
order it was flattened."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    keep = lambda c: not (c.info.get("bar") and "layer" in c.api) and not c.info.get("variable")
    spec_check(ctx, cases(ctx, "point_gravity", "dipole_magnetic", "prism_gravity", "prism_magnetic",
                          "tesseroid_gravity", "layer_gravity", select=keep), ["shape"])
