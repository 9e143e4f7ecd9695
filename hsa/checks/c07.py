"""Value-graph equivalence of the gravity method of the prism and tesseroid layers with the sum of the
single-body model over all cells of the layer: cells with NaN in density, top or bottom, null density
or thickness below the threshold contribute nothing, and NaN densities are warned about."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["choclo kernels are uninterpreted functions: their formulas are not analysed",
           "layer surfaces are sampled at whole numbers so that a thickness can equal the threshold"]


def check(ctx):
    keep = lambda c: not (c.api.startswith("tess") and c.info["bar"])
    spec_check(ctx, cases(ctx, "layer_gravity", select=keep), ["value", "warnings"], limit=300)
