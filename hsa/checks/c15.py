"""EquivalentSourcesGB.fit, with symbolic data, sources, weights, window sizes and random states, is compared with the
documented algorithm: the coefficients and the root-mean-square errors it leaves are those of visiting the
shuffled windows that hold data and sources, fitting the residual inside and subtracting its prediction everywhere."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["bordado.rolling_window, sklearn.utils.shuffle and verde.least_squares are uninterpreted functions of their "
           "arguments"]


def check(ctx):
    cs = [c for c in cases(ctx, "eqs") if c.api == "EquivalentSourcesGB.fit"]
    spec_check(ctx, cs, ["fitted", "errors"], limit=300)
    ctx.floor("fitted", 8)
