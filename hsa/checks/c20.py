"""The condition under which IGRF14.predict and IGRF14.grid refuse a date, for symbolic dates and tables, is compared
with the documented one, as are the interpolated coefficients (through the predictions of a date given as
text and as a datetime) and the attributes the constructor leaves."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["the coefficient table is the one load_igrf returns: its arrays are symbols (epochs five years apart)"]


def check(ctx):
    cs = cases(ctx, "igrf")
    methods = [c for c in cs if c.api != "IGRF14.__init__"]
    spec_check(ctx, methods, ["errors"], limit=400)
    spec_check(ctx, [c for c in methods if c.api == "IGRF14.predict"], ["value"], limit=400, comparer={"want": 10})
    spec_check(ctx, [c for c in cs if c.api == "IGRF14.__init__"], ["state"])
