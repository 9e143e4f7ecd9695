"""Every attribute of an ellipsoid is set at construction and by assignment with values of every kind (numbers,
None, arrays and sequences of right and wrong shapes, text, other objects): the condition of refusal,
the type of the exception and what reading the attribute gives afterwards equal those of the reference."""

from .common import GVN, cases, spec_check

__doc__ += " " + GVN


def check(ctx):
    cs = cases(ctx, "ellipsoid", select=lambda c: c.api.startswith("Ellipsoid") and not c.api.startswith(
        ("Ellipsoid.to_", "Ellipsoid.get_")))
    attributes = [c for c in cs if c.api != "Ellipsoid"]
    spec_check(ctx, attributes, ["errors", "value"], comparer={"want": 60, "tries": 600})
    spec_check(ctx, [c for c in cs if c.api == "Ellipsoid"], ["value"])
