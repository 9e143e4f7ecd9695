"""IGRF14.predict and IGRF14.grid, with symbolic positions, dates, ranges of degrees and Gauss coefficients, are
compared with the documented series; the shape of the predictions is deduced by an aspect analysis of the
same value graph."""

from .. import aspects as A
from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = [
    "the coefficient table is the one load_igrf returns: its arrays are symbols (epochs five years apart)",
    "boule.Ellipsoid.geodetic_to_spherical and bordado.grid_coordinates are modelled by their documentation",
]


def check(ctx):
    cs = cases(ctx, "igrf", apis=["IGRF14.predict", "IGRF14.grid"])
    spec_check(ctx, cs, ["value"], limit=300)
    ctx.pmap(lambda c: A.shape(c, ["lon", "lat", "alt"]), [c for c in cs if c.api == "IGRF14.predict"], "shape")
    ctx.floor("shape", 2)
