"""Value-graph equivalence of the construction of layers of prisms and tesseroids and of every accessor
with their reference: top is the larger and bottom the smaller of surface and reference at every node, the
properties and units are those given, dimensions, spacing, boundaries, size, shape and single cells follow
from the coordinates, and exactly the documented geometries are refused."""

from .. import aspects as A
from ..drive import AROUND
from ..gvn import Comparer
from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["verde.make_xarray_grid is an uninterpreted function"]


def check(ctx):
    made = cases(ctx, "layers")
    spec_check(ctx, made, ["value", "errors", "marks"])
    other = cases(ctx, "layer_other", select=lambda c: "pyvista" not in c.api)
    spec_check(ctx, other, ["value", "errors", "marks"], floor=len(made))

    def overlap(case):
        return A.raising(case, Comparer(ctx.D.I, tries=600), rule="overlap", options=AROUND)

    ctx.pmap(overlap, [c for c in made if c.api == "tesseroid_layer"], "overlap", 120)
    ctx.floor("overlap", 1)
