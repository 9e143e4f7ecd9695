"""fit, predict and jacobian of the equivalent-source estimators, with symbolic data, points, depths and block
sizes, are compared with the documented model: the attributes fit leaves (sources, depth, region, coefficients), the
field predicted and the Jacobian. Least squares, block reduction and neighbour distances are library functions and
stay uninterpreted: they have to receive the same arguments."""

from .. import aspects as A
from .common import COORDS, GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["verde.least_squares, verde.BlockReduce, bordado.get_region and bordado.neighbor_distance_statistics are "
           "uninterpreted functions of their arguments"]


def check(ctx):
    cs = cases(ctx, "eqs")
    fits = [c for c in cs if c.api in ("EquivalentSources.fit", "EquivalentSourcesSph.fit")]
    boosted = [c for c in cs if c.api == "EquivalentSourcesGB.fit"]
    predicts = [c for c in cs if c.api.endswith(".predict")]
    jacobians = [c for c in cs if c.api.endswith(".jacobian")]
    spec_check(ctx, fits, ["fitted"], limit=120)
    ctx.pmap(lambda c: _sources(ctx, c), boosted, "sources", 120)
    spec_check(ctx, predicts + jacobians, ["value", "errors"], limit=120)
    ctx.pmap(lambda c: A.shape(c, COORDS), predicts, "shape")
    ctx.floor("shape", 3)
    ctx.floor("fitted", 16)
    ctx.floor("sources", 8)


def _sources(ctx, c):
    from ..gvn import Comparer

    names = [n for n in A.fields(c.spec) if n in ("points_", "depth_", "region_")]
    return A.attributes(c, Comparer(ctx.D.I), names, rule="sources")
