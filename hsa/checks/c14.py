"""estimate_required_memory of every estimator is compared with the size of the Jacobian the reference fit of the
same data builds, and the attributes of a fitted estimator are the same value-graph nodes before and after
the call."""

from .. import aspects as A
from ..report import ok, violation
from .common import GVN, cases, spec_check

__doc__ += " " + GVN
ASSUMES = ["sklearn.clone gives an estimator with the same parameters and none of the fitted attributes"]


def check(ctx):
    cs = [c for c in cases(ctx, "eqs") if c.api.endswith(".estimate_required_memory")]
    spec_check(ctx, cs, ["value", "errors"], limit=120)
    ctx.pmap(lambda c: unchanged(ctx, c), list(ctx.D.eqs_estimates()), "unchanged")
    ctx.floor("unchanged", 12)


def unchanged(ctx, case):
    after = A.fields(case.res)
    before = ctx.D.eqs_fields(case.info["name"], **case.info["made"])
    bad = sorted(n for n in after if n not in before or after[n] is not before[n])
    bad += sorted(n for n in before if n not in after)
    if bad:
        return violation("unchanged", f"{case.api}: {', '.join(bad)}",
                         f"the call changes {', '.join(bad)} of the estimator in context [{case.label}]")
    return ok("unchanged", case)
