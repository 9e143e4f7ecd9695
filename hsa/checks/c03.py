"""The call with every combination of its execution switches (parallel, progressbar) has the same value
graph, the same refusal condition, the same warnings and leaves the same state: the compiled serial,
compiled parallel and progress-bar paths are compared with one another, without a reference."""

from .common import GVN, cases, siblings, spec_check

__doc__ += " " + GVN


def check(ctx):
    cs = cases(ctx, "point_gravity", "dipole_magnetic", "prism_gravity", "prism_magnetic", "tesseroid_gravity",
               "layer_gravity", "eqs")
    keep = lambda c: not (c.api.startswith("tesseroid_layer") and "threshold=thr" in c.label)
    pairs = list(siblings([c for c in cs if keep(c)], ("parallel", "bar")))
    pairs = [p for p in pairs if "parallel" in p.info or "bar" in p.info]
    light = [p for p in pairs if not p.api.startswith("Equivalent")]
    spec_check(ctx, light, ["value", "errors", "warnings"], limit=200)
    eqs = [p for p in pairs if p.api.startswith("Equivalent")]
    spec_check(ctx, [p for p in eqs if not p.api.endswith(".fit")], ["value"], limit=200)
    spec_check(ctx, [p for p in eqs if p.api.endswith(".fit")], ["fitted"], limit=200)
    ctx.floor("fitted", 10)
