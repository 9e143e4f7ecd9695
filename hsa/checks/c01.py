"""Escape and mutation analysis: every write in code reachable from a public entry point (subscript or
attribute assignment, augmented assignment, in-place method, out= argument, mutating library function) has
the storage it may alias computed through views, reshapes, array conversions and wrappers; the storage must
not be one of the caller's arguments, nor a hyper-parameter of an estimator. The one licensed write is the
top and bottom of the layer that update_top_bottom is called on."""

from ..report import ok, violation
from ..terms import is_const

MUTATORS = {
    "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.fill_diagonal",
    "numpy.put_along_axis", "numpy.random.shuffle", "random.shuffle", "numpy.add.at", "numpy.subtract.at",
    "numpy.multiply.at", "operator.setitem", "operator.delitem", "operator.iadd", "operator.imul",
    "builtins.setattr", "builtins.delattr", "setattr", "delattr",
}
OUTPUTS = {"associated_legendre": ("P",), "associated_legendre_derivative": ("dP",)}


def writes(res):
    """(event, target, how) of every write in an analysed call."""
    for e in res.events:
        if e.kind == "mutate":
            yield e, e.target, e.how
        elif e.kind == "setattr":
            yield e, e.target, f".{e.name} ="
        elif e.kind == "call":
            if e.name in MUTATORS and e.args:
                yield e, e.args[0], e.name
            kw = e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs)
            flag = kw.get("inplace")
            if flag is not None and is_const(flag) and flag.args[0] and e.args:
                yield e, e.args[0], e.name + "(inplace=True)"
            flag = kw.get("copy")
            if e.name == "numpy.nan_to_num" and flag is not None and is_const(flag) and not flag.args[0] and e.args:
                yield e, e.args[0], e.name + "(copy=False)"


def owned(I, res, target, outputs=()):
    """Names of the caller's objects that a written object may share memory with."""
    out = []
    for r in I.roots(target, res.st):
        if r.op == "param" and "scalar" not in r.args[1:] and r.args[0] not in outputs:
            out.append(r.args[0])
        elif r.op == "obj" and r.args[0] in res.before:
            out.append("self" if r is getattr(res, "self_obj", None) else "an argument")
    return sorted(set(out))


def licensed(case, e, how, own):
    """update_top_bottom replaces the top and bottom of its own layer."""
    if not case.api.endswith("update_top_bottom") or how != "[]=" or own != ["L"] or not e.args:
        return False
    return is_const(e.args[0]) and e.args[0].args[0] in ("top", "bottom")


def judge(ctx, case):
    I = ctx.D.I
    outputs = ("P", "dP") if case.api.startswith("associated_legendre") else ()
    recs = []
    n = 0
    for e, target, how in writes(case.res):
        n += 1
        own = owned(I, case.res, target, outputs)
        if licensed(case, e, how, own):
            continue
        if e.kind == "setattr" and own == ["self"]:
            name = e.name
            if name.endswith("_") or name.startswith("_") or case.api.endswith(("setter", "__init__")):
                continue
            recs.append(violation("hyper-parameters", f"{case.api}: {name}",
                                  f"{how} rewrites a hyper-parameter of the estimator", where=e.where()))
            continue
        if own == ["self"]:
            continue
        if own:
            recs.append(violation("inputs", f"{case.api}: {', '.join(own)}",
                                  f"{how} writes to memory of the caller's {', '.join(own)} in context [{case.label}]",
                                  where=e.where()))
    return recs or [ok("inputs", f"{case}: {n} writes")]


def check(ctx):
    ctx.pmap(lambda c: judge(ctx, c), ctx.D.cases(), "inputs", limit=100)
    ctx.floor("inputs", 300)
