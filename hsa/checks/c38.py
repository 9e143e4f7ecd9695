"""Element-type analysis of every public call: an array that is created to be filled in never takes its
element type from an argument (directly, through *_like, copies, views or conversions) unless everything
stored in it is an element of the same argument; and no result is converted to the element type of an
argument. Types are sets of the arguments an expression takes its type from, or float; operations that give
floats for integers (division, functions) give float. Types of unknown expressions raise nothing."""

from ..lib import callee_name
from ..report import ok, violation
from ..terms import T, is_const, show, walk

FLOAT, SINGLE, INT, UNKNOWN = "float", "single", "int", "?"
ARITH = {"+", "@", "-", "*", "//", "%", "neg", "sum", "prod"}
BOOL = {"<", "<=", ">", ">=", "==", "!=", "not", "is", "in", "and", "or", "isinstance", "exists", "forall"}
SAME = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.array", "numpy.copy", "numpy.ravel",
    "numpy.reshape", "numpy.flatten", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.transpose",
    "numpy.abs", "numpy.absolute", "numpy.negative", "numpy.sort", "numpy.flip", "numpy.max", "numpy.min",
    "numpy.sum", "numpy.cumsum", "numpy.diff", "numpy.unique", "numpy.roll", "numpy.repeat", "numpy.tile",
    "builtins.abs", "builtins.max", "builtins.min", "builtins.sum", "numpy.broadcast_to", "numpy.clip",
    "numpy.maximum", "numpy.minimum", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.mod",
    "numpy.remainder", "numpy.square", "numpy.sign", "numpy.amax", "numpy.amin", "numpy.nanmax", "numpy.nanmin",
}
FLOATS = {
    "numpy.sqrt", "numpy.sin", "numpy.cos", "numpy.tan", "numpy.arctan", "numpy.arctan2", "numpy.arcsin",
    "numpy.arccos", "numpy.exp", "numpy.log", "numpy.hypot", "numpy.radians", "numpy.degrees", "numpy.deg2rad",
    "numpy.rad2deg", "numpy.mean", "numpy.std", "numpy.var", "numpy.median", "numpy.linspace", "math.sqrt",
    "math.sin", "math.cos", "math.exp", "math.log", "math.hypot", "math.radians", "math.degrees", "math.atan2",
    "numpy.true_divide", "numpy.divide", "numpy.arctanh", "numpy.tanh", "numpy.sinh", "numpy.cosh", "numpy.log10",
}
STACKS = {"numpy.vstack", "numpy.hstack", "numpy.stack", "numpy.concatenate", "numpy.column_stack",
          "numpy.broadcast_arrays", "numpy.meshgrid"}


def typed(d):
    """Set of types a dtype argument names."""
    if d is None or is_const(d) and d.args[0] is None:
        return {FLOAT}
    if is_const(d) and isinstance(d.args[0], str):
        s = d.args[0].lstrip("<>=|")
        if s in ("f", "f2", "f4", "e", "F", "c8") or s.startswith(("float32", "float16", "single", "half", "complex64")):
            return {SINGLE}
        return {INT} if s.startswith(("i", "u")) else {UNKNOWN} if s.startswith(("b", "O", "U", "S", "o")) else {FLOAT}
    if d.op == "ext":
        s = d.args[0].split(".")[-1]
        if s in ("float32", "float16", "single", "half", "complex64", "csingle"):
            return {SINGLE}
        return {INT} if s.startswith(("int", "uint")) else {FLOAT} if s.startswith(("float", "double", "complex")) else {UNKNOWN}
    if d.op == "attr" and d.args[1] == "dtype":
        return types(d.args[0])
    if d.op == "ite":
        return typed(d.args[1]) | typed(d.args[2])
    if d.op == "call" and callee_name(d.args[0]) in ("numpy.result_type", "numpy.promote_types"):
        out = set()
        for a in d.args[1]:
            out |= typed(a) if a.op in ("attr", "ext") or is_const(a) else types(a)
        return out
    return {UNKNOWN}


def types(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = set()
    memo[t] = r = _types(t, memo)
    return r


def _types(t, memo):
    op, a = t.op, t.args
    rec = lambda xs: set().union(*(types(x, memo) for x in xs if isinstance(x, T)), set())
    if op == "const":
        v = a[0]
        if isinstance(v, float):
            return {FLOAT}
        return {INT} if isinstance(v, (bool, int)) else {UNKNOWN}
    if op == "param":
        return {a[0]}
    if op in ARITH:
        if op in ("sum", "prod"):
            return types(a[-1], memo)
        return rec(a)
    if op == "**":
        return rec(a)
    if op == "/":
        return {FLOAT}
    if op in BOOL or op == "idx":
        return {INT}
    if op == "ite":
        return rec(a[1:])
    if op == "bcval":
        return {UNKNOWN}  # an array that was allocated: its type is not in the graph
    if op in ("withattrs", "bcast", "entered", "item"):
        return types(a[0], memo)
    if op == "attr":
        if a[1] in ("values", "data", "T", "real", "flat"):
            return types(a[0], memo)
        return {INT} if a[1] in ("size", "ndim", "shape") else {UNKNOWN}
    if op in ("tuple", "list"):
        return rec(a)
    if op == "scatter":
        return types(a[1], memo)  # an array keeps its type
    if op == "ext":
        return {FLOAT} if a[0] in ("numpy.pi", "numpy.nan", "numpy.inf", "math.pi", "numpy.e") or "constants" in a[0] else {UNKNOWN}
    if op == "call":
        n = callee_name(a[0])
        kw = dict(a[2])
        if n == "numpy.astype" and len(a[1]) > 1:
            return typed(a[1][1])
        if n in SAME and a[1]:
            if "dtype" in kw:
                return typed(kw["dtype"])
            return rec(a[1]) if n in ("numpy.maximum", "numpy.minimum", "numpy.add", "numpy.subtract", "numpy.multiply",
                                      "builtins.max", "builtins.min") else types(a[1][0], memo)
        if n in FLOATS or n.startswith(("choclo.", "scipy.")):
            return {FLOAT}
        if n in STACKS:
            return rec(a[1])
        if n == "numpy.where" and len(a[1]) == 3:
            return rec(a[1][1:])
        if n == "builtins.float":
            return {FLOAT}
    return {UNKNOWN}


def lost(target, stored):
    """Why values of some types do not fit in an array of others, if they do not."""
    if UNKNOWN in target or FLOAT in target or UNKNOWN in stored and FLOAT not in stored:
        return None
    stored = stored - {UNKNOWN}
    rest = sorted(stored - target - {INT, SINGLE})
    if not rest or not target:
        return None
    what = "floats" if FLOAT in rest else "values of the type of " + ", ".join(rest)
    if SINGLE in target:
        return f"{what} are stored in an array of single precision"
    kind = ", ".join(sorted(target - {INT})) or "integers"
    return f"{what} are stored in an array that has the element type of {kind}"


def whole(v):
    return is_const(v) and isinstance(v.args[0], (int, float)) and v.args[0] == v.args[0] and v.args[0] % 1 == 0


def judge(ctx, case, rule="element types"):
    I, res = ctx.D.I, case.res
    kinds, out, n, made = {}, {}, 0, {}
    for e in res.events:
        if e.kind == "alloc":
            d = e.dtype
            if e.fn == "array" and d is None:
                c = e.shape
                d = mk_dtype(c)
            kinds[e.obj] = typed(d) if d is not None or e.fn in ("zeros", "ones", "empty") else {UNKNOWN}
            if e.fn == "full" and d is None:
                kinds[e.obj] = {UNKNOWN}
            if isinstance(e.content, T) and e.content.op == "bcval":
                made[e.content] = made.get(e.content, set()) | kinds[e.obj]
        elif e.kind == "mutate" and e.args:
            v = e.args[-1]
            if not isinstance(v, T) or e.how == "del":
                continue
            for r in I.roots(e.target, res.st):
                if r in kinds:
                    n += 1
                    why = lost(kinds[r], {INT} if whole(v) else types(v, dict(made)))
                    if why:
                        out.setdefault(why, violation(rule, f"{case.api}: {why}", f"{why} in context [{case.label}]",
                                                      where=e.where()))
    for x in walk(res.value):
        if x.op == "call" and callee_name(x.args[0]) in ("numpy.astype", "numpy.asarray", "numpy.array"):
            d = x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get("dtype")
            if d is None:
                continue
            n += 1
            why = lost(typed(d), types(x.args[1][0], dict(made)))
            if why:
                out.setdefault(why, violation(rule, f"{case.api}: {why}", f"{why} in context [{case.label}]",
                                              where=getattr(res, "entry", "")))
    return list(out.values()) or [ok(rule, f"{case}: {n} stores")]


def mk_dtype(shape):
    """The element type of an array made from a term, recognised by its shape attribute."""
    from ..terms import mk

    return mk("attr", shape.args[0], "dtype") if shape is not None and shape.op == "attr" else None


def check(ctx):
    from ..drive import Case, p
    from .common import cases

    for n in ("truncates", "rounds"):
        r = ctx.D.I.run(ctx.D.specs[n], [p("x")], {})
        c = Case(ctx.D, n, "", lambda: r)
        ctx.positive(f"element types ({n})", any(x["status"] == "violation" for x in judge(ctx, c)))
    ctx.pmap(lambda c: judge(ctx, c), cases(ctx), "element types", 120)
    ctx.floor("element types", 300)
