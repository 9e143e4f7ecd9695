"""Comparison of an analysed call with its reference, one aspect at a time."""

from .drive import INVALID, OPTIONS
from .gvn import IDENTITY, callee_name, made_grid
from .report import ok, undecided, violation
from .terms import FALSE, NONE, T, const, contains, is_const, mk, show, walk

VALIDATION = ("ValueError", "NotImplementedError", "TypeError", "AttributeError", "IOError", "OSError",
              "KeyError", "RuntimeError", "IndexError")


def _where(case):
    """file:line (function) of the entry point behind a case."""
    return getattr(case.res, "entry", "")


def _short(x):
    s = repr(x)
    return s if len(s) < 90 else s[:87] + "..."


# --------------------------------------------------------------------------- conditions


def and_all(cs):
    cs = list(cs)
    if not cs:
        return const(True)
    t = cs[0]
    for c in cs[1:]:
        t = mk("and", t, c)
    return t


def or_all(cs):
    cs = list(cs)
    if not cs:
        return FALSE
    t = cs[0]
    for c in cs[1:]:
        t = mk("or", t, c)
    return t


def when(event):
    """The condition under which an event happens."""
    c = and_all(event.pc)
    for i in reversed(event.loops):
        if not (isinstance(i, T) and i.op == "idx"):
            i = mk("idx", i)
        c = mk("exists", i, c)
    return c


def happens(res, kind, select=lambda e: True):
    return or_all(when(e) for e in res.events if e.kind == kind and select(e))


# --------------------------------------------------------------------------- value


def compare(case, pairs, rule, instance, comparer, pc=None, want=None, options=None, message="", api=None):
    a, b = case.res, case.spec
    c = comparer
    if want:
        c.want = want
    if pc is None:
        pc = list(a.st.pc) + list(b.st.pc)
    opts = OPTIONS.get(api or case.api, {}) if options is None else options
    if "close" in opts:
        opts = dict(opts, close=(opts["close"], [y for _, _, y in components(a.value, b.value)]))
    status, label, detail = c.compare(pairs, pc, **opts)
    if status == "equal":
        return ok(rule, instance)
    if status == "undecided":
        return undecided(rule, instance, detail)
    seed, x, y = detail
    return violation(rule, f"{case.api}: {label}" if label else instance,
                     f"{message or 'differs from the reference'} in context [{case.label}] "
                     f"({label}: {_short(x)} instead of {_short(y)} at sample point {seed})",
                     where=_where(case))


def value(case, comparer, rule="value", split=None):
    """The returned value is the same function of the arguments as the reference."""
    if case.spec is None:
        return undecided(rule, case, "no reference")
    if not case.res.alive and not case.spec.alive:
        return ok(rule, case, "never returns")
    if not case.res.alive:
        return violation(rule, f"{case.api}: never returns", f"every path of {case} raises", where=_where(case))
    if not case.spec.alive:
        return violation(rule, f"{case.api}: returns", f"{case} returns where the reference always raises",
                         where=_where(case))
    pairs = list(split(case.res, case.spec) if split else components(case.res.value, case.spec.value))
    out = []
    for p in pairs:
        out.append(compare(case, [p], rule, f"{case} {p[0]}", comparer))
    return out


def components(a, b, label="result"):
    """Pair up the components of two results."""
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        for k, (x, y) in enumerate(zip(a.args, b.args)):
            yield from components(x, y, f"{label}[{k}]")
    elif made_grid(a) is not None and made_grid(b) is not None:
        yield from grid_parts(a, b, label)
    else:
        yield label, a, b


def grid_parts(a, b, label):
    """Coordinates, data, names and dimensions of two grids under construction."""
    signature = ("coordinates", "data", "data_names", "data_units", "dims", "extra_coords_names")
    x, y = (dict(zip(signature, t.args[1])) | dict(t.args[2]) for t in (a, b))
    for k in signature:
        if k in x and k in y:
            for l, u, v in components(x[k], y[k], f"{label} {k}"):
                if k in ("coordinates", "data"):
                    # one element away from the diagonal stands for all of them
                    u, v = (mk("item", t, mk("tuple", const(1), const(2))) for t in (u, v))
                yield l, u, v
        elif k in x or k in y:
            yield f"{label} {k}", x.get(k, NONE), y.get(k, NONE)


def attributes(case, comparer, names=None, rule="state"):
    """The attributes the object ends up with."""
    a, b = case.res, case.spec
    fa, fb = fields(case.res), fields(case.spec)
    out = []
    for n in names if names is not None else sorted(fb):
        x, y = fa.get(n), fb.get(n)
        if y is None:
            continue
        if x is None:
            out.append(violation(rule, f"{case.api}: attribute {n}", f"{n} is never set in context [{case.label}]",
                                 where=_where(case)))
            continue
        out.append(compare(case, [(f"attribute {n}", x, y)], rule, f"{case} .{n}", comparer))
    return out


def fields(res):
    """Fields of the object a method was called on, after the call."""
    o = getattr(res, "self_obj", None)
    if o is None:
        o = res.raw
    f = res.interp.obj(o, res.st).fields
    return {k: res.interp.freeze(v, res.st) for k, v in f.items() if isinstance(k, str)}


# --------------------------------------------------------------------------- coordinates and attributes


def marks(res):
    """Coordinates, attributes and names written on the result or on an argument: key -> [(when, value)]."""
    out = {}

    def add(key, cond, val):
        out.setdefault(key, []).append((cond, val))

    def mapping(where, cond, d):
        if d.op == "dict":
            for kv in d.args[0] if d.args and isinstance(d.args[0], tuple) else d.args:
                if kv.op == "kv" and (not isinstance(kv.args[0], T) or is_const(kv.args[0])):
                    k = kv.args[0]
                    add((where, k.args[0] if isinstance(k, T) else k), cond, kv.args[1])

    for e in res.events:
        if e.kind == "mutate" and e.target.op == "attr" and e.target.args[1] in ("coords", "attrs"):
            where = e.target.args[1]
            if e.how == "[]=" and is_const(e.args[0]):
                add((where, e.args[0].args[0]), when(e), e.args[1])
            elif e.how == ".update()" and e.args:
                mapping(where, when(e), res.interp.freeze(e.args[0], res.st))
        elif e.kind in ("mutate", "setattr"):
            name = e.name if e.kind == "setattr" else e.how[1:].split(" ")[0] if e.how.endswith(" =") else ""
            val = e.value if e.kind == "setattr" else e.args[0]
            if name == "attrs":
                mapping("attrs", when(e), res.interp.freeze(val, res.st))
            elif name == "name":
                add(("name",), when(e), val)
    todo = [(res.value, const(True))]
    while todo:
        t, cond = todo.pop()
        if t.op == "ite":
            todo += [(t.args[1], mk("and", cond, t.args[0])), (t.args[2], mk("and", cond, mk("not", t.args[0])))]
        elif t.op in ("withattrs", "locstore"):
            todo.append((t.args[0], cond))
        elif t.op == "call" and callee_name(t.args[0]) in ("numpy.assign_coords", "numpy.assign_attrs",
                                                           "numpy.assign") and t.args[1]:
            where = {"assign_coords": "coords", "assign_attrs": "attrs", "assign": "vars"}[
                callee_name(t.args[0])[6:]]
            for a in t.args[1][1:]:
                mapping(where, cond, a)
            for k, v in t.args[2]:
                add((where, k), cond, v)
            todo.append((t.args[1][0], cond))
        elif t.op == "call" and callee_name(t.args[0]) == "numpy.rename" and len(t.args[1]) == 2:
            add(("name",), cond, t.args[1][1])
            todo.append((t.args[1][0], cond))
    return out


def marking(case, comparer, rule="marks", select=lambda key: True):
    """The coordinates, attributes and names the reference writes are written, with the same values."""
    if case.spec is None:
        return undecided(rule, case, "no reference")
    a, b = marks(case.res), marks(case.spec)
    out = []
    for key in sorted(k for k in b if select(k)):
        label = ".".join(map(str, key))
        if key not in a:
            out.append(violation(rule, f"{case.api}: {label}", f"{label} is never written in context [{case.label}]",
                                 where=_where(case)))
            continue
        x, y = a[key][-1][1], b[key][-1][1]
        pairs = list(components(x, y, label))
        for p in pairs:
            out.append(compare(case, [p], rule, f"{case} {p[0]}", comparer))
        out.append(compare(case, [(f"condition of {label}", or_all(c for c, _ in a[key]),
                                   or_all(c for c, _ in b[key]))], rule, f"{case} when {label}", comparer))
    return out


# --------------------------------------------------------------------------- errors and warnings


def raising(case, comparer, rule="errors", want=200, options=None, exclude=("ImportError", "OverflowError")):
    """The call is refused for exactly the inputs the reference refuses."""
    a, b = case.res, case.spec
    if b is None:
        return undecided(rule, case, "no reference")
    sel = lambda e: e.exc not in exclude
    if options is None:
        options = INVALID.get(case.api, OPTIONS.get(case.api, {}))
    x, y = happens(a, "raise", sel), happens(b, "raise", sel)
    out = [compare(case, [("refusal of invalid input", x, y)], rule, f"{case}", comparer, pc=(), want=want,
                   options=options, message="accepts and refuses different inputs than documented")]
    have = {e.exc for e in a.events if e.kind == "raise"}
    # errors of operations (a missing key, say) happen inside whatever the code uses instead
    implicit = ("KeyError", "IndexError", "AttributeError", "ZeroDivisionError")
    for exc in sorted({e.exc for e in b.events if e.kind == "raise" and sel(e) and e.exc not in implicit}):
        if exc in have:
            out.append(ok(rule + " type", f"{case} {exc}"))
        elif not any(e.kind in ("unsupported", "opaque") for e in a.events):
            out.append(violation(rule + " type", f"{case.api}: {exc}",
                                 f"{exc} is never raised in context [{case.label}]", where=_where(case)))
    return out


def warning(case, comparer, rule="warnings", want=100, options=None):
    """A warning is issued for exactly the inputs of the reference."""
    a, b = case.res, case.spec
    if b is None:
        return undecided(rule, case, "no reference")
    x, y = happens(a, "warn"), happens(b, "warn")
    if x is FALSE and y is FALSE:
        return None
    return compare(case, [("warning", x, y)], rule, f"{case}", comparer, want=want, options=options,
                   pc=list(a.st.pc) + list(b.st.pc),
                   message="warns for other inputs than documented")


# --------------------------------------------------------------------------- shape


class Unknown(Exception):
    pass


ELEMENTWISE = {"+", "-", "*", "/", "**", "//", "%", "neg", "<", "<=", ">", ">=", "==", "!=", "not", "&", "|"}
FLAT = "flat"


def shapes(t):
    """Possible shapes of an array term: sets of the arguments it is broadcast from."""
    op, a = t.op, t.args
    if op == "const":
        return {frozenset()}
    if op == "param":
        return {frozenset() if "scalar" in a[1:] else frozenset([a[0]])}
    if op == "ite":
        if _no_dimensions(a[0]):
            return shapes(a[2])
        return shapes(a[1]) | shapes(a[2])
    if op in ELEMENTWISE:
        return _join([x for x in a if isinstance(x, T)])
    if op == "bcast":
        return _join(list(a[1]))
    if op == "withattrs":
        return shapes(a[0])
    if op == "attr" and a[1] in ("values", "data", "real"):
        return shapes(a[0])
    if op == "call":
        n = callee_name(a[0])
        if n == "numpy.reshape" and len(a[1]) == 2:
            return of_shape(a[1][1])
        if n == "numpy.broadcast":
            return _join(list(a[1]))
        if n in ("builtins.float", "builtins.int", "builtins.complex") and len(a[1]) == 1:
            return {frozenset()}
        if n in ("numpy.ravel", "numpy.flatten"):
            return {FLAT}
        if n in IDENTITY and a[1] or n == "numpy.astype":
            return shapes(a[1][0])
        if n in ("numpy.sqrt", "numpy.abs", "numpy.radians", "numpy.sin", "numpy.cos", "numpy.arctan2",
                 "numpy.hypot", "numpy.exp", "numpy.degrees"):
            return _join(list(a[1]))
    if op in ("scatter", "recarr", "bcval"):
        s = a[1] if op != "bcval" else None
        if op == "bcval":
            return of_shape(a[1])
        return shapes(s)
    if op in ("rec", "loopval"):
        return shapes(a[2])
    raise Unknown(show(t, 2))


def _no_dimensions(cond):
    """The condition that an array is a single number: there a plain number has the documented shape."""
    if cond.op == "and":
        return any(_no_dimensions(x) for x in cond.args)
    if cond.op != "==":
        return False
    for x, y in (cond.args, cond.args[::-1]):
        if x.op == "attr" and x.args[1] == "shape":
            return y == mk("tuple") or y.op == "const" and y.args[0] == ()
        if x.op == "attr" and x.args[1] == "ndim":
            return is_const(y) and y.args[0] == 0
    return False


def of_shape(s):
    """What a shape term says."""
    if s.op == "attr" and s.args[1] == "shape":
        return shapes(s.args[0])
    if s.op == "attr" and s.args[1] == "size":
        return {FLAT}
    if s.op == "ite":
        return of_shape(s.args[1]) | of_shape(s.args[2])
    if s.op == "const" and isinstance(s.args[0], int):
        return {FLAT}
    if s.op == "const" and s.args[0] == ():
        return {frozenset()}
    raise Unknown(show(s, 2))


def _join(xs):
    out = {frozenset()}
    for x in xs:
        new = set()
        for s in shapes(x):
            for o in out:
                new.add(FLAT if FLAT in (s, o) else s | o)
        out = new
    return out


def reordered(t):
    """Arrays that are flattened in one order and folded in another."""
    top = t.op == "call" and callee_name(t.args[0]) == "numpy.reshape"
    if not top:
        return None
    order = dict(t.args[2]).get("order")
    if order is None or is_const(order) and order.args[0] in ("C", "K", "A"):
        return None
    inner = [x for a in t.args[1][:1] for x in walk(a) if x.op == "call" and "order" in dict(x.args[2])]
    return order if not inner else None


def shape(case, names, rule="shape"):
    """Every returned array has the broadcast shape of the named arguments."""
    want = frozenset(names)
    out = []
    if not case.res.alive:
        return undecided(rule, case, "never returns")
    for label, t, _ in components(case.res.value, case.res.value):
        inst = f"{case} {label}"
        bad = reordered(t)
        if bad is not None:
            out.append(violation(rule, f"{case.api}: {label}", f"flattened in C order and folded in order {show(bad)} "
                                 f"in context [{case.label}]", where=_where(case)))
            continue
        try:
            s = shapes(t)
        except Unknown as e:
            out.append(undecided(rule, inst, f"shape of {e}"))
            continue
        wrong = [x for x in s if x != want]
        if wrong:
            text = ", ".join("one-dimensional" if x == FLAT else "the shape of " + ("+".join(sorted(x)) or "a scalar")
                             for x in wrong)
            out.append(violation(rule, f"{case.api}: {label}", f"result has {text}, not the broadcast shape of "
                                 f"{'+'.join(sorted(want))}, in context [{case.label}]", where=_where(case)))
        else:
            out.append(ok(rule, inst))
    return out
