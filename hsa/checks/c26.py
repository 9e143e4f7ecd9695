"""Liveness of parameters. (1) In the value graphs of the calls of every public function, every symbolic
argument reaches an outcome of the call in at least one context: the returned value, an attribute the object
ends up with, an array that is written, or the condition or contents of an error, warning or written
attribute. (2) In the syntax tree of every public function and method, the value that a caller gives to each
parameter is read on some path, before it is overwritten."""

import ast
import itertools

from ..gvn import reach
from ..report import ok, violation
from ..terms import T, is_const
from .common import cases

# parameters that the documentation says are not used
UNUSED = {"args", "kwargs", "_"}
OUTCOMES = {"raise", "warning", "mutate", "setattr", "warn"}


def outcomes(res):
    """Terms a caller can tell two calls by."""
    yield res.value
    before = own(res, res.st0)
    for n, v in own(res, res.st).items():
        if v is not before.get(n):
            yield v
    for e in res.events:
        if e.kind in OUTCOMES:
            yield from (c for c in e.pc if isinstance(c, T))
            for x in vars(e).values():
                for y in x if isinstance(x, (tuple, list)) else [x]:
                    if isinstance(y, T):
                        yield res.interp.freeze(y, res.st)
        elif e.kind == "alloc" and isinstance(e.dtype, T):
            yield e.dtype


def own(res, st):
    """Attributes of the object a method was called on, or of the one a constructor makes."""
    fn = res.given[-1]
    o = res.interp.obj(fn.args[0] if fn.op == "bound" else res.raw, st) if fn.op in ("bound", "cls") else None
    if o is None or o.kind in ("list", "dict", "array"):
        return {}
    return {k: res.interp.freeze(v, st) for k, v in o.fields.items() if isinstance(k, str) and isinstance(v, T)}


def params(terms):
    return {x.args[0] for x in reach(list(terms)) if x.op == "param"}


def given(res):
    """The unknowns that each argument of a call consists of."""
    fn = res.given[-1]
    node = getattr(fn.args[0], "node", None) if fn.op == "func" else None
    if node is not None and [a.arg for a in node.args.args] == ["self"]:
        return  # a property
    for x in res.given[:-1]:
        if isinstance(x, T):
            names = params([res.interp.freeze(x, res.st0)])
            if names:
                yield frozenset(names)


def signature(res):
    """What a call does, without the arguments that it only hands on to other functions of the package."""
    def key(x):
        return tuple(map(key, x)) if isinstance(x, (tuple, list)) else x.uid if isinstance(x, T) else repr(x)

    out = [res.value.uid]
    for e in res.events:
        if e.kind in ("enter", "jit"):
            f = e.func
            out.append((f.mod.name, f.qualname, str(getattr(f, "jit", None)), id(f) if e.kind == "jit" else 0))
        else:
            d = {k: v for k, v in vars(e).items() if k not in ("stack", "loc", "jit", "node", "loops", "body")}
            out.append(tuple(sorted((k, key(res.interp.freeze(v, res.st) if isinstance(v, T) else v)) for k, v in d.items())))
    return out


def options(api, group, rule="options"):
    """Options that are given as constants: some pair of calls that differ in one of them only differ in what they do."""
    found, where, n = {}, "", 0
    for a, b in itertools.combinations(group, 2):
        x, y = a.res.options, b.res.options
        where = where or getattr(a.res, "entry", "")
        if a.res.given[-1] is not b.res.given[-1] and a.res.given[-1].op != "bound":
            continue
        differ = [k for k in x.keys() | y.keys() if x.get(k) is not y.get(k)]
        if len(differ) != 1 or isinstance(differ[0], int) and not all(is_const(o.get(differ[0])) for o in (x, y)):
            continue
        k = differ[0]
        if any(v is not None and not is_const(v) for v in (x.get(k), y.get(k))) or found.get(k):
            continue
        n += 1
        found[k] = signature(a.res) != signature(b.res)
    dead = sorted(str(k) for k, v in found.items() if not v)
    if dead:
        return [violation(rule, f"{api}: {k}", f"calls that differ in the option {k} only do the same", where=where) for k in dead]
    return ok(rule, f"{api}: {sorted(map(str, found))}")


def judge(api, group, rule="effect"):
    """Arguments of a function in some of its contexts, or settings of an object in some of its methods."""
    want, seen, where = set(), set(), ""
    for c in group:
        res = c.res
        want |= {frozenset({n}) for v in own(res, res.st0).values() for n in params([v])} if api.endswith(" settings") else set(given(res))
        seen |= params(outcomes(res))
        where = where or getattr(res, "entry", "")
    dead = sorted(", ".join(sorted(w)) for w in want if not w & seen)
    if dead:
        return [violation(rule, f"{api}: {n}", f"{n} has no effect on the outcome of any of {len(group)} "
                          f"contexts", where=where) for n in dead]
    return ok(rule, f"{api}: {len(want)} arguments in {len(group)} contexts")


def is_stub(fn):
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def live(fn):
    """Names whose value on entry may be read (backward liveness over the statements)."""
    def names(node, ctx):
        return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

    def block(stmts, out):
        for s in reversed(stmts):
            out = stmt(s, out)
        return out

    def stmt(s, out):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return (out - {s.name}) | names(s, ast.Load)
        if isinstance(s, ast.If):
            return names(s.test, ast.Load) | block(s.body, out) | block(s.orelse, out)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            inner = out | block(s.orelse, out)
            return names(s.iter, ast.Load) | inner | (block(s.body, inner | names(s, ast.Load)) - names(s.target, ast.Store))
        if isinstance(s, ast.While):
            inner = out | block(s.orelse, out) | names(s.test, ast.Load)
            return inner | block(s.body, inner | names(s, ast.Load))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return set().union(*(names(i.context_expr, ast.Load) for i in s.items)) | block(s.body, out)
        if isinstance(s, ast.Try):
            after = block(s.finalbody, out)
            rest = block(s.orelse, after)
            h = set().union(*(block(x.body, after) for x in s.handlers), set())
            return block(s.body, rest) | h | set().union(*(names(x, ast.Load) for x in s.handlers), set())
        if isinstance(s, ast.Match):
            return names(s.subject, ast.Load) | set().union(*(block(c.body, out) for c in s.cases)) | out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return out
            killed = {t.id for t in targets if isinstance(t, ast.Name)}
            for t in targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    killed |= {x.id for x in t.elts if isinstance(x, ast.Name)}
            return (out - killed) | names(s, ast.Load)
        if isinstance(s, ast.AugAssign):
            return out | names(s, ast.Load) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, (ast.Return, ast.Raise)):
            return names(s, ast.Load)
        return out | names(s, ast.Load)

    return block(fn.body, set())


def public(project):
    for mod in project.modules.values():
        if mod.name.startswith("spec."):
            continue
        for n in mod.tree.body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
                yield mod, n.name, n
            if isinstance(n, ast.ClassDef) and not n.name.startswith("_"):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and (m.name == "__init__" or not m.name.startswith("_")):
                        yield mod, f"{n.name}.{m.name}", m


def dead(fn):
    a = fn.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars") for x in ast.walk(fn)):
        return []
    return [n for n in names if n not in ("self", "cls") and not n.startswith("_") and n not in live(fn)]


def check(ctx):
    groups = {}
    for c in cases(ctx):
        groups.setdefault(c.api, []).append(c)
        if "." in c.api and "assigned" not in c.label:
            groups.setdefault(c.api.split(".")[0] + " settings", []).append(c)
    ctx.pmap(lambda g: judge(*g), sorted(groups.items(), key=lambda g: g[0]), "effect", 300)
    ctx.floor("effect", 40)
    ctx.pmap(lambda g: options(*g), sorted((g for g in groups.items() if not g[0].endswith(" settings")), key=lambda g: g[0]), "options", 300)
    for mod, name, fn in public(ctx.project):
        if is_stub(fn):
            continue
        bad = dead(fn)
        for n in bad:
            ctx.add(violation("reads", f"{mod.name}.{name}: {n}", f"the value given to {n} is never read",
                              where=f"{ctx.project.relpath(mod)}:{fn.lineno} ({name})"))
        if not bad:
            ctx.add(ok("reads", f"{mod.name}.{name}"))
    ctx.floor("reads", 60)
    t = ast.parse("def f(a, b, c):\n    b = 1\n    if c:\n        return a\n    return b\n").body[0]
    ctx.positive("reads", dead(t) == ["b"])
