"""Race analysis of parallel loops. For every prange loop of a function compiled with parallel=True that is
reachable from the public calls: a store to memory that exists before the iteration must be subscripted, in
one fixed axis, by the loop variable through an injective affine term that involves no inner loop; loads from
memory the loop stores to must use the same element; a scalar carried from one iteration to the next must be
a reduction Numba recognises and must not be read elsewhere in the iteration; lists and dictionaries must not
be changed. Every prange loop of the source must be reached."""

import ast

from ..report import ok, undecided, violation
from ..terms import T, contains, is_const, mk, show, walk

REDUCE = {"+", "-", "*", "/"}


def parallel_loops(I, e):
    out = []
    for l in e.loops:
        info = I.loop_info.get(l)
        if info and info["parallel"] and dict(info.get("jit") or ()).get("parallel") not in (None, False) \
                and _true(dict(info["jit"])["parallel"]):
            out.append(l)
    return out


def _true(v):
    if isinstance(v, T):
        return is_const(v) and bool(v.args[0])
    return bool(v)


def has(t, x):
    return contains(t, lambda y: y is x)


def base_and_index(I, base, idx):
    """Storage and subscripts of an access, through views."""
    subs = [idx]
    while base.op in ("view", "item"):
        subs.append(base.args[1])
        base = base.args[0]
    comps = []
    for s in reversed(subs):
        comps.append(tuple(s.args) if s.op == "tuple" else (s,))
    return base, tuple(comps)


def injective(c, i, inner):
    """'yes', 'no' or 'maybe': distinct values of loop variable i give distinct values of c."""
    if c is i:
        return "yes"
    if not has(c, i):
        return "no"
    if c.op in ("+", "-", "sum") or c.op == "neg":
        with_i = [a for a in c.args if isinstance(a, T) and has(a, i)]
        rest = [a for a in c.args if isinstance(a, T) and not has(a, i)]
        if len(with_i) == 1:
            r = injective(with_i[0], i, inner)
            if any(contains(x, lambda y: y in inner or y.op == "mu") for x in rest):
                plain = with_i[0] is i
                return "no" if plain and r == "yes" else "maybe"
            return r
        return "maybe"
    if c.op == "*":
        with_i = [a for a in c.args if isinstance(a, T) and has(a, i)]
        rest = [a for a in c.args if isinstance(a, T) and not has(a, i)]
        if len(with_i) == 1 and all(is_const(x) and x.args[0] for x in rest):
            return injective(with_i[0], i, inner)
        return "maybe"
    if c.op in ("//", "%") and c.args[0] is i and is_const(c.args[1]):
        return "no"
    return "maybe"


def private(I, base, lid, allocs):
    """The storage is created inside the iteration."""
    if base.op == "obj":
        loops = allocs.get(base.args[0])
        return loops is not None and lid in loops
    if base.op in ("param", "ext"):
        return False
    return not I.roots(base)


def judge(ctx, case, reached):
    I = ctx.D.I
    res = case.res
    allocs = {}
    for e in res.events:
        if e.kind == "alloc" and e.obj.op == "obj":
            allocs[e.obj.args[0]] = e.loops
    out = []
    written = {}
    accesses = []
    for e in res.events:
        if not e.loops:
            continue
        for lid in parallel_loops(I, e):
            reached.add(I.loop_info[lid]["loc"])
            i = mk("idx", lid)
            inner = [mk("idx", l) for l in e.loops[e.loops.index(lid) + 1:]]
            if e.kind == "mutate":
                t = e.target
                if e.how == "[]=":
                    base, comps = base_and_index(I, t, e.args[0])
                    if private(I, base, lid, allocs):
                        continue
                    accesses.append((lid, i, inner, base, comps, e))
                    written.setdefault((lid, base), []).append((comps, e))
                elif e.how.startswith("."):
                    if contains(t, lambda y: y.op == "entered") or t.op == "param" or e.how == ".update()":
                        continue
                    if not private(I, t, lid, allocs):
                        out.append(violation("parallel stores", f"{e.loc[2]}: {e.how}",
                                             f"every iteration of the parallel loop changes the shared {show(t, 2)}",
                                             where=e.where()))
            elif e.kind == "index" and not e.write:
                base, comps = base_and_index(I, e.base, e.idx)
                if base.op == "obj" and not private(I, base, lid, allocs):
                    accesses.append((lid, i, inner, base, comps, e))
    n = 0
    for (lid, base), stores in written.items():
        axes = set()
        i = mk("idx", lid)
        for comps, e in stores:
            inner = [mk("idx", l) for l in e.loops[e.loops.index(lid) + 1:]]
            n += 1
            verdicts = {}
            for depth, cs in enumerate(comps):
                for k, c in enumerate(cs):
                    verdicts[depth, k] = injective(c, i, inner)
            name = f"{e.loc[2]}: {', '.join(show(c, 3) for cs in comps for c in cs)}"
            pinned = any(has(c, i) and contains(c, lambda y: y.op == "==" and has(y, i)) for c in e.pc)
            if "yes" in verdicts.values():
                axes.add(tuple(k for k, v in sorted(verdicts.items()) if v == "yes"))
            elif pinned or "maybe" in verdicts.values():
                out.append(undecided("parallel stores", f"{case} {name}", "subscript not affine in the loop variable"))
            else:
                out.append(violation("parallel stores", f"{e.loc[2]}: element shared by iterations",
                                     f"the store to [{name.split(': ', 1)[1]}] hits the same element in different "
                                     f"iterations of the parallel loop", where=e.where()))
        if len(axes) > 1 and not set.intersection(*(set(a) for a in axes)):
            e = stores[0][1]
            out.append(violation("parallel stores", f"{e.loc[2]}: axes", "stores use the loop variable in different axes",
                                 where=e.where()))
        # loads of the same storage
        for l2, _, inner, b2, comps, e in accesses:
            if l2 != lid or b2 is not base or e.kind != "index":
                continue
            flat = [c for cs in comps for c in cs]
            same = [c for c in flat if c is i]
            if same:
                continue
            wrote = {c for cs, _ in stores for d in cs for c in d}
            if any(c in wrote and has(c, i) for c in flat):
                continue
            if any(has(c, i) for c in flat) and all(injective(c, i, inner) == "maybe" for c in flat if has(c, i)):
                out.append(undecided("parallel loads", f"{case} {e.loc[2]}", "subscript not affine in the loop variable"))
                continue
            out.append(violation("parallel loads", f"{e.loc[2]}: element of another iteration",
                                 f"the iteration reads [{', '.join(show(c, 3) for c in flat)}] which other iterations "
                                 f"of the parallel loop write", where=e.where()))
        n += 1
    # scalars carried by the iterations
    for lid in sorted({l for e in res.events for l in (parallel_loops(I, e) if e.loops else ())}):
        info = I.loop_info[lid]
        for name, (m, v0, v1) in (info.get("carried") or {}).items():
            n += 1
            if v1 is m or v1.op == "unbound":
                continue
            out.extend(scalar(I, res, lid, name, m, v1))
    if not out and n:
        out.append(ok("parallel loops", f"{case}: {n} stores and carried scalars"))
    return out


def kept(v, m):
    """The value is a new one or, when an inner branch or loop does nothing, the old one."""
    if v is m or not has(v, m):
        return True
    if v.op in ("ite", "loopval", "last", "default"):
        parts = [a for a in v.args if isinstance(a, T)]
        if v.op == "ite" and has(parts[0], m):
            return False
        return all(kept(a, m) for a in parts)
    if v.op == "rec":
        lid, name, init, nxt = v.args
        if has(nxt, m) and not kept(nxt, m):
            return False
        return not has(init, m) or kept(init, m) and kept(nxt, mk("mu", lid, name))
    return False


def scalar(I, res, lid, name, m, v1):
    info = I.loop_info[lid]
    where = "%s:%d (%s)" % info["loc"]
    reads = any(
        lid in e.loops and any(isinstance(x, T) and has(x, m) for x in _terms(e))
        for e in res.events if e.kind in ("mutate", "index", "call", "enter", "jit", "raise")
    )
    if kept(v1, m):
        if reads:
            yield violation("carried scalars", f"{info['loc'][2]}: {name}",
                            f"an iteration of the parallel loop reads {name} as another iteration left it", where=where)
        return
    ok_form = v1.op in REDUCE | {"sum"} and sum(1 for a in v1.args if isinstance(a, T) and has(a, m)) == 1 and any(
        a is m for a in v1.args)
    if v1.op == "ite":
        ok_form = all(x is m or x.op in REDUCE and any(a is m for a in x.args) for x in v1.args[1:]) \
            and not has(v1.args[0], m)
    if not ok_form:
        yield violation("carried scalars", f"{info['loc'][2]}: {name}",
                        f"{name} is carried from one iteration of the parallel loop to the next", where=where)
    elif reads:
        yield violation("carried scalars", f"{info['loc'][2]}: {name}",
                        f"an iteration of the parallel loop reads the partial value of {name}", where=where)


def _terms(e):
    for k in ("args", "idx", "target", "base"):
        v = getattr(e, k, None)
        if isinstance(v, T):
            yield v
        elif isinstance(v, (tuple, list)):
            yield from v
    yield from e.pc


def check(ctx):
    D = ctx.D
    cs = [c for c in D.cases("point_gravity", "dipole_magnetic", "prism_gravity", "prism_magnetic",
                             "tesseroid_gravity", "layer_gravity", "eqs", "igrf", "layer_other", "ellipsoid",
                             "simple")
          if "parallel=False" not in c.label]

    def task(c):
        reached = set()
        recs = judge(ctx, c, reached)
        # what was reached travels back through the records
        return list(recs) + [ok("reached", "%s:%d (%s)" % r) for r in sorted(reached)]

    ctx.pmap(task, cs, "parallel loops", limit=100)
    seen = {r["instance"] for r in ctx.records if r["rule"] == "reached"}
    total = 0
    for mod, qual, node in ctx.project.functions():
        for x in ast.walk(node):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and "prange" in ast.unparse(x.iter.func):
                total += 1
                key = f"{ctx.project.relpath(mod)}:{x.lineno} ({qual})"
                if not any(s.split(" (")[0] == key.split(" (")[0] for s in seen):
                    ctx.add(undecided("prange loops", key, "not reached in parallel from the analysed calls"))
                else:
                    ctx.add(ok("prange loops", key))
    ctx.records = [r for r in ctx.records if r["rule"] != "reached"]
    ctx.floor("prange loops", 1)
    ctx.floor("parallel loops", 10)
