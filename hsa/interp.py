"""Abstract interpreter: builds a gated value graph of the analysed package.

The interpreter walks the syntax tree of a function once per calling context.  Both
sides of an undecided branch are analysed and joined with gates (``ite`` nodes), loops
over unknown collections are summarised with symbolic indices (``sum``, ``scatter``,
``rec`` nodes), in-package calls are inlined through the resolved callee.  No code of
the package is imported or executed.
"""

import ast
import builtins

from . import lib
from .project import AnalysisBroken
from .terms import (
    ABSENT,
    FALSE,
    NONE,
    ONE,
    TRUE,
    UNBOUND,
    ZERO,
    T,
    const,
    contains,
    is_const,
    mk,
    subst,
    walk,
)

BINOPS = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.Div: "/",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.Pow: "**",
    ast.MatMult: "@",
    ast.BitAnd: "&",
    ast.BitOr: "|",
    ast.BitXor: "^",
    ast.LShift: "<<",
    ast.RShift: ">>",
}
CMPOPS = {
    ast.Lt: "<",
    ast.LtE: "<=",
    ast.Gt: ">",
    ast.GtE: ">=",
    ast.Eq: "==",
    ast.NotEq: "!=",
    ast.Is: "is",
    ast.IsNot: "is not",
    ast.In: "in",
    ast.NotIn: "not in",
}
MAX_UNROLL = 64
MAX_DEPTH = 60


class FuncInfo:
    """A function of the package (or of a specification) with its closure."""

    _cache = {}

    def __init__(self, node, mod, qualname, cls=None, closure=None):
        self.node = node
        self.mod = mod
        self.qualname = qualname
        self.name = getattr(node, "name", "<lambda>")
        self.cls = cls
        self.closure = closure
        self.defaults = ()
        self.kw_defaults = {}
        self.jit = None
        self.kind = "function"  # function, property, static, class
        self.setter = None

    def with_jit(self, flags):
        key = (id(self.node), self.closure, tuple(sorted(flags, key=str)))
        f = FuncInfo._cache.get(key)
        if f is None or f.node is not self.node:
            f = FuncInfo(self.node, self.mod, self.qualname, self.cls, self.closure)
            f.defaults, f.kw_defaults = self.defaults, self.kw_defaults
            f.jit = tuple(sorted(flags, key=str))
            f.kind = self.kind
            FuncInfo._cache[key] = f
        return f

    @property
    def jit_flags(self):
        return dict(self.jit or ())

    def param_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return self.qualname


class ClassInfo:
    def __init__(self, node, mod, name, bases):
        self.node = node
        self.mod = mod
        self.name = name
        self.qualname = name
        self.bases = bases
        self.attrs = {}
        self.accessor = None

    def __repr__(self):
        return self.name


class Obj:
    """A heap cell. Treated as immutable: every write replaces it."""

    __slots__ = ("kind", "cls", "content", "fields", "items", "meta")

    def __init__(self, kind, cls=None, content=None, fields=None, items=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.content = content
        self.fields = fields or {}
        self.items = items
        self.meta = meta or {}

    def but(self, **kw):
        o = Obj(self.kind, self.cls, self.content, self.fields, self.items, self.meta)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class State:
    __slots__ = ("frames", "heap", "pc", "loops", "alive")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.loops = ()
        self.alive = True

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.loops = self.loops
        s.alive = self.alive
        return s

    def become(self, other):
        self.frames = other.frames
        self.heap = other.heap
        self.pc = other.pc
        self.alive = other.alive

    def assume(self, cond):
        if cond is TRUE:
            return
        if cond.op == "and":
            for c in cond.args:
                self.assume(c)
            return
        if cond not in self.pc:
            self.pc = self.pc + (cond,)


class Exit:
    __slots__ = ("kind", "st", "value")

    def __init__(self, kind, st, value=None):
        self.kind = kind
        self.st = st
        self.value = value


class Event:
    def __init__(self, kind, pc, loops, loc, **data):
        self.kind = kind
        self.pc = pc
        self.loops = loops
        self.loc = loc  # (file, line, function qualname)
        self.stack = ()
        self.__dict__.update(data)

    def where(self):
        return f"{self.loc[0]}:{self.loc[1]} ({self.loc[2]})"

    def __repr__(self):
        extra = {
            k: v
            for k, v in self.__dict__.items()
            if k not in ("kind", "pc", "loops", "loc", "stack")
        }
        return f"<{self.kind} {self.where()} {extra}>"


class Ctx:
    """One active call."""

    __slots__ = ("func", "fid", "mod", "globals_decl", "nonlocals")

    def __init__(self, func, fid, mod):
        self.func = func
        self.fid = fid
        self.mod = mod
        self.globals_decl = set()
        self.nonlocals = set()


# --------------------------------------------------------------------------- helpers


def not_(c):
    if is_const(c):
        return const(not c.args[0])
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def unbound_if_no_iteration(v):
    """Bound in the body of a loop only."""
    if v.op == "loopval" and len(v.args) == 4:
        v = v.args[2]
    elif v.op == "last":
        v = v.args[2]
    elif v.op == "ite":
        return unbound_if_no_iteration(v.args[1]) or unbound_if_no_iteration(v.args[2])
    else:
        return False
    return v is UNBOUND or unbound_if_no_iteration(v)


def infeasible(conds):
    """True when the conjunction is contradictory by unit propagation over its literals."""
    facts, ors = set(), []
    equal = {}

    def add(c):
        if c is FALSE:
            return False
        if c is TRUE or c in facts:
            return True
        if c.op == "and":
            return all(add(x) for x in c.args)
        if c.op == "or":
            ors.append(c)
            return True
        if c.op == "not":
            x = c.args[0]
            if x.op == "or":
                return all(add(not_(y)) for y in x.args)
            if x.op == "and":
                ors.append(or_(*(not_(y) for y in x.args)))
                return True
        if refuted(c):
            return False
        facts.add(c)
        if c.op == "==":
            for x, y in (c.args, c.args[::-1]):
                if is_const(y):
                    equal[x] = y
        return True

    def refuted(c):
        if not_(c) in facts:
            return True
        if c.op == "==":
            for x, y in (c.args, c.args[::-1]):
                if is_const(y) and x in equal and equal[x] is not y:
                    return True
        if c.op == "not" and c.args[0].op == "==":
            for x, y in (c.args[0].args, c.args[0].args[::-1]):
                if is_const(y) and equal.get(x) is y:
                    return True
        if c.op == "and":
            return any(refuted(x) for x in c.args)
        if c.op == "or":
            return all(refuted(x) for x in c.args)
        return False

    for c in conds:
        if not add(c):
            return True
    changed = True
    while changed and ors:
        changed = False
        for c in list(ors):
            left = [d for d in c.args if not refuted(d)]
            if not left:
                return True
            if len(left) == 1:
                ors.remove(c)
                changed = True
                if not add(left[0]):
                    return True
    return any(refuted(c) for c in facts)


def prune(v, pc):
    """Drop the alternatives of a value that contradict the path."""
    if v.op != "ite":
        return v
    c, a, b = v.args
    if infeasible(pc + (c,)):
        return prune(b, pc)
    if infeasible(pc + (not_(c),)):
        return prune(a, pc)
    return ite(c, prune(a, pc + (c,)), prune(b, pc + (not_(c),)))


def catches(htype, exc):
    """A handler for htype (a term) takes exceptions named exc."""
    if htype is NONE:
        return True
    if htype.op == "tuple":
        return any(catches(h, exc) for h in htype.args)
    if htype.op == "ext":
        a, b = (getattr(builtins, n.split(".")[-1], None) for n in (htype.args[0], exc))
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(b, a)
        return htype.args[0].split(".")[-1] in (exc, "Exception", "BaseException")
    if htype.op == "cls":
        return htype.args[0].name == exc
    return False


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in c.args if c.op == "and" else (c,):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in c.args if c.op == "or" else (c,):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    # accumulation under a condition: ite(c, x + e, x) -> x + ite(c, e, 0)
    if a.op == "+" and a.args[0] is b:
        return mk("+", b, ite(c, a.args[1], ZERO))
    if b.op == "+" and b.args[0] is a:
        return mk("+", a, ite(c, ZERO, b.args[1]))
    if a.op == "-" and a.args[0] is b:
        return mk("-", b, ite(c, a.args[1], ZERO))
    if b.op == "-" and b.args[0] is a:
        return mk("-", a, ite(c, ZERO, b.args[1]))
    if (
        a.op == b.op
        and a.op in ("tuple",)
        and len(a.args) == len(b.args)
    ):
        return mk(a.op, *(ite(c, x, y) for x, y in zip(a.args, b.args)))
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    return mk("ite", c, a, b)


def leaves_of(t):
    """Leaves of a tree of ite nodes."""
    if t.op == "ite":
        yield from leaves_of(t.args[1])
        yield from leaves_of(t.args[2])
    else:
        yield t


def free_of(t, bad):
    return not contains(t, lambda x: x in bad)


def idx_distinct(a, b):
    """True when two index tuples provably address different cells."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if is_const(x) and is_const(y):
            # a negative index counts from the end
            if x.args[0] != y.args[0] and not any(isinstance(v, int) and v < 0 for v in (x.args[0], y.args[0])):
                return True
            if x.args[0] != y.args[0] and all(isinstance(v, int) and v < 0 for v in (x.args[0], y.args[0])):
                return True
            continue
        d = lin_diff(x, y)
        if d is not None and d != 0:
            return True
    return False


def _lin(t):
    if is_const(t) and isinstance(t.args[0], (int, float)):
        return None, t.args[0]
    if t.op in "+-" and len(t.args) == 2 and is_const(t.args[1]):
        b, k = _lin(t.args[0])
        v = t.args[1].args[0]
        if isinstance(v, (int, float)):
            return b, (k + v if t.op == "+" else k - v)
    if t.op == "+" and is_const(t.args[0]) and isinstance(t.args[0].args[0], (int, float)):
        b, k = _lin(t.args[1])
        return b, k + t.args[0].args[0]
    return t, 0


def lin_diff(x, y):
    bx, kx = _lin(x)
    by, ky = _lin(y)
    if bx is by:
        return kx - ky
    return None


class Interp:
    def __init__(self, project):
        self.project = project
        self.accessors = {}
        self.events = []
        self.recording = True
        self.catching = 0  # try statements around the current one
        self.stack = []
        self._fid = 0
        self._oid = 0
        self._loop = 0
        self.loop_info = {}
        self._lam = 0
        self._opaque = 0
        self.base = State()  # module frames and module-level heap
        self.notes = []
        self.n_inlined = 0
        self.functions_seen = set()
        self.local_frames_kept = set()
        self.loading = 0
        self.stubs = {}  # functions whose result is a given unknown
        self.stub_hits = set()

    # ------------------------------------------------------------------ modules

    def load(self, name):
        mod = self.project.modules.get(name)
        if mod is None:
            raise AnalysisBroken(f"module {name} not found")
        if mod.fid is None or mod.fid not in self.base.frames:
            self._fid += 1
            mod.fid = self._fid
            mod.state = "loading"
            self.base.frames[mod.fid] = {"__name__": const(mod.name)}
            saved = (self.events, self.recording, self.stack)
            self.events, self.recording, self.stack = [], False, []
            st = self.base
            pc, loops, alive = st.pc, st.loops, st.alive
            st.pc, st.loops, st.alive = (), (), True
            self.loading += 1
            self.stack = [Ctx(None, mod.fid, mod)]
            try:
                self.exec_block(mod.tree.body, st)
            finally:
                self.loading -= 1
                self.events, self.recording, self.stack = saved
                st.pc, st.loops, st.alive = pc, loops, alive
            mod.state = "done"
        return mod

    def module_attr(self, modname, name, st=None):
        """Value of an attribute of a package module."""
        if modname not in self.project.modules:
            return mk("ext", f"{modname}.{name}")
        full = f"{modname}.{name}"
        mod = self.load(modname)
        frame = self.base.frames[mod.fid]
        if name in frame:
            return frame[name]
        if full in self.project.modules:
            return mk("mod", full)
        if mod.state == "loading":
            return mk("lazy", modname, name)
        return mk("ext", full)

    def force(self, t):
        n = 0
        while t.op == "lazy" and n < 5:
            r = self.module_attr(*t.args)
            if r is t:
                break
            t = r
            n += 1
        return t

    def public(self, dotted):
        """Value of a public name such as harmonica.point_gravity."""
        mod, name = dotted.rsplit(".", 1)
        if mod not in self.project.modules:
            raise AnalysisBroken(f"public module {mod} is gone")
        v = self.force(self.module_attr(mod, name))
        if v.op in ("ext", "lazy"):
            raise AnalysisBroken(f"public name {dotted} is gone")
        return v

    # ------------------------------------------------------------------ state

    def new_state(self):
        """A fresh state on top of the loaded modules."""
        st = State()
        st.frames = self.base.frames  # module frames are shared (never copied back)
        st.frames = {k: dict(v) for k, v in self.base.frames.items()}
        st.heap = dict(self.base.heap)
        return st

    def alloc(self, st, obj):
        self._oid += 1
        oid = self._oid
        if self.loading:
            self.base.heap[oid] = obj
        st.heap[oid] = obj
        return mk("obj", oid)

    def obj(self, t, st):
        if t.op == "obj":
            o = st.heap.get(t.args[0])
            if o is None:
                o = self.base.heap.get(t.args[0])
            return o
        return None

    def setobj(self, t, st, o):
        st.heap[t.args[0]] = o
        if self.loading:
            self.base.heap[t.args[0]] = o

    def opaque(self, why, *args):
        return mk("opaque", why, *args)

    def event(self, kind, st, node=None, **data):
        if not self.recording:
            return None
        ctx = self.stack[-1] if self.stack else None
        loc = (
            self.project.relpath(ctx.mod) if ctx else "?",
            getattr(node, "lineno", 0),
            ctx.func.qualname if ctx and ctx.func else "<module>",
        )
        e = Event(kind, st.pc, st.loops, loc, **data)
        e.stack = tuple(c.func.qualname if c.func else "<module>" for c in self.stack)
        e.jit = self.in_jit()
        self.events.append(e)
        return e

    def in_jit(self):
        return any(c.func is not None and c.func.jit is not None for c in self.stack)

    # ------------------------------------------------------------------ running

    def run(self, fn, args=(), kwargs=None, st=None, pc=()):
        """Analyse one call. Returns a Result."""
        st = st or self.new_state()
        for c in pc:
            st.assume(c)
        saved = self.events
        self.events = []
        ctx_mod = next(iter(self.project.modules.values()))
        self.stack = [Ctx(None, None, ctx_mod)]
        self.notes = []
        before = set(st.heap)
        st0 = st.copy()
        value = self.call(fn, list(args), dict(kwargs or {}), st, None)
        res = Result(self, value, st, self.events)
        res.st0, res.given = st0, [*args, *(kwargs or {}).values(), fn]
        res.options = dict(enumerate(args), **{k: v for k, v in (kwargs or {}).items()})
        res.before = before
        res.entry = self.entry(fn)
        self.events = saved
        self.stack = []
        return res

    def entry(self, fn):
        """file:line (name) of a called function."""
        if fn.op == "bound":
            fn = fn.args[1] if isinstance(fn.args[1], T) else fn.args[0]
        info = fn.args[0] if fn.op in ("func", "cls") else None
        if info is None or getattr(info, "node", None) is None:
            return ""
        return f"{self.project.relpath(info.mod)}:{info.node.lineno} ({getattr(info, 'qualname', info.name)})"

    def instance(self, cls, st, **kwargs):
        self.stack = self.stack or [Ctx(None, None, next(iter(self.project.modules.values())))]
        return self.call(cls, [], kwargs, st, None)

    # ------------------------------------------------------------------ freezing

    def freeze(self, t, st, seen=()):
        """Replace heap references by their contents (value semantics)."""
        if t.op == "const" or t.op in ("param", "idx", "ext", "func", "cls", "mod"):
            return t
        if not contains(t, lambda x: x.op in ("obj", "view")):
            return t
        if t.op == "obj":
            o = self.obj(t, st)
            if o is None or t in seen:
                return mk("cyclic", t)
            seen = seen + (t,)
            if o.kind == "arr":
                c = self.freeze(o.content, st, seen)
                if o.fields:
                    c = mk(
                        "withattrs",
                        c,
                        tuple(
                            mk("kv", const(k), self.freeze(v, st, seen))
                            for k, v in sorted(o.fields.items())
                            if v is not ABSENT
                        ),
                    )
                return c
            if o.kind == "dict":
                items = []
                for k, v in o.fields.items():
                    if v is ABSENT:
                        continue
                    items.append(mk("kv", k, self.freeze(v, st, seen)))
                rest = o.content
                return mk("dict", tuple(items), *(() if rest is None else (rest,)))
            if o.kind == "list":
                if o.items is None:
                    return self.freeze(o.content, st, seen)
                return mk("list", *(self.freeze(v, st, seen) for v in o.items))
            if o.kind == "inst":
                return mk(
                    "instval",
                    o.cls.name,
                    tuple(
                        mk("kv", const(k), self.freeze(v, st, seen))
                        for k, v in sorted(o.fields.items())
                    ),
                )
            return t
        if t.op == "view":
            base = self.freeze(t.args[0], st, seen)
            return self.item_term(base, t.args[1])
        if t.op == "bound":
            return t

        def rec(x):
            if isinstance(x, T):
                return self.freeze(x, st, seen)
            if isinstance(x, tuple):
                return tuple(rec(i) for i in x)
            return x

        return mk(t.op, *(rec(a) for a in t.args))

    def val(self, t, st):
        """Numeric value of a term used in an expression."""
        return self.freeze(t, st)

    # ------------------------------------------------------------------ aliasing

    def roots(self, t, st=None, depth=0):
        """Storage roots (params, heap cells) that t may share memory with."""
        out = set()
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op in ("param", "obj", "ext"):
                out.add(x)
            elif x.op == "ite":
                stack += [x.args[1], x.args[2]]
            elif x.op in ("item", "view"):
                if not self.is_fancy(x.args[1]):
                    stack.append(x.args[0])
            elif x.op == "attr":
                if x.args[1] not in ("shape", "size", "ndim", "dtype", "nbytes"):
                    stack.append(x.args[0])
            elif x.op in ("tuple", "list"):
                stack += list(x.args)
            elif x.op in ("alias", "withattrs", "last", "default"):
                stack += [a for a in x.args if isinstance(a, T)]
            elif x.op == "call" and isinstance(x.args[0], T):
                name = lib.callee_name(x.args[0])
                if name in lib.ALIASING and x.args[1]:
                    if name in ("numpy.array",) and not _copy_false(x):
                        continue
                    if name.endswith(".astype") and not _copy_false(x):
                        continue
                    stack.append(x.args[1][0])
            elif x.op == "starred":
                stack.append(x.args[0])
        return out

    def is_fancy(self, idx):
        comps = idx.args if idx.op == "tuple" else (idx,)
        return any(self.is_mask(c) for c in comps)

    def is_mask(self, c):
        if c.op == "attr" and c.args[1] in ("values", "data"):
            return self.is_mask(c.args[0])
        if c.op in ("not", "<", "<=", ">", ">=", "==", "!=", "and", "or", "list"):
            return True
        if c.op in ("&", "|"):
            return True
        if c.op == "call":
            name = lib.callee_name(c.args[0])
            if name in lib.BOOL_FUNCS:
                return True
            if name in ("numpy.array", "numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.flatten", "numpy.copy", "numpy.atleast_1d", "numpy.squeeze") and c.args[1]:
                return self.is_mask(c.args[1][0])
            if name in ("numpy.where", "numpy.nonzero", "numpy.argsort", "numpy.arange",
                        "numpy.flatnonzero"):
                return True
        if c.op == "ite":
            return self.is_mask(c.args[1]) or self.is_mask(c.args[2])
        if c.op == "scatter":
            return (
                self.is_mask(c.args[1])
                or c.args[3].op == "const"
                and isinstance(c.args[3].args[0], bool)
            )
        if c.op == "bcval":
            return is_const(c.args[0]) and isinstance(c.args[0].args[0], bool)
        if c.op == "const" and isinstance(c.args[0], bool):
            return True
        return False

    # ------------------------------------------------------------------ expressions

    def truth(self, t, st):
        if t.op == "const":
            return const(bool(t.args[0]))
        if t.op in ("tuple", "list"):
            return const(len(t.args) > 0)
        if t.op in ("func", "cls", "mod", "ext", "bound", "fstr"):
            return TRUE
        if t.op == "obj":
            o = self.obj(t, st)
            if o.kind == "inst":
                return TRUE
            if o.kind == "list" and o.items is not None:
                return const(len(o.items) > 0)
            if o.kind == "dict":
                if any(not _may_be_absent(v) for v in o.fields.values()):
                    return TRUE
                if o.content is None and all(v is ABSENT for v in o.fields.values()):
                    return FALSE
            return self.freeze(t, st)
        if t.op == "ite":
            a, b = self.truth(t.args[1], st), self.truth(t.args[2], st)
            if a is TRUE and b is FALSE:
                return t.args[0]
            if a is FALSE and b is TRUE:
                return not_(t.args[0])
            if a is b:
                return a
            return mk("ite", t.args[0], a, b)
        return self.val(t, st)

    def known(self, c, st):
        """Decide a condition with the facts of the path, syntactically."""
        if c is TRUE or c is FALSE:
            return c
        if c in st.pc:
            return TRUE
        if not_(c) in st.pc:
            return FALSE
        if c.op == "and":
            parts = [self.known(x, st) for x in c.args]
            return and_(*parts)
        if c.op == "or":
            parts = [self.known(x, st) for x in c.args]
            return or_(*parts)
        if c.op == "not":
            return not_(self.known(c.args[0], st))
        return c

    def eval(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.event("unsupported", st, node, what=type(node).__name__)
            return self.opaque("unsupported:" + type(node).__name__)
        return m(node, st)

    def e_Constant(self, node, st):
        return const(node.value)

    def e_Name(self, node, st):
        return self.lookup(node.id, st, node)

    def lookup(self, name, st, node=None):
        ctx = self.stack[-1]
        frame = st.frames.get(ctx.fid, {})
        if name in frame and name not in ctx.globals_decl:
            v = frame[name]
            if v.op == "ite" and contains(v, lambda x: x is UNBOUND):
                v = frame[name] = prune(v, st.pc)
            if v is UNBOUND or (v.op == "ite" and contains(v, lambda x: x is UNBOUND)):
                self.event("unbound", st, node, name=name, value=v)
            elif unbound_if_no_iteration(v):
                self.event("unbound", st, node, name=name, value=v, loop=True)
            if v.op == "lazy":
                v = self.force(v)
            return v
        f = ctx.func
        while f is not None and f.closure is not None:
            fid = f.closure[0]
            frame = st.frames.get(fid)
            if frame is not None and name in frame:
                return self.force(frame[name])
            f = f.closure[1]
        mod = ctx.mod
        gframe = st.frames.get(mod.fid)
        if gframe is None:
            gframe = self.base.frames.get(mod.fid, {})
        if name in gframe:
            return self.force(gframe[name])
        gframe = self.base.frames.get(mod.fid, {})
        if name in gframe:
            return self.force(gframe[name])
        if name in lib.BUILTINS:
            return mk("ext", "builtins." + name)
        self.event("unbound", st, node, name=name, value=UNBOUND)
        return self.opaque("name:" + name)

    def e_Tuple(self, node, st):
        return mk("tuple", *self.eval_seq(node.elts, st))

    def e_List(self, node, st):
        return self.alloc(st, Obj("list", items=tuple(self.eval_seq(node.elts, st))))

    def e_Set(self, node, st):
        return mk("tuple", *self.eval_seq(node.elts, st))

    def eval_seq(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                items = self.concrete_iter(v, st)
                if items is None:
                    out.append(mk("starred", self.val(v, st)))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(e, st))
        return out

    def e_Dict(self, node, st):
        fields = {}
        rest = None
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = self.eval(v, st)
                o = self.obj(d, st)
                if o is not None and o.kind == "dict":
                    fields.update(o.fields)
                    rest = o.content or rest
                else:
                    rest = self.val(d, st)
            else:
                fields[self.val(self.eval(k, st), st)] = self.eval(v, st)
        return self.alloc(st, Obj("dict", fields=fields, content=rest))

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        return self.binop(BINOPS[type(node.op)], a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        if op == "+":
            la, lb = self.seq_items(a, st), self.seq_items(b, st)
            if la is not None and lb is not None and a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *la, *lb)
            oa, ob = self.obj(a, st), self.obj(b, st)
            if oa is not None and oa.kind == "list" and ob is not None and ob.kind == "list":
                if oa.items is not None and ob.items is not None:
                    return self.alloc(st, Obj("list", items=oa.items + ob.items))
        if op == "*":
            for x, y in ((a, b), (b, a)):
                ox = self.obj(x, st)
                if is_const(y) and isinstance(y.args[0], int):
                    n = y.args[0]
                    if ox is not None and ox.kind == "list" and ox.items is not None and n < 20:
                        return self.alloc(st, Obj("list", items=ox.items * n))
                    if x.op == "tuple" and n < 20:
                        return mk("tuple", *(x.args * n))
                elif ox is not None and ox.kind == "list" and ox.items is not None and len(ox.items) == 1:
                    return self.alloc(
                        st,
                        Obj("list", content=mk("repeat", self.val(ox.items[0], st), self.val(y, st))),
                    )
        if op == "%" and is_const(a) and isinstance(a.args[0], str):
            return mk("fstr", (a, self.val(b, st)))
        if op == "|":
            oa, ob = self.obj(a, st), self.obj(b, st)
            if oa is not None and ob is not None and oa.kind == ob.kind == "dict":
                f = dict(oa.fields)
                f.update(ob.fields)
                return self.alloc(st, Obj("dict", fields=f, content=oa.content or ob.content))
        a, b = self.val(a, st), self.val(b, st)
        if op in ("&", "|") and self.is_bool_term(a) and self.is_bool_term(b):
            return and_(a, b) if op == "&" else or_(a, b)
        return fold_bin(op, a, b)

    def e_UnaryOp(self, node, st):
        v = self.eval(node.operand, st)
        if isinstance(node.op, ast.Not):
            return not_(self.truth(v, st))
        v = self.val(v, st)
        if isinstance(node.op, ast.USub):
            if is_const(v) and isinstance(v.args[0], (int, float, complex)):
                return const(-v.args[0])
            return mk("neg", v)
        if isinstance(node.op, ast.UAdd):
            return v
        return not_(v)

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        vals = []
        pc = st.pc
        for sub in node.values:
            v = self.eval(sub, st)
            c = self.known(self.truth(v, st), st)
            if is_const(c):
                if c.args[0] == is_and:
                    if sub is node.values[-1]:
                        vals.append((v, c))
                    elif len(node.values) and sub is not node.values[-1]:
                        continue
                    continue
                vals.append((v, c))
                break
            vals.append((v, c))
            st.pc = st.pc + ((c if is_and else not_(c)),)
        st.pc = pc
        if not vals:
            return TRUE if is_and else FALSE
        if len(vals) == 1:
            return vals[0][0]
        boolean = all(self.is_bool_term(v) for v, _ in vals)
        if boolean or not all(v.op in ("obj", "func", "cls") for v, _ in vals[-1:]):
            cs = [c for _, c in vals]
            if boolean:
                return and_(*cs) if is_and else or_(*cs)
        acc = vals[-1][0]
        for v, c in reversed(vals[:-1]):
            acc = ite(c, acc, v) if is_and else ite(c, v, acc)
        return acc

    def is_bool_term(self, t):
        if t.op in ("<", "<=", ">", ">=", "==", "!=", "is", "not", "and", "or", "in", "isinstance", "exists"):
            return True
        if t.op == "const":
            return isinstance(t.args[0], bool)
        if t.op == "call":
            return lib.callee_name(t.args[0]) in lib.BOOL_FUNCS
        if t.op == "ite":
            return self.is_bool_term(t.args[1]) and self.is_bool_term(t.args[2])
        return False

    def e_Compare(self, node, st):
        left = self.eval(node.left, st)
        out = []
        for op, right in zip(node.ops, node.comparators):
            r = self.eval(right, st)
            out.append(self.compare(CMPOPS[type(op)], left, r, st))
            left = r
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if op in ("is not", "not in", "!="):
            pos = {"is not": "is", "not in": "in", "!=": "=="}[op]
            if op == "!=":
                r = self.compare("==", a, b, st)
                return const(not r.args[0]) if is_const(r) else mk("!=", *self.vals2(a, b, st))
            return not_(self.compare(pos, a, b, st))
        if op == "is":
            return self.is_same(a, b, st)
        if op == "in":
            ob = self.obj(b, st)
            if ob is not None and ob.kind == "dict":
                ka = self.val(a, st)
                v = ob.fields.get(ka)
                if v is not None and v is not ABSENT and not _may_be_absent(v):
                    return TRUE
                if v is not None and _may_be_absent(v):
                    return self._present(v)
                if ob.content is None and is_const(ka) and all(is_const(k) for k in ob.fields):
                    return FALSE
                keys = [k for k, w in ob.fields.items() if w is not ABSENT]
                base = or_(*(mk("==", ka, k) for k in keys))
                if ob.content is not None:
                    return or_(base, mk("in", ka, ob.content))
                return base
            items = self.seq_items(b, st)
            if items is None and is_const(b) and isinstance(b.args[0], str):
                if is_const(a) and isinstance(a.args[0], str):
                    return const(a.args[0] in b.args[0])
            if items is not None:
                return or_(*(self.compare("==", a, i, st) for i in items))
            return mk("in", self.val(a, st), self.val(b, st))
        a, b = self.vals2(a, b, st)
        if is_const(a) and is_const(b):
            try:
                x, y = a.args[0], b.args[0]
                return const(
                    {
                        "<": lambda: x < y,
                        "<=": lambda: x <= y,
                        ">": lambda: x > y,
                        ">=": lambda: x >= y,
                        "==": lambda: x == y,
                    }[op]()
                )
            except TypeError:
                return self.opaque("cmp", a, b)
        if op == "==":
            if a.op == "ext" and b.op == "ext":
                return const(a.args[0] == b.args[0])
            if a.op == "ite" and all(is_const(x) for x in leaves_of(a)) and is_const(b):
                return self.truth(map_leaves(a, lambda x: const(x.args[0] == b.args[0])), st)
            if a.op == "tuple" and b.op == "tuple":
                if len(a.args) != len(b.args):
                    return FALSE
                return and_(*(self.compare("==", x, y, st) for x, y in zip(a.args, b.args)))
            if a.op in ("tuple", "list", "func") and b.op == "const":
                return FALSE
        if op == ">":
            return mk("<", b, a)
        if op == ">=":
            return mk("<=", b, a)
        return mk(op, a, b)

    def vals2(self, a, b, st):
        return self.val(a, st), self.val(b, st)

    def _present(self, v):
        if v.op == "ite":
            a, b = v.args[1], v.args[2]
            ca = self._present(a)
            cb = self._present(b)
            if ca is TRUE and cb is FALSE:
                return v.args[0]
            if ca is FALSE and cb is TRUE:
                return not_(v.args[0])
            return mk("ite", v.args[0], ca, cb)
        return FALSE if v is ABSENT else TRUE

    def is_same(self, a, b, st):
        if b.op == "ite" and a.op != "ite":
            a, b = b, a
        if a.op == "ite":
            x = self.is_same(a.args[1], b, st)
            y = self.is_same(a.args[2], b, st)
            if x is y:
                return x
            if x is TRUE and y is FALSE:
                return a.args[0]
            if x is FALSE and y is TRUE:
                return not_(a.args[0])
            return mk("ite", a.args[0], x, y)
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return const(a.args[0] is b.args[0] or a.args == b.args)
        for x, y in ((a, b), (b, a)):
            if is_const(y) and y.args[0] is None:
                if x.op in _NOT_NONE:
                    return FALSE
                if x.op == "call" and lib.callee_name(x.args[0]).startswith("numpy."):
                    return FALSE
        return mk("is", *sorted((self.val(a, st), self.val(b, st)), key=lambda t: t.uid))

    def e_IfExp(self, node, st):
        c = self.known(self.truth(self.eval(node.test, st), st), st)
        if is_const(c):
            return self.eval(node.body if c.args[0] else node.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        a = self.eval(node.body, s1)
        b = self.eval(node.orelse, s2)
        self.merge_into(st, c, s1, s2)
        return ite(c, a, b)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        self.assign(node.target, v, st)
        return v

    def e_JoinedStr(self, node, st):
        parts = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(self.val(self.eval(p.value, st), st))
            else:
                parts.append(self.eval(p, st))
        if all(is_const(p) for p in parts):
            return const("".join(str(p.args[0]) for p in parts))
        return mk("fstr", tuple(parts))

    def e_FormattedValue(self, node, st):
        return self.eval(node.value, st)

    def e_Lambda(self, node, st):
        return self.make_func(node, st)

    def e_Starred(self, node, st):
        return mk("starred", self.eval(node.value, st))

    def e_Slice(self, node, st):
        parts = [
            self.val(self.eval(x, st), st) if x is not None else NONE
            for x in (node.lower, node.upper, node.step)
        ]
        return mk("slice", *parts)

    def e_Attribute(self, node, st):
        base = self.eval(node.value, st)
        return self.getattr(base, node.attr, st, node)

    def e_Subscript(self, node, st):
        base = self.eval(node.value, st)
        idx = self.eval(node.slice, st)
        if base.op == "ext" and base.args[0] == "numpy.c_" and idx.op == "tuple":
            return self.ext_call(mk("ext", "numpy.column_stack"), [idx], {}, st, node)
        return self.getitem(base, idx, st, node)

    def e_Await(self, node, st):
        return self.eval(node.value, st)

    def e_Yield(self, node, st):
        self.event("unsupported", st, node, what="yield")
        return self.opaque("yield")

    # comprehensions ----------------------------------------------------------

    def e_GeneratorExp(self, node, st):
        return self.comp(node, st, "gen")

    def e_ListComp(self, node, st):
        return self.comp(node, st, "list")

    def e_SetComp(self, node, st):
        return self.comp(node, st, "set")

    def e_DictComp(self, node, st):
        return self.comp(node, st, "dict")

    def comp(self, node, st, kind):
        ctx = self.stack[-1]
        saved = dict(st.frames[ctx.fid])
        out = []  # (cond, loops, value or (k, v))
        ok = self.comp_gen(node, node.generators, 0, st, TRUE, (), out, kind)
        frame = st.frames[ctx.fid]
        # comprehension targets do not leak (walrus targets would; ignored)
        targets = set()
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    targets.add(x.id)
        for n in targets:
            if n in saved:
                frame[n] = saved[n]
            else:
                frame.pop(n, None)
        concrete = ok and all(not loops for _, loops, _ in out)
        if kind == "dict":
            if concrete and all(c is TRUE for c, _, _ in out):
                fields = {}
                for _, _, (k, v) in out:
                    fields[self.val(k, st)] = v
                return self.alloc(st, Obj("dict", fields=fields))
            if concrete:
                fields = {self.val(k, st): ite(c, v, ABSENT) for c, _, (k, v) in out}
                return self.alloc(st, Obj("dict", fields=fields))
            c, loops, (k, v) = out[0]
            content = mk(
                "comp", "dict", loops, c, mk("tuple", self.val(k, st), self.val(v, st))
            )
            return self.alloc(st, Obj("dict", content=content))
        if concrete and all(c is TRUE for c, _, _ in out):
            vals = [v for _, _, v in out]
            if kind == "list":
                return self.alloc(st, Obj("list", items=tuple(vals)))
            return mk("tuple", *vals)
        parts = [
            mk("comp", kind, loops, c, self.val(v, st)) for c, loops, v in out
        ]
        t = parts[0] if len(parts) == 1 else mk("chain", *parts)
        if kind == "list":
            return self.alloc(st, Obj("list", content=t))
        return t

    def comp_gen(self, node, gens, k, st, cond, loops, out, kind):
        if k == len(gens):
            if kind == "dict":
                v = (self.eval(node.key, st), self.eval(node.value, st))
            else:
                v = self.eval(node.elt, st)
            out.append((cond, loops, v))
            return True
        g = gens[k]
        it = self.eval(g.iter, st)
        items = self.concrete_iter(it, st)
        if items is not None and len(items) <= MAX_UNROLL:
            for x in items:
                self.assign(g.target, x, st)
                pc = st.pc
                c = cond
                dead = False
                for test in g.ifs:
                    t = self.known(self.truth(self.eval(test, st), st), st)
                    if t is FALSE:
                        dead = True
                        break
                    c = and_(c, t)
                    st.assume(t)
                if not dead:
                    self.comp_gen(node, gens, k + 1, st, c, loops, out, kind)
                st.pc = pc
            return True
        lid, elem = self.new_loop(it, st, node, False)
        st_loops, pc = st.loops, st.pc
        st.loops = st.loops + (lid,)
        self.assign(g.target, elem, st)
        c = cond
        for test in g.ifs:
            t = self.truth(self.eval(test, st), st)
            c = and_(c, t)
            st.assume(t)
        self.comp_gen(node, gens, k + 1, st, c, loops + (mk("idx", lid),), out, kind)
        st.loops, st.pc = st_loops, pc
        return True

    # attributes ----------------------------------------------------------------

    def getattr(self, base, name, st, node=None):
        base = self.force(base)
        if base.op == "ite":
            if any(x.op in ("obj", "tuple", "func", "cls", "mod") for x in leaves_of(base)):
                return self.split_value(base, st, lambda b, s: self.getattr(b, name, s, node))
        if base.op == "mod":
            return self.force(self.module_attr(base.args[0], name))
        if base.op == "ext":
            full = base.args[0] + "." + name
            return NONE if full == "numpy.newaxis" else mk("ext", full)
        o = self.obj(base, st)
        if o is not None:
            if o.kind == "inst":
                return self.inst_attr(base, o, name, st, node)
            if o.kind == "arr":
                if name in o.fields:
                    return o.fields[name]
                if name in self.accessors:
                    return self.call(mk("cls", self.accessors[name]), [base], {}, st, node)
                if name == "shape" and o.meta.get("shape") is not None:
                    s = o.meta["shape"]
                    if s.op in ("tuple", "attr"):
                        return s
                    if self.is_scalar_size(s):
                        return mk("tuple", s)
                if name == "size" and o.meta.get("shape") is not None:
                    s = o.meta["shape"]
                    if s.op not in ("tuple", "attr"):
                        return s
                    if s.op == "tuple" and len(s.args) == 1:
                        return s.args[0]
                if name in ("T", "flat", "real", "imag", "values", "data", "loc", "coords", "attrs", "iloc"):
                    return mk("attr", base, name)
                if name in lib.MUTATING_METHODS:
                    return mk("attr", base, name)
                if o.content is not None and o.content.op == "call" and name not in (
                    "shape",
                    "size",
                    "ndim",
                    "dtype",
                ):
                    return mk("attr", base, name)
                return self.attr_term(self.val(base, st), name, o)
            if o.kind in ("dict", "list"):
                return mk("attr", base, name)
        if base.op == "cls":
            ci = base.args[0]
            v, owner = self.class_lookup(ci, name)
            if v is not None:
                if v.op == "func" and v.args[0].kind == "class":
                    return mk("bound", base, v)
                return v
            if name == "__name__":
                return const(ci.name)
            return mk("attr", base, name)
        if base.op == "super":
            return self.super_attr(base, name, st, node)
        if base.op == "func":
            if name in ("__name__",):
                return const(base.args[0].name)
            if name == "py_func":
                f = base.args[0]
                g = FuncInfo(f.node, f.mod, f.qualname, f.cls, f.closure)
                g.defaults, g.kw_defaults = f.defaults, f.kw_defaults
                return mk("func", g)
            return mk("attr", base, name)
        if name in self.accessors:
            return self.call(mk("cls", self.accessors[name]), [base], {}, st, node)
        return self.attr_term(base, name)

    def is_scalar_size(self, s):
        if is_const(s):
            return isinstance(s.args[0], int)
        if s.op == "attr":
            return s.args[1] == "size"
        return s.op in ("+", "-", "*", "item") or (
            s.op == "call" and lib.callee_name(s.args[0]) in ("builtins.len", "math.prod", "builtins.int")
        )

    def attr_term(self, base, name, o=None):
        """attr node, normalised through value preserving wrappers."""
        if name in ("size", "shape", "ndim", "dtype"):
            b = base
            while True:
                if b.op == "withattrs":
                    b = b.args[0]
                    continue
                if b.op == "call" and isinstance(b.args[0], T):
                    cn = lib.callee_name(b.args[0])
                    if cn in lib.SIZE_PRESERVING and b.args[1] and (
                        name == "size" or (name == "shape" and cn in lib.SHAPE_PRESERVING)
                    ):
                        b = b.args[1][0]
                        continue
                    if name == "shape" and cn == "numpy.ravel" and b.args[1]:
                        return mk("tuple", self.attr_term(b.args[1][0], "size"))
                if b.op == "attr" and b.args[1] in ("values", "data", "real"):
                    b = b.args[0]
                    continue
                break
            if b.op == "bcast" and name in ("size", "shape"):
                return mk("attr", mk("call", mk("ext", "numpy.broadcast"), b.args[1], ()), name)
            if b.op == "item" and name in ("size", "shape"):
                # x[:, i] of a 2d array has one element per row
                ix = b.args[1]
                if (
                    ix.op == "tuple"
                    and len(ix.args) == 2
                    and ix.args[0] is FULL
                    and is_const(ix.args[1])
                    and isinstance(ix.args[1].args[0], int)
                ):
                    n = mk("item", self.attr_term(b.args[0], "shape"), ZERO)
                    return n if name == "size" else mk("tuple", n)
            if b.op == "scatter" and name in ("size", "shape", "ndim", "dtype"):
                return self.attr_term(b.args[1], name)
            if b.op == "bcval":
                s = b.args[1]
                if name == "shape":
                    return s if s.op in ("tuple", "attr") else mk("tuple", s)
                if name == "size":
                    if s.op == "tuple" and len(s.args) == 1:
                        return s.args[0]
                    if s.op not in ("tuple", "attr"):
                        return s
            return mk("attr", b, name)
        return mk("attr", base, name)

    def inst_attr(self, base, o, name, st, node):
        if name in o.fields:
            v = o.fields[name]
            if _may_be_absent(v) and v.op == "ite":
                v = prune(v, st.pc)
            if _may_be_absent(v):
                self.event("unbound", st, node, name="." + name, value=v)
            return v
        v, owner = self.class_lookup(o.cls, name)
        if v is not None:
            if v.op == "func":
                f = v.args[0]
                if f.kind == "property":
                    return self.call(v, [base], {}, st, node)
                if f.kind == "static":
                    return v
                if f.kind == "class":
                    return mk("bound", mk("cls", o.cls), v)
                return mk("bound", base, v)
            return v
        if name == "__class__":
            return mk("cls", o.cls)
        if name == "__dict__":
            return mk("attr", base, name)
        for b in self.ext_bases(o.cls):
            return mk("bound", base, mk("ext", b + "." + name))
        self.event("missing_attr", st, node, name=name, cls=o.cls.name)
        return mk("attr", base, name)

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            b = self.force(b)
            if b.op == "cls":
                for x in self.mro(b.args[0]):
                    if x not in out:
                        out.append(x)
            elif b.op == "ext":
                out.append(b.args[0])
        return out

    def ext_bases(self, ci):
        return [x for x in self.mro(ci) if isinstance(x, str) and x != "builtins.object"]

    def class_lookup(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, str):
                continue
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def super_attr(self, sup, name, st, node):
        owner, self_obj = sup.args
        mro = self.mro(self._inst_cls(self_obj, st) or owner)
        try:
            rest = mro[mro.index(owner) + 1 :]
        except ValueError:
            rest = self.mro(owner)[1:]
        for c in rest:
            if isinstance(c, str):
                return mk("bound", self_obj, mk("ext", c + "." + name))
            if name in c.attrs:
                v = c.attrs[name]
                if v.op == "func" and v.args[0].kind == "property":
                    return self.call(v, [self_obj], {}, st, node)
                return mk("bound", self_obj, v)
        return mk("bound", self_obj, mk("ext", "builtins.object." + name))

    def _inst_cls(self, t, st):
        o = self.obj(t, st)
        return o.cls if o is not None and o.kind == "inst" else None

    # subscripts ----------------------------------------------------------------

    def seq_items(self, t, st):
        """Known elements of a tuple or list, else None."""
        if t.op in ("tuple", "list"):
            if any(x.op == "starred" for x in t.args):
                return None
            return list(t.args)
        o = self.obj(t, st)
        if o is not None and o.kind == "list" and o.items is not None:
            return list(o.items)
        return None

    def concrete_iter(self, t, st):
        """Known elements of an iterable, else None."""
        t = self.force(t)
        items = self.seq_items(t, st)
        if items is not None:
            return items
        if t.op == "const" and isinstance(t.args[0], str):
            return [const(c) for c in t.args[0]]
        o = self.obj(t, st)
        if o is not None and o.kind == "dict":
            if o.content is None and not any(_may_be_absent(v) for v in o.fields.values()):
                return list(o.fields)
            return None
        if t.op == "call" and isinstance(t.args[0], T):
            name = lib.callee_name(t.args[0])
            if name in ("builtins.range", "numba.prange"):
                if all(is_const(a) for a in t.args[1]):
                    try:
                        r = range(*(a.args[0] for a in t.args[1]))
                    except (TypeError, ValueError):
                        return None
                    if len(r) <= MAX_UNROLL:
                        return [const(i) for i in r]
        return None

    def getitem(self, base, idx, st, node=None, quiet=False):
        base = self.force(base)
        if base.op == "ite" and any(
            x.op in ("tuple", "list", "obj", "func") for x in leaves_of(base)
        ):
            return self.split_value(base, st, lambda b, s: self.getitem(b, idx, s, node, quiet))
        o = self.obj(base, st)
        items = self.seq_items(base, st)
        if items is not None:
            if is_const(idx) and isinstance(idx.args[0], int):
                try:
                    return items[idx.args[0]]
                except IndexError:
                    self.event("raise", st, node, exc="IndexError", msg=None)
                    st.alive = False
                    return self.opaque("indexerror")
            if idx.op == "slice" and all(is_const(a) for a in idx.args):
                sl = slice(*(a.args[0] for a in idx.args))
                sub = items[sl]
                if base.op == "obj":
                    return self.alloc(st, Obj("list", items=tuple(sub)))
                return mk(base.op, *sub)
            if idx.op == "idx" or contains(idx, lambda x: x.op == "idx"):
                return mk("item", self.val(base, st), idx)
            if items and not is_const(idx):
                # choose among known elements
                iv = self.val(idx, st)
                if idx.op == "ite" and all(is_const(x) for x in leaves_of(idx)):
                    return self.split_value(idx, st, lambda i, s: self.getitem(base, i, s, node, quiet))
                if all(self.obj(x, st) is not None and self.obj(x, st).kind == "inst" for x in items):
                    acc = items[-1]
                    for k, x in reversed(list(enumerate(items[:-1]))):
                        acc = ite(mk("==", iv, const(k)), x, acc)
                    return acc
                return mk("item", self.val(base, st), iv)
        if o is not None and o.kind == "dict":
            key = self.val(idx, st)
            v = o.fields.get(key)
            if v is not None and v is not ABSENT:
                return v
            if is_const(key):
                if o.content is None:
                    self.event("raise", st, node, exc="KeyError", msg=key)
                    st.alive = False
                    return self.opaque("keyerror", key)
                return mk("item", o.content, key)
            if idx.op == "ite" and all(is_const(x) for x in leaves_of(idx)):
                return self.split_value(idx, st, lambda i, s: self.getitem(base, i, s, node, quiet))
            if o.content is None and o.fields:
                acc = mk("opaque", "missingkey", key)
                for k, v in reversed(list(o.fields.items())):
                    acc = ite(mk("==", key, k), v, acc)
                if self.catching and not quiet:
                    # a handler around this lookup takes over when the key is missing
                    found = or_(*(mk("==", key, k) for k in o.fields))
                    lost = st.copy()
                    lost.assume(mk("not", found))
                    self.event("raise", lost, node, exc="KeyError", msg=key)
                    st.assume(found)
                return acc
            return mk("item", self.val(base, st), key)
        ival = self.val(idx, st)
        if not quiet:
            self.event("index", st, node, base=base, idx=ival, write=False)
        if o is not None and o.kind == "inst":
            v, owner = self.class_lookup(o.cls, "__getitem__")
            if v is not None:
                return self.call(v, [base, idx], {}, st, node)
        if base.op == "obj" and o.kind == "arr" or base.op == "view":
            if _has_slice(ival) and not self.is_fancy(ival):
                return mk("view", base, ival)
        if base.op in ("param", "item", "attr") and _has_slice(ival) and not self.is_fancy(ival):
            return self.item_term(self.val(base, st), ival)
        if base.op == "attr" and base.args[0].op == "obj":
            return self.item_term(self.val(base, st), ival)
        return self.item_term(self.val(base, st), ival)

    def item_term(self, base, idx):
        """item node with store forwarding."""
        if base.op == "attr" and base.args[1] == "sizes":
            # the size of a dimension is the size of its coordinate
            return mk("attr", self.item_term(base.args[0], idx), "size")
        if base.op == "ite" and any(
            x.op in ("tuple", "list", "scatter", "bcval") for x in leaves_of(base)
        ):
            return ite(base.args[0], self.item_term(base.args[1], idx), self.item_term(base.args[2], idx))
        if idx.op == "slice" and all(a is NONE for a in idx.args):
            return base
        if idx is ELLIPSIS:
            return base
        if base.op == "withattrs":
            return self.item_term(base.args[0], idx)
        if base.op in ("tuple", "list") and is_const(idx) and isinstance(idx.args[0], int):
            if not any(x.op == "starred" for x in base.args):
                try:
                    return base.args[idx.args[0]]
                except IndexError:
                    return self.opaque("indexerror")
        if base.op == "bcval" and not _has_slice(idx) and not self.is_fancy(idx):
            return base.args[0]
        if base.op == "scatter":
            loops, init, ix, val = base.args
            tidx = idx.args if idx.op == "tuple" else (idx,)
            if not loops:
                if ix.args == tidx:
                    return val
                if idx_distinct(ix.args, tidx):
                    return self.item_term(init, idx)
            else:
                m = match_idx(ix.args, tidx, loops)
                if m is not None:
                    return subst(val, m)
        if base.op == "item" and base.args[1].op == "slice" and is_const(idx) and isinstance(idx.args[0], int):
            lo, hi, step = base.args[1].args
            if step is NONE and (lo is NONE or is_const(lo)):
                k = (0 if lo is NONE else lo.args[0]) + idx.args[0]
                if idx.args[0] >= 0 and (lo is NONE or lo.args[0] >= 0 or k < 0):
                    return self.item_term(base.args[0], const(k))
        if (
            base.op == "item"
            and base.args[1].op == "tuple"
            and not _has_slice(idx)
            and not self.is_fancy(base.args[1])
        ):
            comps = list(base.args[1].args)
            n_sl = [k for k, c in enumerate(comps) if c is FULL]
            tidx = list(idx.args) if idx.op == "tuple" else [idx]
            if n_sl and len(tidx) <= len(n_sl) and all(c is FULL or c.op != "slice" for c in comps):
                for k, v in zip(n_sl, tidx):
                    comps[k] = v
                return self.item_term(base.args[0], mk("tuple", *comps))
        if base.op == "call" and isinstance(base.args[0], T):
            cn = lib.callee_name(base.args[0])
            if cn in ("numpy.where", "numpy.nonzero") and len(base.args[1]) == 1 and is_const(idx) and idx.args[0] == 0:
                return mk("call", mk("ext", "numpy.flatnonzero"), base.args[1], ())
        return mk("item", base, idx)

    # calls -------------------------------------------------------------------

    def e_Call(self, node, st):
        fn = self.eval(node.func, st)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                items = self.concrete_iter(v, st)
                if items is None:
                    args.append(mk("starred", v))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        rest = None
        for k in node.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                o = self.obj(v, st)
                if o is not None and o.kind == "dict":
                    for kk, vv in o.fields.items():
                        if is_const(kk) and vv is not ABSENT:
                            kwargs[kk.args[0]] = vv
                    if o.content is not None:
                        rest = o.content
                else:
                    rest = self.val(v, st)
            else:
                kwargs[k.arg] = v
        if rest is not None:
            kwargs["**"] = rest
        if fn.op == "ext" and fn.args[0] == "builtins.super":
            ctx = self.stack[-1]
            if not args and ctx.func is not None and ctx.func.cls is not None:
                first = ctx.func.param_names()[0]
                return mk("super", ctx.func.cls, st.frames[ctx.fid][first])
            if len(args) == 2 and args[0].op == "cls":
                return mk("super", args[0].args[0], args[1])
        return self.call(fn, args, kwargs, st, node)

    def split_value(self, v, st, fn):
        """Apply fn to both sides of an ite, joining states and results."""
        c = v.args[0]
        k = self.known(c, st)
        if is_const(k):
            return fn(v.args[1] if k.args[0] else v.args[2], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        a = fn(v.args[1], s1)
        b = fn(v.args[2], s2)
        if s1.alive and not s2.alive:
            st.become(s1)
            return a
        if s2.alive and not s1.alive:
            st.become(s2)
            return b
        self.merge_into(st, c, s1, s2)
        return ite(c, a, b)

    def call(self, fn, args, kwargs, st, node):
        fn = self.force(fn)
        if not st.alive:
            return self.opaque("dead")
        if fn.op == "ite":
            return self.split_value(
                fn, st, lambda f, s: self.call(f, list(args), dict(kwargs), s, node)
            )
        if fn.op == "bound":
            if fn.args[1].op == "ext":
                return self.ext_call(fn.args[1], [fn.args[0], *args], kwargs, st, node)
            return self.call(fn.args[1], [fn.args[0], *args], kwargs, st, node)
        if fn.op == "func":
            return self.call_func(fn.args[0], args, kwargs, st, node)
        if fn.op == "cls":
            return self.construct(fn.args[0], args, kwargs, st, node)
        if fn.op == "ext":
            return self.ext_call(fn, args, kwargs, st, node)
        if fn.op == "partial":
            f, pargs, pkw = fn.args
            kw = {k.args[0].args[0]: k.args[1] for k in pkw}
            kw.update(kwargs)
            return self.call(f, [*pargs, *args], kw, st, node)
        if fn.op == "attr":
            return self.method_call(fn, args, kwargs, st, node)
        if fn.op == "jitmaker":
            if args and args[0].op == "func":
                return mk("func", args[0].args[0].with_jit(fn.args[0]))
            return self.opaque("jit")
        if fn.op == "accessor_maker":
            if args and args[0].op == "cls":
                ci = args[0].args[0]
                ci.accessor = fn.args[0]
                self.accessors[fn.args[0]] = ci
                return args[0]
        if fn.op == "setter_maker":
            # @x.setter
            prop, = fn.args
            if args and args[0].op == "func":
                p = prop.args[0]
                p.setter = args[0].args[0]
                return prop
        if fn.op == "obj":
            o = self.obj(fn, st)
            if o.kind == "inst":
                v, owner = self.class_lookup(o.cls, "__call__")
                if v is not None:
                    return self.call(v, [fn, *args], kwargs, st, node)
        fa = tuple(self.val(a, st) for a in args)
        fk = tuple((k, self.val(v, st)) for k, v in sorted(kwargs.items()))
        self.event("call", st, node, name="<value>", fn=fn, args=tuple(args), kwargs=dict(kwargs))
        return mk("call", self.val(fn, st), fa, _kw(fk))

    def construct(self, ci, args, kwargs, st, node):
        self_t = self.alloc(st, Obj("inst", cls=ci))
        v, owner = self.class_lookup(ci, "__init__")
        if v is not None:
            self.call(v, [self_t, *args], kwargs, st, node)
        elif self.ext_bases(ci):
            o = self.obj(self_t, st)
            f = dict(o.fields)
            f["args"] = mk("tuple", *(self.val(a, st) for a in args))
            self.setobj(self_t, st, o.but(fields=f))
        return self_t

    def call_func(self, f, args, kwargs, st, node):
        if self.stubs and f.qualname in self.stubs:
            self.stub_hits.add(f.qualname)
            return self.stubs[f.qualname]
        if len(self.stack) > MAX_DEPTH or sum(1 for c in self.stack if c.func is not None and c.func.node is f.node) >= 2:
            self.event("recursion", st, node, func=f)
            fa = tuple(self.val(a, st) for a in args)
            return mk("call", mk("func", f), fa, ())
        self.n_inlined += 1
        self.functions_seen.add((f.mod.name, f.qualname))
        if f.jit is not None:
            self.event("jit", st, node, func=f, args=tuple(args), kwargs=dict(kwargs))
        else:
            self.event("enter", st, node, func=f, args=tuple(args), kwargs=dict(kwargs))
        self._fid += 1
        fid = self._fid
        frame = {}
        ok = self.bind(f, args, kwargs, frame, st, node)
        if not ok:
            self.event("raise", st, node, exc="TypeError", msg=const(f"bad call of {f.qualname}"))
            self.notes.append(f"cannot bind call to {f.qualname}")
        st.frames[fid] = frame
        ctx = Ctx(f, fid, f.mod)
        self.stack.append(ctx)
        base_pc = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st)
                return v
            exits = self.exec_block(f.node.body, st)
            if st.alive:
                exits.append(Exit("return", st.copy(), NONE))
            rets = [e for e in exits if e.kind == "return"]
            if not rets:
                st.alive = False
                return self.opaque("noreturn")
            value = self.merge_exits(st, base_pc, rets)
            return value
        finally:
            self.stack.pop()
            if fid not in self.local_frames_kept:
                st.frames.pop(fid, None)

    def bind(self, f, args, kwargs, frame, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        kwargs = dict(kwargs)
        ok = True
        # expand starred arguments of unknown length
        out = []
        for v in vals:
            if v.op == "starred":
                inner = v.args[0]
                n = max(0, len(names) - len(out))
                out.extend(self.getitem(inner, const(k), st, node, quiet=True) for k in range(n))
            else:
                out.append(v)
        vals = out
        for n, v in zip(names, vals):
            frame[n] = v
        extra = vals[len(names) :]
        if a.vararg is not None:
            frame[a.vararg.arg] = mk("tuple", *extra)
        elif extra:
            ok = False
        rest = kwargs.pop("**", None)
        kwonly = [x.arg for x in a.kwonlyargs]
        leftover = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in frame:
                    ok = False
                frame[k] = v
            else:
                leftover[const(k)] = v
        if a.kwarg is not None:
            frame[a.kwarg.arg] = self.alloc(st, Obj("dict", fields=leftover, content=rest))
        elif leftover:
            ok = False
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in frame:
                k = i - (len(names) - nd)
                if rest is not None:
                    d = f.defaults[k] if k >= 0 else UNBOUND
                    frame[n] = ite(mk("in", const(n), rest), mk("item", rest, const(n)), d) if k >= 0 else mk("item", rest, const(n))
                elif k >= 0:
                    frame[n] = f.defaults[k]
                else:
                    frame[n] = self.opaque("missingarg", n)
                    ok = False
        for n in kwonly:
            if n not in frame:
                d = f.kw_defaults.get(n)
                if rest is not None:
                    x = mk("item", rest, const(n))
                    frame[n] = x if d is None else ite(mk("in", const(n), rest), x, d)
                elif d is not None:
                    frame[n] = d
                else:
                    frame[n] = self.opaque("missingarg", n)
                    ok = False
        return ok

    def ext_call(self, fn, args, kwargs, st, node):
        name = fn.args[0]
        name = lib.CANON.get(name, name)
        fn = mk("ext", name)
        if name in lib.SIGNATURES:
            args, kwargs = lib.normalise_call(lib.SIGNATURES[name], args, kwargs)
        args = [self.force(a) for a in args]
        h = lib.MODELS.get(name)
        ev = self.event(
            "call", st, node, name=name, fn=fn, args=tuple(args), kwargs=dict(kwargs)
        )
        if h is not None:
            r = h(self, st, args, kwargs, node)
            if r is not None:
                if ev is not None:
                    ev.result = r
                return r
        if name.startswith("numpy.") or name.startswith("builtins."):
            r = lib.const_fold_call(name, args, kwargs)
            if r is not None:
                return r
        out = kwargs.get("out")
        fa = tuple(self.lam(self.val(a, st), st) for a in args)
        fk = tuple((k, self.lam(self.val(v, st), st)) for k, v in sorted(kwargs.items()) if k != "out")
        r = mk("call", fn, fa, _kw(fk))
        if out is not None and out is not NONE:
            self.mutate_whole(out, r, st, node, "out=")
            return out
        if ev is not None:
            ev.result = r
        if name in lib.FRESH:
            return self.alloc(st, Obj("arr", content=r, meta={"shape": None}))
        return r

    def lam(self, f, st):
        """A function passed to a library: its body over fresh arguments."""
        if f.op == "func":
            a = f.args[0].node.args
            n = len(a.posonlyargs) + len(a.args) - len(f.args[0].defaults)
            if a.vararg or a.kwonlyargs or n < 1 or n > 3:
                return f
        elif f.op == "param" and "callable" in f.args:
            n = 1
        elif f.op != "partial":
            return f
        else:
            n = 1
        self._lam += 1
        ps = tuple(mk("param", f"lambda{self._lam}.{k}", "scalar") for k in range(n))
        rec, self.recording = self.recording, False
        notes = list(self.notes)
        try:
            s = st.copy()
            body = self.call(f, list(ps), {}, s, None)
            if not s.alive:
                return f
            return mk("lam", ps, self.freeze(body, s))
        finally:
            self.recording = rec
            self.notes = notes
            self._lam -= 1

    def method_call(self, fn, args, kwargs, st, node):
        base, name = fn.args
        o = self.obj(base, st)
        if o is not None and o.kind == "dict":
            r = lib.dict_method(self, base, o, name, args, kwargs, st, node)
            if r is not None:
                return r
        if o is not None and o.kind == "list":
            r = lib.list_method(self, base, o, name, args, kwargs, st, node)
            if r is not None:
                return r
        if name == "where" and len(args) in (1, 2) and not kwargs:
            other = args[1] if len(args) == 2 else mk("ext", "numpy.nan")
            return self.ext_call(mk("ext", "numpy.where"), [args[0], base, other], {}, st, node)
        if name == "fillna" and len(args) == 1 and not kwargs:
            missing = self.ext_call(mk("ext", "numpy.isnan"), [base], {}, st, node)
            return self.ext_call(mk("ext", "numpy.where"), [missing, args[0], base], {}, st, node)
        if name in ("isnull", "notnull") and not args and not kwargs:
            missing = self.ext_call(mk("ext", "numpy.isnan"), [base], {}, st, node)
            return missing if name == "isnull" else mk("not", missing)
        if name in lib.ND_METHODS and not (is_const(base) and isinstance(base.args[0], str)):
            return self.ext_call(mk("ext", "numpy." + lib.ND_METHODS[name]), [base, *args], kwargs, st, node)
        if is_const(base) and isinstance(base.args[0], str):
            r = lib.str_method(self, base.args[0], name, args, kwargs, st)
            if r is not None:
                return r
            return mk("fstr", (base, *(self.val(a, st) for a in args)))
        if name in lib.MUTATING_METHODS:
            self.event("mutate", st, node, target=base, how="." + name + "()", args=tuple(args))
            if name == "fill" and len(args) == 1 and (o is not None and o.kind == "arr" or base.op == "view"):
                self.setitem_core(base, ELLIPSIS, self.val(args[0], st), st, node)
                return NONE
            if name == "sort" and not args and not kwargs and o is not None and o.kind == "arr":
                self.setobj(base, st, o.but(content=mk("call", mk("ext", "numpy.sort"), (self.val(base, st),), ())))
                return NONE
            if base.op == "view":
                self.setitem_core(base, ELLIPSIS, self.opaque("mut", const(name), self.val(base, st)), st, node)
                return NONE
            if o is not None:
                self.setobj(base, st, o.but(content=self.opaque("mut", const(name), self.val(base, st), *(self.val(a, st) for a in args)), items=None))
                return NONE
        self.event(
            "call", st, node, name="." + name, fn=fn, args=(base, *args), kwargs=dict(kwargs)
        )
        if name in lib.METHOD_SIGNATURES:
            args, kwargs = lib.normalise_call(lib.METHOD_SIGNATURES[name], args, kwargs)
        fa = tuple(self.val(a, st) for a in args)
        fk = tuple((k, self.val(v, st)) for k, v in sorted(kwargs.items()))
        return mk("call", mk("attr", self.val(base, st), name), fa, _kw(fk))

    # functions and classes ------------------------------------------------------

    def make_func(self, node, st):
        ctx = self.stack[-1]
        closure = None
        prefix = ""
        cls = None
        if ctx.func is not None:
            closure = (ctx.fid, ctx.func)
            prefix = ctx.func.qualname + "."
            self.local_frames_kept.add(ctx.fid)
        name = getattr(node, "name", "<lambda>")
        key = (id(node), closure)
        f = FuncInfo(node, ctx.mod, prefix + name, cls, closure)
        a = node.args
        f.defaults = tuple(self.eval(d, st) for d in a.defaults)
        f.kw_defaults = {
            x.arg: self.eval(d, st)
            for x, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None
        }
        return mk("func", f)

    def s_FunctionDef(self, node, st):
        v = self.make_func(node, st)
        v = self.decorate(v, node, st)
        self.set_name(node.name, v, st, node)
        return []

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, v, node, st):
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                base = self.eval(d.value, st)
                if base.op == "func" and d.attr == "setter":
                    p = base.args[0]
                    g = FuncInfo(p.node, p.mod, p.qualname, p.cls, p.closure)
                    g.defaults, g.kw_defaults, g.kind = p.defaults, p.kw_defaults, p.kind
                    v.args[0].qualname += ".setter"
                    g.setter = v.args[0]
                    v = mk("func", g)
                continue
            dv = self.eval(d, st)
            if dv.op == "ext":
                name = lib.CANON.get(dv.args[0], dv.args[0])
                if name in ("builtins.property", "functools.cached_property"):
                    v.args[0].kind = "property"
                    continue
                if name == "builtins.staticmethod":
                    v.args[0].kind = "static"
                    continue
                if name == "builtins.classmethod":
                    v.args[0].kind = "class"
                    continue
            v = self.call(dv, [v], {}, st, d)
        return v

    def s_ClassDef(self, node, st):
        bases = [self.eval(b, st) for b in node.bases]
        ctx = self.stack[-1]
        ci = ClassInfo(node, ctx.mod, node.name, bases)
        # class body runs in its own frame
        self._fid += 1
        fid = self._fid
        st.frames[fid] = {}
        self.stack.append(Ctx(ctx.func, fid, ctx.mod))
        try:
            self.exec_block(node.body, st)
        finally:
            self.stack.pop()
        ci.attrs = st.frames.pop(fid)
        for v in ci.attrs.values():
            if v.op == "func":
                f = v.args[0]
                if f.cls is None:
                    f.cls = ci
                    f.qualname = node.name + "." + f.qualname.split(".")[-1]
                if f.setter is not None and f.setter.cls is None:
                    f.setter.cls = ci
                    f.setter.qualname = node.name + "." + f.setter.qualname
        v = mk("cls", ci)
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, st), [v], {}, st, d)
            if v.op != "cls":
                v = mk("cls", ci)
        self.set_name(node.name, v, st, node)
        return []

    # ------------------------------------------------------------------ statements

    def exec_block(self, stmts, st):
        exits = []
        for s in stmts:
            if not st.alive:
                break
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.event("unsupported", st, s, what=type(s).__name__)
                continue
            r = m(s, st)
            if r:
                exits.extend(r)
        return exits

    def s_Expr(self, node, st):
        if not isinstance(node.value, ast.Constant):
            self.eval(node.value, st)
        return []

    def s_Pass(self, node, st):
        return []

    def s_Assign(self, node, st):
        v = self.eval(node.value, st)
        for t in node.targets:
            self.assign(t, v, st)
        return []

    def s_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, st), st)
        return []

    def s_TypeAlias(self, node, st):
        return []

    def s_AugAssign(self, node, st):
        op = BINOPS[type(node.op)]
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, node)
            rhs = self.eval(node.value, st)
            o = self.obj(cur, st)
            if o is not None and o.kind == "list" and op == "+":
                items = self.concrete_iter(rhs, st)
                self.event("mutate", st, node, target=cur, how="+=", args=(rhs,))
                if o.items is not None and items is not None:
                    self.setobj(cur, st, o.but(items=o.items + tuple(items)))
                else:
                    self.setobj(cur, st, o.but(items=None, content=self.opaque("concat", self.val(cur, st), self.val(rhs, st))))
                return []
            if o is not None and o.kind == "arr" or cur.op == "view":
                new = fold_bin(op, self.val(cur, st), self.val(rhs, st))
                self.mutate_whole(cur, new, st, node, op + "=")
                return []
            new = self.binop(op, cur, rhs, st, node)
            if cur.op not in ("const",) and self.may_be_array(cur):
                roots = self.roots(cur, st)
                if roots:
                    self.event("mutate", st, node, target=cur, how=op + "=", args=(rhs,))
                    for r in roots:
                        if r.op == "obj":
                            ro = self.obj(r, st)
                            if ro.kind == "arr":
                                self.setobj(r, st, ro.but(content=self.opaque("partial", self.val(r, st), new)))
            self.set_name(t.id, new, st, node)
            return []
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            rhs = self.eval(node.value, st)
            cur = self.getitem(base, idx, st, node)
            new = self.binop(op, cur, rhs, st, node)
            self.setitem(base, idx, new, st, node, t.value)
            return []
        if isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr(base, t.attr, st, node)
            rhs = self.eval(node.value, st)
            o = self.obj(cur, st)
            new = self.binop(op, cur, rhs, st, node)
            if o is not None and o.kind == "arr":
                self.mutate_whole(cur, new, st, node, op + "=")
                return []
            if self.may_be_array(cur) and self.roots(cur, st):
                self.event("mutate", st, node, target=cur, how=op + "=", args=(rhs,))
            self.setattr(base, t.attr, new, st, node)
            return []
        return []

    def may_be_array(self, t):
        """False for values that are certainly immutable scalars."""
        if t.op in ("const", "fstr", "tuple", "sum", "mu", "idx", "+", "-", "*", "/", "**", "neg"):
            return False
        if t.op == "item":
            i = t.args[1]
            comps = i.args if i.op == "tuple" else (i,)
            # an element picked with plain indices of a numeric array
            return any(c.op == "slice" for c in comps) or t.args[0].op in ("param",) and is_const(i)
        if t.op == "attr" and t.args[1] in ("size", "shape", "ndim"):
            return False
        if t.op == "ite":
            return self.may_be_array(t.args[1]) or self.may_be_array(t.args[2])
        return True

    def mutate_whole(self, target, new, st, node, how):
        """In-place update of a whole array."""
        self.event("mutate", st, node, target=target, how=how, args=(new,))
        o = self.obj(target, st)
        if o is not None and o.kind == "arr":
            self.setobj(target, st, o.but(content=new))
        elif target.op == "view":
            self.setitem_core(target.args[0], target.args[1], new, st, node)

    def s_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.frames[self.stack[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                idx = self.val(self.eval(t.slice, st), st)
                self.event("mutate", st, node, target=base, how="del", args=(idx,))
                o = self.obj(base, st)
                if o is not None and o.kind == "dict":
                    f = dict(o.fields)
                    f[idx] = ABSENT
                    self.setobj(base, st, o.but(fields=f))
        return []

    def s_Global(self, node, st):
        self.stack[-1].globals_decl.update(node.names)
        return []

    def s_Nonlocal(self, node, st):
        self.stack[-1].nonlocals.update(node.names)
        return []

    def s_Assert(self, node, st):
        c = self.truth(self.eval(node.test, st), st)
        if not is_const(c):
            self.event("raise", st, node, exc="AssertionError", msg=None, cond=not_(c))
            st.assume(c)
        return []

    # assignment ----------------------------------------------------------------

    def set_name(self, name, v, st, node):
        ctx = self.stack[-1]
        if name in ctx.globals_decl:
            self.event("global_write", st, node, name=name, value=v)
            st.frames.setdefault(ctx.mod.fid, {})[name] = v
            return
        if name in ctx.nonlocals:
            f = ctx.func
            while f is not None and f.closure is not None:
                fr = st.frames.get(f.closure[0])
                if fr is not None and name in fr:
                    fr[name] = v
                    return
                f = f.closure[1]
        st.frames.setdefault(ctx.fid, {})[name] = v
        if self.loading and ctx.fid in self.base.frames:
            self.base.frames[ctx.fid][name] = v

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            self.set_name(target.id, v, st, target)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target, v, st)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value, st)
            self.setattr(base, target.attr, v, st, target, target.value)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, st)
            idx = self.eval(target.slice, st)
            self.setitem(base, idx, v, st, target, target.value)

    def unpack(self, target, v, st):
        elts = target.elts
        n = len(elts)
        v = self.force(v)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.concrete_iter(v, st)
        if items is None and v.op == "ite":
            cols = self.unpack_ite(v, n, st)
            if cols is not None and not star:
                items = cols
        if items is not None:
            if star:
                k = star[0]
                tail = n - k - 1
                for e, x in zip(elts[:k], items[:k]):
                    self.assign(e, x, st)
                mid = items[k : len(items) - tail]
                self.assign(elts[k], self.alloc(st, Obj("list", items=tuple(mid))), st)
                for e, x in zip(elts[k + 1 :], items[len(items) - tail :]):
                    self.assign(e, x, st)
                return
            if len(items) != n:
                self.event("raise", st, target, exc="ValueError", msg=const("unpack"))
                st.alive = False
                return
            for e, x in zip(elts, items):
                self.assign(e, x, st)
            return
        self.event("unpack", st, target, value=v, n=n)
        for k, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, mk("item", self.val(v, st), mk("slice", const(k), NONE, NONE)), st)
            else:
                self.assign(e, self.getitem(v, const(k), st, target, quiet=True), st)

    def unpack_ite(self, v, n, st):
        if v.op == "ite":
            a = self.unpack_ite(v.args[1], n, st)
            b = self.unpack_ite(v.args[2], n, st)
            if a is None or b is None:
                return None
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        items = self.concrete_iter(v, st)
        if items is None:
            return [self.getitem(v, const(k), st, quiet=True) for k in range(n)]
        return items if len(items) == n else None

    def setattr(self, base, name, v, st, node, lv=None):
        base = self.force(base)
        self.event("setattr", st, node, target=base, name=name, value=v)
        o = self.obj(base, st)
        if o is not None:
            if o.kind == "inst":
                p, owner = self.class_lookup(o.cls, name)
                if p is not None and p.op == "func" and p.args[0].kind == "property":
                    if p.args[0].setter is not None:
                        self.call_func(p.args[0].setter, [base, v], {}, st, node)
                        return
                    self.event("raise", st, node, exc="AttributeError", msg=const(name))
                f = dict(o.fields)
                f[name] = v
                self.setobj(base, st, o.but(fields=f))
            else:
                f = dict(o.fields)
                if o.kind == "arr":
                    f[name] = v
                    self.setobj(base, st, o.but(fields=f))
            return
        if base.op == "cls":
            self.event("global_write", st, node, name=f"{base.args[0].name}.{name}", value=v)
            return
        if base.op in ("mod", "ext", "func"):
            self.event("global_write", st, node, name=f"{base}.{name}", value=v)
            return
        if base.op == "ite":
            for leaf in leaves_of(base):
                if leaf.op == "obj":
                    lo = self.obj(leaf, st)
                    f = dict(lo.fields)
                    f[name] = self.opaque("maybe", v)
                    self.setobj(leaf, st, lo.but(fields=f))
            return
        if isinstance(lv, ast.Name) and not self.roots(base, st):
            # a fresh value bound to a local name: give it identity
            t = self.alloc(st, Obj("arr", content=base, fields={name: v}))
            self.rebind(lv.id, base, t, st, node)
            return
        self.event("mutate", st, node, target=base, how="." + name + " =", args=(v,))

    def rebind(self, name, old, new, st, node):
        frame = st.frames.get(self.stack[-1].fid, {})
        self.set_name(name, new, st, node)
        for k, x in list(frame.items()):
            if x is old and old.op not in ("const", "param"):
                frame[k] = new

    def setitem(self, base, idx, v, st, node, lv=None):
        base = self.force(base)
        o = self.obj(base, st)
        if o is not None and o.kind == "dict":
            self.event("mutate", st, node, target=base, how="[]=", args=(idx, v))
            f = dict(o.fields)
            f[self.val(idx, st)] = v
            self.setobj(base, st, o.but(fields=f))
            if base.args[0] in self.base.heap and not self.loading:
                self.event("global_write", st, node, name="module-level dict", value=v)
            return
        if o is not None and o.kind == "list":
            self.event("mutate", st, node, target=base, how="[]=", args=(idx, v))
            if o.items is not None and is_const(idx) and isinstance(idx.args[0], int):
                items = list(o.items)
                try:
                    items[idx.args[0]] = v
                except IndexError:
                    st.alive = False
                    return
                self.setobj(base, st, o.but(items=tuple(items)))
            else:
                content = mk("scatter", (), self.val(base, st), mk("tuple", self.val(idx, st)), self.val(v, st))
                self.setobj(base, st, o.but(items=None, content=content))
            return
        if o is not None and o.kind == "inst":
            p, owner = self.class_lookup(o.cls, "__setitem__")
            if p is not None:
                self.call(p, [base, idx, v], {}, st, node)
                return
        self.event("mutate", st, node, target=base, how="[]=", args=(self.val(idx, st), v))
        self.event("index", st, node, base=base, idx=self.val(idx, st), write=True)
        ok = self.setitem_core(base, self.val(idx, st), v, st, node)
        if not ok and isinstance(lv, ast.Name):
            roots = self.roots(base, st)
            content = self.store(base, self.val(idx, st), self.val(v, st))
            t = self.alloc(st, Obj("arr", content=content, meta={"alias": tuple(roots)}))
            self.rebind(lv.id, base, t, st, node)
        elif not ok and isinstance(lv, ast.Attribute) and isinstance(lv.value, ast.Name):
            # x.loc[...] = v with x a fresh value
            b2 = self.lookup(lv.value.id, st)
            if b2.op != "obj" and not self.roots(b2, st):
                content = mk("locstore", b2, const(lv.attr), self.val(idx, st), self.val(v, st))
                t = self.alloc(st, Obj("arr", content=content))
                self.rebind(lv.value.id, b2, t, st, node)

    def setitem_core(self, base, idx, v, st, node):
        o = self.obj(base, st)
        if o is not None and o.kind == "arr":
            new = self.store(self.freeze(o.content, st), idx, self.val(v, st))
            self.setobj(base, st, o.but(content=new))
            return True
        if base.op == "view":
            inner, ix = base.args
            full = compose_idx(ix, idx)
            if full is not None:
                return self.setitem_core(inner, full, v, st, node)
            ro = [r for r in self.roots(base, st) if r.op == "obj"]
            for r in ro:
                rob = self.obj(r, st)
                self.setobj(r, st, rob.but(content=mk("opaque", "viewstore", self.val(r, st), ix, idx, self.val(v, st))))
            return bool(ro)
        if base.op == "attr" and base.args[0].op == "obj":
            o = self.obj(base.args[0], st)
            if o.kind == "arr":
                if base.args[1] in ("attrs",) :
                    return True
                self.setobj(
                    base.args[0],
                    st,
                    o.but(content=mk("locstore", self.freeze(o.content, st), const(base.args[1]), idx, self.val(v, st))),
                )
                return True
        if base.op == "ite":
            done = False
            for leaf in leaves_of(base):
                if leaf.op == "obj":
                    lo = self.obj(leaf, st)
                    if lo.kind == "arr":
                        cur = self.freeze(lo.content, st)
                        sel = self.leaf_cond(base, leaf)
                        new = self.store(cur, idx, ite(sel, self.val(v, st), self.item_term(cur, idx)))
                        self.setobj(leaf, st, lo.but(content=new))
                        done = True
            return done
        return False

    def leaf_cond(self, t, leaf):
        if t.op == "ite":
            a = self.leaf_cond(t.args[1], leaf)
            b = self.leaf_cond(t.args[2], leaf)
            return or_(and_(t.args[0], a), and_(not_(t.args[0]), b))
        return TRUE if t is leaf else FALSE

    def store(self, content, idx, v):
        if idx is ELLIPSIS or (idx.op == "slice" and all(a is NONE for a in idx.args)):
            shape = mk("attr", content, "shape")
            if content.op == "bcval":
                shape = content.args[1]
            elif content.op == "call" and lib.callee_name(content.args[0]) in ("numpy.empty_like",):
                shape = mk("attr", content.args[1][0], "shape")
            return mk("bcval", v, shape)
        ix = idx if idx.op == "tuple" else mk("tuple", idx)
        if content.op == "scatter" and not content.args[0] and content.args[2] is ix:
            content = content.args[1]
        return mk("scatter", (), content, ix, v)

    # control flow -----------------------------------------------------------------

    def s_Return(self, node, st):
        v = self.eval(node.value, st) if node.value is not None else NONE
        if not st.alive:
            return []
        e = Exit("return", st.copy(), v)
        st.alive = False
        return [e]

    def s_Break(self, node, st):
        e = Exit("break", st.copy())
        st.alive = False
        return [e]

    def s_Continue(self, node, st):
        e = Exit("continue", st.copy())
        st.alive = False
        return [e]

    def s_Raise(self, node, st):
        exc = self.eval(node.exc, st) if node.exc is not None else NONE
        name, msg = self.exc_info(exc, st)
        self.event("raise", st, node, exc=name, msg=msg)
        st.alive = False
        return []

    def exc_info(self, exc, st):
        o = self.obj(exc, st)
        if o is not None and o.kind == "inst":
            return o.cls.name, self.freeze(exc, st)
        if exc.op == "call":
            return lib.callee_name(exc.args[0]).split(".")[-1], (
                exc.args[1][0] if exc.args[1] else None
            )
        if exc.op == "ext":
            return exc.args[0].split(".")[-1], None
        if exc.op == "cls":
            return exc.args[0].name, None
        return "?", exc

    def s_If(self, node, st):
        c = self.known(self.truth(self.eval(node.test, st), st), st)
        if not st.alive:
            return []
        if is_const(c):
            return self.exec_block(node.body if c.args[0] else node.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        exits = self.exec_block(node.body, s1)
        exits += self.exec_block(node.orelse, s2)
        self.join(st, c, s1, s2)
        return exits

    def join(self, st, c, s1, s2):
        if s1.alive and s2.alive:
            self.merge_into(st, c, s1, s2)
        elif s1.alive:
            st.become(s1)
        elif s2.alive:
            st.become(s2)
        else:
            st.alive = False

    def merge_into(self, st, c, s1, s2):
        n = len(st.pc)
        facts = []
        for f in s1.pc[n:]:
            if f not in s2.pc and f is not c:
                facts.append(or_(not_(c), f))
            elif f in s2.pc:
                facts.append(f)
        for f in s2.pc[n:]:
            if f not in s1.pc and f is not not_(c):
                facts.append(or_(c, f))
        frames = {}
        for fid in s1.frames:
            if fid not in s2.frames:
                frames[fid] = s1.frames[fid]
                continue
            f1, f2 = s1.frames[fid], s2.frames[fid]
            out = {}
            for k in f1:
                if k in f2:
                    a, b = f1[k], f2[k]
                    out[k] = a if a is b else ite(c, a, b)
                else:
                    out[k] = ite(c, f1[k], UNBOUND)
            for k in f2:
                if k not in f1:
                    out[k] = ite(c, UNBOUND, f2[k])
            frames[fid] = out
        for fid in s2.frames:
            if fid not in frames:
                frames[fid] = s2.frames[fid]
        heap = dict(s2.heap)
        for oid, o1 in s1.heap.items():
            o2 = s2.heap.get(oid)
            if o2 is None:
                heap[oid] = o1
            elif o1 is not o2:
                heap[oid] = self.merge_obj(c, o1, o2)
        st.frames = frames
        st.heap = heap
        st.alive = True
        for f in facts:
            st.assume(f)

    def merge_obj(self, c, o1, o2):
        fields = {}
        for k in list(o1.fields) + [k for k in o2.fields if k not in o1.fields]:
            fields[k] = ite(c, o1.fields.get(k, ABSENT), o2.fields.get(k, ABSENT))
        content = None
        items = None
        if o1.kind == "list":
            if o1.items is not None and o2.items is not None and len(o1.items) == len(o2.items):
                items = tuple(ite(c, a, b) for a, b in zip(o1.items, o2.items))
            else:
                a = o1.content if o1.items is None else mk("list", *o1.items)
                b = o2.content if o2.items is None else mk("list", *o2.items)
                content = ite(c, a, b)
        elif o1.content is not None or o2.content is not None:
            content = self.merge_content(c, o1.content, o2.content)
        meta = o1.meta if o1.meta == o2.meta else {"shape": o1.meta.get("shape")}
        return Obj(o1.kind, o1.cls, content, fields, items, meta)

    def merge_content(self, c, a, b):
        if a is None or b is None:
            return a if b is None else b
        if a is b:
            return a
        # common base with single stores
        if a.op == "scatter" and not a.args[0] and a.args[1] is b:
            ix, v = a.args[2], a.args[3]
            return mk("scatter", (), b, ix, ite(c, v, self.item_term(b, ix if len(ix.args) > 1 else ix.args[0])))
        if b.op == "scatter" and not b.args[0] and b.args[1] is a:
            ix, v = b.args[2], b.args[3]
            return mk("scatter", (), a, ix, ite(c, self.item_term(a, ix if len(ix.args) > 1 else ix.args[0]), v))
        if (
            a.op == b.op == "scatter"
            and a.args[0] == b.args[0]
            and a.args[2] is b.args[2]
            and a.args[1] is b.args[1]
        ):
            return mk("scatter", a.args[0], a.args[1], a.args[2], ite(c, a.args[3], b.args[3]))
        # stores on one or both sides over a common base: merge store by store
        ca, ba = store_chain(a)
        cb, bb = store_chain(b)
        if ba is bb and (ca or cb):
            cur = ba
            for ix, v in ca:
                old = self.item_term(cur, ix if len(ix.args) > 1 else ix.args[0])
                cur = mk("scatter", (), cur, ix, ite(c, v, old))
            for ix, v in cb:
                old = self.item_term(cur, ix if len(ix.args) > 1 else ix.args[0])
                if cur.op == "scatter" and not cur.args[0] and cur.args[2] is ix:
                    cur = cur.args[1]
                cur = mk("scatter", (), cur, ix, ite(c, old, v))
            if not any(contains(v, lambda x: x.op == "scatter") for _, v in ca + cb):
                return cur
        return ite(c, a, b)

    def merge_exits(self, st, base_pc, exits):
        """Join the states of several exits of a call; returns the joined value."""
        n = len(base_pc)
        acc = exits[-1].st
        value = exits[-1].value
        for e in reversed(exits[:-1]):
            cond = and_(*e.st.pc[n:])
            tmp = st.copy()
            tmp.pc = base_pc
            tmp.frames = {}
            s1, s2 = e.st, acc
            tmp2 = State()
            tmp2.frames, tmp2.heap, tmp2.pc, tmp2.loops = {}, {}, base_pc, st.loops
            self.merge_into(tmp2, cond, s1, s2)
            value = ite(cond, e.value, value)
            acc = tmp2
            # drop the verbose implications: keep only facts common to both
            common = tuple(f for f in s1.pc if f in s2.pc)
            acc.pc = common if len(common) >= n else base_pc
        st.frames = acc.frames
        st.heap = acc.heap
        if len(exits) == 1:
            st.pc = exits[0].st.pc
        else:
            st.pc = acc.pc
        st.alive = True
        return value

    def s_With(self, node, st):
        for item in node.items:
            v = self.eval(item.context_expr, st)
            if item.optional_vars is not None:
                if v.op == "ite":
                    v = self.split_value(v, st, lambda x, s: self.enter(x, s, node))
                else:
                    v = self.enter(v, st, node)
                self.assign(item.optional_vars, v, st)
        self.event("with_enter", st, node)
        exits = self.exec_block(node.body, st)
        self.event("with_exit", st, node)
        return exits

    s_AsyncWith = s_With

    def enter(self, v, st, node):
        if v.op == "call" and lib.callee_name(v.args[0]) == "contextlib.nullcontext":
            return v.args[1][0] if v.args[1] else NONE
        o = self.obj(v, st)
        if o is not None and o.kind == "inst":
            m, _ = self.class_lookup(o.cls, "__enter__")
            if m is not None:
                return self.call(m, [v], {}, st, node)
            return v
        return mk("entered", self.val(v, st))

    def s_Try(self, node, st):
        pre = st.copy()
        first = len(self.events)
        self.catching += bool(node.handlers)
        exits = self.exec_block(node.body, st)
        self.catching -= bool(node.handlers)
        raised = [e for e in self.events[first:] if e.kind == "raise" and len(e.loops) == len(pre.loops)]
        if st.alive and node.orelse:
            exits += self.exec_block(node.orelse, st)
        for h in node.handlers:
            sh = pre.copy()
            htype = self.eval(h.type, sh) if h.type is not None else NONE
            mine = [e for e in raised if catches(htype, e.exc)]
            raised = [e for e in raised if e not in mine]
            if mine:
                self.events = [e for e in self.events if e not in mine]
                c = or_(*(and_(*(x for x in e.pc if x not in pre.pc)) for e in mine))
            else:
                c = mk("exc", self.val(htype, sh), node.lineno)
            sh.assume(c)
            if h.name:
                self.set_name(h.name, mk("excval", self.val(htype, sh)), sh, h)
            self.event("handler", sh, h, type=htype)
            n = len(self.events)
            left = self.exec_block(h.body, sh)
            exits += left
            for e in self.events[n:]:
                if e.kind == "raise":
                    self.event("replaces", sh, h, raised=e, body=node.body)
            if sh.alive or left:
                self.event("survives", sh, h, type=htype, body=node.body)
            if sh.alive:
                if st.alive:
                    s1, s2 = sh, st.copy()
                    n = len(pre.pc)
                    st.pc = pre.pc
                    self.merge_into(st, c, s1, s2)
                else:
                    st.become(sh)
        if node.finalbody:
            if st.alive:
                exits += self.exec_block(node.finalbody, st)
            else:
                tmp = pre.copy()
                exits += self.exec_block(node.finalbody, tmp)
        return exits

    s_TryStar = s_Try

    def s_Import(self, node, st):
        for a in node.names:
            full = a.name
            top = full.split(".")[0]
            self.event("import", st, node, name=full)
            if top in {m.split(".")[0] for m in self.project.modules}:
                tgt = full if a.asname else top
                v = mk("mod", tgt)
            else:
                v = mk("ext", full if a.asname else top)
            self.set_name(a.asname or top, v, st, node)
        return []

    def s_ImportFrom(self, node, st):
        mod = self.stack[-1].mod
        target = mod.resolve_relative(node.level, node.module)
        self.event("import", st, node, name=target)
        if target == "__future__":
            return []
        for a in node.names:
            if a.name == "*":
                if target in self.project.modules:
                    m = self.load(target)
                    for k, v in self.base.frames[m.fid].items():
                        if not k.startswith("_"):
                            self.set_name(k, v, st, node)
                continue
            if target in self.project.modules:
                if self.project.modules[target].state == "loading":
                    full = f"{target}.{a.name}"
                    fr = self.base.frames[self.project.modules[target].fid]
                    if a.name in fr:
                        v = fr[a.name]
                    elif full in self.project.modules:
                        self.load(full)
                        v = mk("mod", full)
                    else:
                        v = mk("lazy", target, a.name)
                else:
                    v = self.module_attr(target, a.name)
                    full = f"{target}.{a.name}"
                    if v.op == "ext" and full in self.project.modules:
                        v = mk("mod", full)
            else:
                v = mk("ext", lib.CANON.get(f"{target}.{a.name}", f"{target}.{a.name}"))
            self.set_name(a.asname or a.name, v, st, node)
        return []

    def s_Match(self, node, st):
        subject = self.eval(node.subject, st)
        exits = []

        def run(cases, s):
            if not cases:
                return []
            case = cases[0]
            c = self.pattern(case.pattern, subject, s)
            if c is None:
                self.event("unsupported", s, case, what="match pattern")
                c = self.opaque("match", self.val(subject, s))
            if case.guard is not None:
                c = and_(c, self.truth(self.eval(case.guard, s), s))
            c = self.known(c, s)
            if c is TRUE:
                return self.exec_block(case.body, s)
            if c is FALSE:
                return run(cases[1:], s)
            s1, s2 = s.copy(), s.copy()
            s1.assume(c)
            s2.assume(not_(c))
            ex = self.exec_block(case.body, s1)
            ex += run(cases[1:], s2)
            self.join(s, c, s1, s2)
            return ex

        exits += run(node.cases, st)
        return exits

    def pattern(self, p, subject, st):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", subject, self.eval(p.value, st), st)
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", subject, const(p.value), st)
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, subject, st) for x in p.patterns]
            return None if None in cs else or_(*cs)
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subject, st)
            if p.name and c is not None:
                self.set_name(p.name, subject, st, p)
            return c
        return None

    # loops -----------------------------------------------------------------------

    def new_loop(self, it, st, node, parallel):
        """Create a symbolic loop over `it`; returns (loop id, element)."""
        self._loop += 1
        lid = self._loop
        i = mk("idx", lid)
        it = self.force(it)
        info = {"parallel": False, "node": node, "loc": None, "lo": ZERO, "hi": None, "iter": None}
        ctx = self.stack[-1] if self.stack else None
        if ctx is not None:
            info["loc"] = (
                self.project.relpath(ctx.mod),
                getattr(node, "lineno", 0),
                ctx.func.qualname if ctx.func else "<module>",
            )
            info["jit"] = ctx.func.jit if ctx.func else None
        elem = None
        t = it
        if t.op == "call" and isinstance(t.args[0], T):
            name = lib.callee_name(t.args[0])
            a = t.args[1]
            if name in ("builtins.range", "numba.prange"):
                info["parallel"] = name == "numba.prange"
                if len(a) == 1:
                    info["hi"] = a[0]
                    elem = i
                elif len(a) >= 2:
                    info["lo"], info["hi"] = a[0], a[1]
                    elem = i
                    if len(a) == 3 and a[2] is not ONE:
                        info["step"] = a[2]
                        if is_const(a[2]) and a[2].args[0] == -1:
                            # descending: the same set of indices, reversed
                            info["lo"] = fold_bin("+", a[1], ONE)
                            info["hi"] = fold_bin("+", a[0], ONE)
                            info["reversed"] = True
                        else:
                            info["lo"] = ZERO
                            info["hi"] = mk("call", mk("ext", "builtins.len"), (t,), ())
                            elem = fold_bin("+", a[0], mk("*", i, a[2]))
            elif name == "builtins.enumerate":
                inner = self._elem(a[0], i, info, st)
                start = a[1] if len(a) > 1 else ZERO
                for k, v in t.args[2]:
                    if k == "start":
                        start = v
                elem = mk("tuple", i if start is ZERO else fold_bin("+", i, start), inner)
            elif name == "builtins.zip":
                parts = [self._elem(x, i, info, st) for x in a]
                elem = mk("tuple", *parts)
            elif name == "builtins.reversed":
                elem = self._elem(a[0], i, info, st)
                info["reversed"] = True
        if elem is None:
            elem = self._elem(t, i, info, st)
        info["elem"] = elem
        self.loop_info[lid] = info
        return lid, elem

    def _elem(self, t, i, info, st):
        v = self.val(t, st)
        if v.op == "call" and isinstance(v.args[0], T):
            name = lib.callee_name(v.args[0])
            if name == "dict.items":
                d = v.args[1][0]
                info["iter"] = d
                info["hi"] = info["hi"] or mk("call", mk("ext", "builtins.len"), (d,), ())
                return mk("tuple", mk("keyat", d, i), mk("valat", d, i))
            if name == "dict.keys":
                d = v.args[1][0]
                info["iter"] = d
                info["hi"] = info["hi"] or mk("call", mk("ext", "builtins.len"), (d,), ())
                return mk("keyat", d, i)
            if name == "dict.values":
                d = v.args[1][0]
                info["iter"] = d
                info["hi"] = info["hi"] or mk("call", mk("ext", "builtins.len"), (d,), ())
                return mk("valat", d, i)
            if name == "builtins.range":
                a = v.args[1]
                info["hi"] = info["hi"] or a[-1]
                return i if len(a) == 1 else fold_bin("+", a[0], i)
        info["iter"] = v
        info["hi"] = info["hi"] or self.len_term(v)
        if v.op in ("list", "tuple"):
            return mk("item", v, i)
        return self.item_term(v, i)

    def len_term(self, v):
        if v.op in ("list", "tuple"):
            return const(len(v.args))
        b = v
        while b.op == "call" and lib.callee_name(b.args[0]) in lib.SHAPE_PRESERVING and b.args[1]:
            b = b.args[1][0]
        return mk("item", self.attr_term(b, "shape"), ZERO)

    def s_For(self, node, st):
        it = self.eval(node.iter, st)
        if not st.alive:
            return []
        items = self.concrete_iter(it, st)
        if items is not None and len(items) <= MAX_UNROLL:
            return self.unrolled(node, items, st)
        return self.symbolic_for(node, it, st)

    s_AsyncFor = s_For

    def unrolled(self, node, items, st):
        exits = []
        broken = []
        base_pc = st.pc
        for x in items:
            if not st.alive:
                break
            self.assign(node.target, x, st)
            n = len(st.pc)
            ex = self.exec_block(node.body, st)
            conts = [e for e in ex if e.kind == "continue"]
            broken += [e for e in ex if e.kind == "break"]
            exits += [e for e in ex if e.kind == "return"]
            if conts:
                if st.alive:
                    conts.append(Exit("continue", st.copy()))
                self.merge_exits(st, base_pc, [Exit("continue", e.st, NONE) for e in conts])
        if node.orelse and st.alive:
            exits += self.exec_block(node.orelse, st)
        if broken:
            if st.alive:
                broken.append(Exit("break", st.copy()))
            self.merge_exits(st, base_pc, [Exit("break", e.st, NONE) for e in broken])
        return exits

    def symbolic_for(self, node, it, st):
        lid, elem = self.new_loop(it, st, node, False)
        self.event("loop", st, node, lid=lid)

        def enter(s):
            s.loops = s.loops + (lid,)
            self.assign(node.target, elem, s)
            return None

        return self.summarise(node, st, lid, enter)

    def s_While(self, node, st):
        c0 = self.known(self.truth(self.eval(node.test, st), st), st)
        if c0 is FALSE:
            return self.exec_block(node.orelse, st)
        self._loop += 1
        lid = self._loop
        ctx = self.stack[-1]
        self.loop_info[lid] = {
            "parallel": False,
            "node": node,
            "loc": (self.project.relpath(ctx.mod), node.lineno, ctx.func.qualname if ctx.func else ""),
            "lo": ZERO,
            "hi": None,
            "while": True,
            "iter": None,
        }
        self.event("loop", st, node, lid=lid)

        def enter(s):
            s.loops = s.loops + (lid,)
            c = self.truth(self.eval(node.test, s), s)
            self.loop_info[lid]["cond"] = c
            s.assume(c)
            return c

        return self.summarise(node, st, lid, enter, is_while=True)

    def summarise(self, node, st, lid, enter, is_while=False):
        info = self.loop_info[lid]
        base_pc = st.pc
        # 1. discovery: what does one iteration change?
        rec = self.recording
        self.recording = False
        d = st.copy()
        saved_loopno = self._loop
        enter(d)
        depth_flag = getattr(self, "_discover", 0)
        self._discover = depth_flag + 1
        ex = self.exec_block(node.body, d)
        self._discover = depth_flag
        ends = [e.st for e in ex] + ([d] if d.alive else [])
        changed_vars, changed_objs = set(), set()
        fid = self.stack[-1].fid
        for e in ends:
            for f, fr in e.frames.items():
                if f not in st.frames:
                    continue
                pre = st.frames[f]
                for k, v in fr.items():
                    if pre.get(k) is not v:
                        changed_vars.add((f, k))
            for oid, o in e.heap.items():
                if oid in st.heap and st.heap[oid] is not o:
                    changed_objs.add(oid)
        self.recording = rec
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)} if hasattr(node, "target") else set()
        if depth_flag:
            # inside the discovery of an outer loop only the set of changes matters
            if d.alive:
                pass
            elif ends:
                d = ends[0]
            else:
                d = st.copy()
            d.pc = base_pc
            d.loops = st.loops
            d.alive = True
            # loop targets stay bound
            # add changes from all ends
            for f, k in changed_vars:
                if f in d.frames:
                    cur = d.frames[f].get(k)
                    if cur is None or cur is st.frames[f].get(k):
                        d.frames[f][k] = self.opaque("disc", const(lid), const(k))
            for oid in changed_objs:
                if d.heap.get(oid) is st.heap[oid]:
                    o = d.heap[oid]
                    d.heap[oid] = o.but(content=self.opaque("disc", const(lid), const(oid)))
            rets = [e for e in ex if e.kind == "return"]
            st.become(d)
            for e in rets:
                e.st.loops = st.loops
            return rets
        # 2. solve: run an iteration from placeholders
        closed = {}
        for attempt in range(3):
            mark = len(self.events)
            b = st.copy()
            mus = {}
            for f, k in sorted(changed_vars, key=str):
                if f == fid and k in targets:
                    continue
                v0 = st.frames[f].get(k, UNBOUND)
                if v0 is UNBOUND:
                    continue
                if v0.op == "obj":
                    # another object may be bound to the name: it carries contents
                    o = self.obj(v0, st)
                    if o.kind in ("arr", "list"):
                        m = mk("mu", lid, k)
                        mus[(f, k)] = m
                        meta = {"alias": tuple(self.roots(v0, st))} if o.kind == "arr" else None
                        b.frames[f][k] = self.alloc(b, Obj(o.kind, content=m, **({"meta": meta} if meta else {})))
                    else:
                        b.frames[f][k] = self.opaque("carried", const(k))
                    continue
                m = closed.get((f, k))
                if m is None:
                    m = mk("mu", lid, k)
                mus[(f, k)] = m
                b.frames[f][k] = m
            for oid in changed_objs:
                o = st.heap[oid]
                b.heap[oid] = self.obj_placeholder(lid, oid, o, d.heap.get(oid))
            cond = enter(b)
            ex = self.exec_block(node.body, b)
            ends = []
            for e in ex:
                if e.kind == "continue":
                    ends.append(e)
            if b.alive:
                ends.append(Exit("continue", b.copy(), NONE))
            brk = [e for e in ex if e.kind == "break"]
            rets = [e for e in ex if e.kind == "return"]
            if ends:
                pc_n = len(base_pc)
                end = b
                end.pc = base_pc
                self.merge_exits(end, base_pc, [Exit("c", e.st, NONE) for e in ends])
            else:
                end = None
            # induction variables
            new_closed = {}
            if end is not None and not is_while and not brk:
                for (f, k), m in mus.items():
                    if (f, k) in closed or m.op != "mu":
                        continue
                    v0 = st.frames[f].get(k)
                    v1 = end.frames[f].get(k)
                    if v1 is None or v1 is m or v0.op == "obj":
                        continue
                    r = self.induction(m, v0, v1, lid, info, changed_vars, changed_objs)
                    if r is not None:
                        new_closed[(f, k)] = r
            if new_closed and attempt < 2:
                closed.update(new_closed)
                del self.events[mark:]
                continue
            break
        # 3. close the loop
        self.close_loop(st, lid, info, end, mus, closed, changed_vars, changed_objs, base_pc, brk, rets, is_while, targets, fid)
        out = []
        if rets:
            out = self.loop_returns(st, lid, info, rets, base_pc)
        if getattr(node, "orelse", None) and st.alive:
            if brk:
                s1, s2 = st.copy(), st.copy()
                c = mk("exists", mk("idx", lid), or_(*(and_(*e.st.pc[len(base_pc):]) for e in brk)))
                s2.assume(not_(c))
                s1.assume(c)
                out += self.exec_block(node.orelse, s2)
                self.join(st, c, s1, s2)
            else:
                out += self.exec_block(node.orelse, st)
        return out

    def obj_placeholder(self, lid, oid, o, after):
        m = mk("mu", lid, ("obj", oid))
        if o.kind == "arr":
            fields = dict(o.fields)
            return o.but(content=m, fields=fields)
        if o.kind == "list":
            return o.but(items=None, content=m)
        if o.kind == "dict":
            f = {}
            for k, v in o.fields.items():
                a = after.fields.get(k) if after is not None else None
                f[k] = v if a is v else mk("mu", lid, ("obj", oid, str(k)))
            return o.but(fields=f, content=m)
        if o.kind == "inst":
            f = {}
            for k, v in o.fields.items():
                a = after.fields.get(k) if after is not None else None
                f[k] = v if a is v or v.op == "obj" else mk("mu", lid, ("obj", oid, k))
            return o.but(fields=f)
        return o

    def induction(self, m, v0, v1, lid, info, cv, co):
        i = mk("idx", lid)

        def invariant(e):
            return not contains(e, lambda x: x is i or (x.op == "mu" and x.args[0] == lid))

        steps = i if info["lo"] is ZERO else fold_bin("-", i, info["lo"])
        if info.get("reversed"):
            return None
        v = v1
        if v.op == "+" and v.args[0] is m and invariant(v.args[1]):
            return fold_bin("+", v0, fold_bin("*", steps, v.args[1]))
        if v.op == "+" and v.args[1] is m and invariant(v.args[0]):
            return fold_bin("+", v0, fold_bin("*", steps, v.args[0]))
        if v.op == "-" and v.args[0] is m and invariant(v.args[1]):
            return fold_bin("-", v0, fold_bin("*", steps, v.args[1]))
        if v.op == "*" and v.args[0] is m and invariant(v.args[1]):
            return fold_bin("*", v0, fold_bin("**", v.args[1], steps))
        if v.op == "*" and v.args[1] is m and invariant(v.args[0]):
            return fold_bin("*", v0, fold_bin("**", v.args[0], steps))
        return None

    def close_loop(self, st, lid, info, end, mus, closed, cvars, cobjs, base_pc, brk, rets, is_while, targets, fid):
        i = mk("idx", lid)
        if end is None:
            end = st.copy()
        info["carried"] = {
            k: (m, self.freeze(st.frames[f].get(k), st), self.freeze(end.frames.get(f, {}).get(k, UNBOUND), end))
            for (f, k), m in mus.items()
        }
        opaque_exit = bool(brk) or is_while
        if not brk and not rets:
            rec = {}
            for (f, k), m in mus.items():
                if m.op == "mu":
                    a, b = st.frames[f].get(k), end.frames.get(f, {}).get(k)
                    if a is not None and b is not None and b is not m:
                        rec[m] = (self.freeze(a, st) if a.op == "obj" else a, self.freeze(b, end))
            for oid in cobjs:
                o0, o1 = st.heap[oid], end.heap.get(oid)
                if o0.kind == "arr" and o1 is not None and o1.content is not None:
                    rec[mk("mu", lid, ("obj", oid))] = (o0.content, self.freeze(o1.content, end))
            info["closed"] = {"vars": rec}
        for f, k in sorted(cvars, key=str):
            if f not in st.frames:
                continue
            v0 = st.frames[f].get(k, UNBOUND)
            v1 = end.frames.get(f, {}).get(k, UNBOUND)
            if v0.op == "obj" and v1 is v0:
                continue
            m = mus.get((f, k))
            kind = None
            if v0.op == "obj" and m is not None:
                kind = self.obj(v0, st).kind
                v0 = self.freeze(v0, st)
            if m is not None and v1.op == "obj":
                v1 = self.freeze(v1, end)
            if opaque_exit:
                st.frames[f][k] = mk("loopval", i, const(k), v0, v1)
                continue
            if kind == "arr":
                st.frames[f][k] = self.alloc(st, Obj("arr", content=self.close_value(m, v0, v1, lid, i, info)))
                continue
            if (f, k) in closed:
                # value after the last iteration
                hi = info["hi"]
                st.frames[f][k] = (
                    subst(closed[(f, k)], {i: hi}) if hi is not None else mk("loopval", i, const(k), v0, v1)
                )
                # exact only for non-empty ranges; empty ranges give v0 as well
                continue
            st.frames[f][k] = self.close_value(m, v0, v1, lid, i, info)
        for oid in cobjs:
            o0 = st.heap[oid]
            o1 = end.heap.get(oid, o0)
            st.heap[oid] = self.close_obj(lid, oid, o0, o1, i, info, opaque_exit)
        # facts: a raise inside the loop that did not happen
        facts = []
        for e in end.pc[len(base_pc):] if end is not None else ():
            facts.append(e)
        st.pc = base_pc
        for fct in facts:
            if not contains(fct, lambda x: x.op == "mu"):
                st.assume(mk("forall", i, fct))
        st.alive = True

    def close_value(self, m, v0, v1, lid, i, info):
        if m is None:
            # assigned in the body without a previous value, or a loop target
            return mk("last", i, v1, v0)
        if v1 is m:
            return v0
        e = additive(v1, m)
        if e is not None and not contains(e, lambda x: x.op == "mu" and x.args[0] == lid):
            return fold_bin("+", v0, mk("sum", i, e)) if v0 is not ZERO and v0 is not const(0.0) else mk("sum", i, e)
        if v1.op == "*" and m in v1.args[:2]:
            e = v1.args[1] if v1.args[0] is m else v1.args[0]
            if not contains(e, lambda x: x.op == "mu" and x.args[0] == lid):
                return fold_bin("*", v0, mk("prod", i, e))
        if not contains(v1, lambda x: x.op == "mu" and x.args[0] == lid):
            return mk("last", i, v1, v0)
        if v1.op in ("or", "ite") or self.is_bool_term(v1):
            pass
        return mk("rec", i, const(m.args[1]), v0, v1)

    def close_obj(self, lid, oid, o0, o1, i, info, opaque_exit):
        m = mk("mu", lid, ("obj", oid))
        if o1 is o0:
            return o0
        if o0.kind == "arr":
            fields = o1.fields
            if opaque_exit:
                c = mk("loopval", i, const("obj"), o0.content, o1.content)
            else:
                c = self.close_content(m, o0.content, o1.content, lid, i, info)
            return o0.but(content=c, fields=fields)
        if o0.kind == "list":
            base = mk("list", *o0.items) if o0.items is not None else o0.content
            c = o1.content if o1.items is None else mk("list", *o1.items)
            if not opaque_exit and c is not None:
                e = list_append(c, m)
                if e is not None and not contains(e, lambda x: x.op == "mu" and x.args[0] == lid):
                    base_items = base.op == "list" and not base.args
                    comp = mk("comp", "list", (i,), TRUE, e)
                    if c.op == "chain":
                        comp = mk("comp", "list", (i,) + e.args[1], e.args[2], e.args[3])
                    if e.op == "guarded":
                        comp = mk("comp", "list", (i,), e.args[0], e.args[1])
                    return o0.but(items=None, content=comp if base_items else mk("chain", base, comp))
            return o0.but(items=None, content=mk("loopval", i, const("list"), base, c))
        if o0.kind == "dict":
            f = {}
            for k in list(o0.fields) + [k for k in o1.fields if k not in o0.fields]:
                a, b = o0.fields.get(k, ABSENT), o1.fields.get(k, ABSENT)
                f[k] = a if a is b else mk("loopval", i, k, a, b)
            changed_symbolic = any(not is_const(k) for k in o1.fields)
            content = o0.content
            if changed_symbolic or o1.content is not m:
                items = tuple(mk("kv", k, v) for k, v in o1.fields.items() if not is_const(k))
                content = mk("loopdict", i, items, *(() if o0.content is None else (o0.content,)))
                f = {k: v for k, v in f.items() if is_const(k)}
            return o0.but(fields=f, content=content)
        if o0.kind == "inst":
            f = {}
            for k in list(o0.fields) + [k for k in o1.fields if k not in o0.fields]:
                a, b = o0.fields.get(k, ABSENT), o1.fields.get(k, ABSENT)
                if a is b:
                    f[k] = a
                    continue
                mm = mk("mu", lid, ("obj", oid, k))
                f[k] = self.close_value(mm, a, b, lid, i, info) if not opaque_exit else mk("loopval", i, const(k), a, b)
            return o0.but(fields=f)
        return o1

    def close_content(self, m, c0, c1, lid, i, info):
        """Array content after a loop whose body maps m to c1."""
        if c1 is m:
            return c0
        chain = []
        cur = c1
        while cur.op == "scatter":
            chain.append(cur)
            cur = cur.args[1]
        if cur is not m:
            # whole-array update
            e = additive(c1, m)
            if e is not None and not contains(e, lambda x: x.op == "mu" and x.args[0] == lid):
                return fold_bin("+", c0, mk("sum", i, e))
            if c1.op == "bcval" and not contains(c1, lambda x: x.op == "mu" and x.args[0] == lid):
                return mk("last", i, c1, c0)
            return mk("rec", i, const("array"), c0, c1)
        out = c0

        def has_mu(t):
            return contains(t, lambda x: x.op == "mu" and x.args[0] == lid)

        for node in reversed(chain):
            loops, base, ix, val = node.args
            # reads of the array inside val refer to `base`, rooted at m
            own = self.item_term(base, ix if len(ix.args) > 1 else ix.args[0])
            own_raw = mk("item", m, ix if len(ix.args) > 1 else ix.args[0])
            dep = contains(ix, lambda x: x is i) or any(
                self.loop_info[j.args[0]].get(k) is not None and contains(self.loop_info[j.args[0]][k], lambda x: x is i)
                for j in loops if j.op == "idx" for k in ("lo", "hi"))
            idx_ok = not has_mu(ix)
            if not idx_ok:
                return mk("rec", i, const("array"), c0, c1)
            if dep:
                new_own = self.item_term(out, ix if len(ix.args) > 1 else ix.args[0])
                v = subst(val, {own_raw: new_own})
                if has_mu(v) or v is not val and not distinct_cells(ix, (i,) + loops):
                    v2 = val
                    out = mk("recarr", (i,) + loops, out, ix, v2, m)
                    # later stores in the chain are applied on top
                    continue
                out = mk("scatter", (i,) + loops, out, ix, v)
            else:
                e = additive(val, own_raw)
                if e is None and loops:
                    e = None
                if e is not None and not has_mu(e):
                    new_own = self.item_term(out, ix if len(ix.args) > 1 else ix.args[0])
                    out = mk("scatter", loops, out, ix, fold_bin("+", new_own, mk("sum", i, e)))
                elif not has_mu(val):
                    out = mk("scatter", loops, out, ix, mk("last", i, val, self.item_term(out, ix if len(ix.args) > 1 else ix.args[0])))
                else:
                    return mk("rec", i, const("array"), c0, c1)
        return out

    def loop_returns(self, st, lid, info, rets, base_pc):
        i = mk("idx", lid)
        out = []
        n = len(base_pc)
        for e in rets:
            c = and_(*e.st.pc[n:])
            cond = mk("exists", i, c)
            v = e.value
            vf = self.freeze(v, e.st)
            if contains(vf, lambda x: x is i):
                v = mk("firstof", i, c, vf)
            s = st.copy()
            s.pc = base_pc
            s.assume(cond)
            out.append(Exit("return", s, v))
            st.assume(not_(cond))
        return out


# --------------------------------------------------------------------------- utilities

FULL = mk("slice", NONE, NONE, NONE)
ELLIPSIS = const(Ellipsis)
_NOT_NONE = {
    "tuple", "list", "dict", "func", "cls", "obj", "fstr", "+", "-", "*", "/", "**", "neg",
    "ext", "mod", "bound", "instval", "scatter", "sum", "<", "<=", "==", "not", "and", "or",
    "bcval", "view", "bcast", "entered",
}


def _has_slice(idx):
    comps = idx.args if idx.op == "tuple" else (idx,)
    return any(c.op == "slice" or c is ELLIPSIS or c is NONE for c in comps)


def _may_be_absent(v):
    return v is ABSENT or (v.op == "ite" and any(x is ABSENT for x in leaves_of(v)))


def _copy_false(t):
    return any(k == "copy" and v is FALSE for k, v in ((x[0], x[1]) for x in kwitems(t)))


def kwitems(call):
    return [(x[0], x[1]) for x in call.args[2]]


def _kw(fk):
    return tuple((k, v) for k, v in fk)


def map_leaves(t, fn):
    if t.op == "ite":
        return mk("ite", t.args[0], map_leaves(t.args[1], fn), map_leaves(t.args[2], fn))
    return fn(t)


def store_chain(t):
    """Split nested plain stores into ([(idx, val)...], base), oldest first."""
    out = []
    while t.op == "scatter" and not t.args[0]:
        out.append((t.args[2], t.args[3]))
        t = t.args[1]
    return list(reversed(out)), t


def distinct_cells(ix, loops):
    """Whether different iterations certainly write different cells of an array."""
    todo = set(loops)
    for c in ix.args if ix.op == "tuple" else (ix,):
        own = [x for x in todo if linear_in(c, x, loops)]
        if len(own) == 1:
            todo.discard(own[0])
    return not todo


def linear_in(c, i, loops):
    if c is i:
        return True
    if c.op in ("+", "-", "*") and len(c.args) == 2:
        for a, b in (c.args, c.args[::-1]):
            if linear_in(a, i, loops) and free_of(b, set(loops)) and not (c.op == "*" and not (b.op == "const" and b.args[0])):
                return True
    if c.op == "slice" and len(c.args) == 3:
        # consecutive stretches i*n:(i+1)*n and start:start+n are disjoint
        lo, hi, _ = c.args
        return linear_in(lo, i, loops) and hi.op == "+" and i in hi.args and contains(lo, lambda x: x is i)
    return False


def match_idx(pattern, idx, loops):
    """Solve pattern == idx for the loop variables when pattern uses them plainly."""
    if len(pattern) != len(idx):
        return None
    m = {}
    for p, x in zip(pattern, idx):
        if p in loops:
            if x.op == "slice":
                return None
            if p in m and m[p] is not x:
                return None
            m[p] = x
        elif p is x:
            continue
        else:
            return None
    if set(m) != set(loops):
        return None
    return m


def compose_idx(outer, inner):
    """Index of x[outer][inner] on x, for plain full-slice views."""
    comps = list(outer.args) if outer.op == "tuple" else [outer]
    tin = list(inner.args) if inner.op == "tuple" else [inner]
    slots = [k for k, c in enumerate(comps) if c.op == "slice"]
    if any(comps[k] is not FULL for k in slots):
        return None
    if len(tin) > len(slots):
        if len(slots) == 0:
            return mk("tuple", *comps, *tin)
        return None
    for k, v in zip(slots, tin):
        comps[k] = v
    return mk("tuple", *comps) if len(comps) > 1 else comps[0]


def additive(v, m):
    """e such that v == m + e, or None."""
    if v is m:
        return ZERO
    if v.op == "+":
        a = additive(v.args[0], m)
        if a is not None and free_of(v.args[1], {m}):
            return v.args[1] if a is ZERO else fold_bin("+", a, v.args[1])
        b = additive(v.args[1], m)
        if b is not None and free_of(v.args[0], {m}):
            return v.args[0] if b is ZERO else fold_bin("+", v.args[0], b)
    if v.op == "-":
        a = additive(v.args[0], m)
        if a is not None and free_of(v.args[1], {m}):
            return mk("neg", v.args[1]) if a is ZERO else fold_bin("-", a, v.args[1])
    if v.op == "ite":
        a = additive(v.args[1], m)
        b = additive(v.args[2], m)
        if a is not None and b is not None and free_of(v.args[0], {m}):
            return ite(v.args[0], a, b)
    return None


def list_append(c, m):
    if c.op == "chain" and len(c.args) == 2 and c.args[0] is m and c.args[1].op == "comp":
        return c.args[1]
    if c.op == "append" and c.args[0] is m:
        return c.args[1]
    if c.op == "ite":
        a, b = c.args[1], c.args[2]
        if b is m and a.op == "append" and a.args[0] is m:
            return mk("guarded", c.args[0], a.args[1])
        if a is m and b.op == "append" and b.args[0] is m:
            return mk("guarded", not_(c.args[0]), b.args[1])
    return None


def fold_bin(op, a, b):
    if is_const(a) and is_const(b):
        x, y = a.args[0], b.args[0]
        num = (int, float, complex)
        if isinstance(x, num) and isinstance(y, num) and not (isinstance(x, float) or isinstance(y, float)):
            try:
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*":
                    return const(x * y)
                if op == "//":
                    return const(x // y)
                if op == "%":
                    return const(x % y)
                if op == "**" and isinstance(y, int) and 0 <= y < 64:
                    return const(x**y)
            except (ZeroDivisionError, OverflowError, TypeError):
                pass
        if isinstance(x, str) and isinstance(y, str) and op == "+":
            return const(x + y)
    if op == "+":
        if is_const(a) and a.args[0] in (0,) and not isinstance(a.args[0], bool):
            return b
        if is_const(b) and b.args[0] == 0 and not isinstance(b.args[0], (bool, str)):
            return a
    if op == "*":
        if is_const(a) and isinstance(a.args[0], int) and a.args[0] == 1 and not isinstance(a.args[0], bool):
            return b
        if is_const(b) and isinstance(b.args[0], int) and b.args[0] == 1 and not isinstance(b.args[0], bool):
            return a
    if op == "+" and (is_const(a) and isinstance(a.args[0], str) or is_const(b) and isinstance(b.args[0], str) or a.op == "fstr" or b.op == "fstr"):
        return mk("fstr", (a, b))
    return mk(op, a, b)


class Result:
    """Outcome of analysing one call."""

    def __init__(self, interp, value, st, events):
        self.interp = interp
        self.raw = value
        self.st = st
        self.events = events
        self.alive = st.alive

    @property
    def value(self):
        return self.interp.freeze(self.raw, self.st)

    def kind(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.name in names]
