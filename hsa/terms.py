"""Hash-consed value-graph terms."""

_TABLE = {}


class T:
    """An interned node of the value graph: an operator and its arguments."""

    __slots__ = ("op", "args", "uid", "_cache")

    def __repr__(self):
        return show(self)

    def __reduce__(self):  # pragma: no cover - terms are never pickled
        raise TypeError("terms are interned")


_N = [0]


def mk(op, *args):
    key = (op, args)
    try:
        t = _TABLE.get(_key(op, args))
    except TypeError:
        key = (op, tuple(repr(a) for a in args))
        t = _TABLE.get(key)
        if t is None:
            t = _new(op, args)
            _TABLE[key] = t
        return t
    if t is None:
        t = _new(op, args)
        _TABLE[_key(op, args)] = t
    return t


def _key(op, args):
    # 1, 1.0 and True are equal in Python but are different constants
    if op == "const":
        v = args[0]
        return (op, type(v).__name__, v, repr(v))
    return (op, args)


def _new(op, args):
    t = T.__new__(T)
    t.op = op
    t.args = args
    t._cache = None
    _N[0] += 1
    t.uid = _N[0]
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNBOUND = mk("unbound")
ABSENT = mk("absent")


def is_const(t):
    return t.op == "const"


def children(t):
    """Term children of a term (flattening tuples of arguments)."""
    stack = list(t.args)
    while stack:
        a = stack.pop()
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            stack.extend(a)


def walk(t, seen=None):
    """Yield every distinct sub-term of t, including t."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, fn, memo=None):
    """Bottom-up rewrite of t: fn receives (op, args) of already rewritten nodes."""
    memo = {} if memo is None else memo

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(i) for i in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.uid)
        if r is None:
            r = fn(x.op, tuple(rec(a) for a in x.args), x)
            memo[x.uid] = r
        return r

    return rec(t)


def subst(t, mapping):
    """Replace sub-terms of t following a {term: term} mapping."""
    memo = {k.uid: v for k, v in mapping.items()}
    return rebuild(t, lambda op, args, old: mk(op, *args), memo)


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(a, depth) for a in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "param":
        return a[0]
    if op == "ext":
        return a[0]
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "call":
        f = show(a[0], d) if isinstance(a[0], T) else a[0]
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{f}({', '.join(args)})"
    if op == "func":
        return f"<{a[0].qualname}>"
    if op == "cls":
        return f"<class {a[0].name}>"
    if op in ("tuple", "list"):
        return ("(" if op == "tuple" else "[") + ", ".join(show(x, d) for x in a) + (
            ")" if op == "tuple" else "]"
        )
    if op in _BIN and len(a) == 2:
        return f"({show(a[0], d)} {op} {show(a[1], d)})"
    if op == "neg":
        return f"-{show(a[0], d)}"
    if op == "not":
        return f"not {show(a[0], d)}"
    if op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op == "idx":
        return f"i{a[0]}"
    return f"{op}<{', '.join(show(x, d) for x in a)}>"


_BIN = {
    "+", "-", "*", "/", "**", "//", "%", "@", "<", "<=", ">", ">=", "==", "!=",
    "is", "in", "and", "or", "&", "|", "^", "<<", ">>",
}
