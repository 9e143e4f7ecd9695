"""Models of the library functions the analysed package calls.

Everything not modelled here is an uninterpreted, pure function of its arguments.
"""

import builtins as _b

from .terms import ABSENT, FALSE, NONE, TRUE, ZERO, T, const, is_const, mk

BUILTINS = set(dir(_b))

CANON = {
    "numpy.deg2rad": "numpy.radians",
    "numpy.rad2deg": "numpy.degrees",
    "numpy.absolute": "numpy.abs",
    "numpy.power": "numpy.power",
    "numpy.invert": "numpy.logical_not",
    "numpy.bitwise_not": "numpy.logical_not",
    "numpy.amax": "numpy.max",
    "numpy.amin": "numpy.min",
    "numpy.atan2": "numpy.arctan2",
    "numpy.atan": "numpy.arctan",
    "numpy.asin": "numpy.arcsin",
    "numpy.acos": "numpy.arccos",
    "numpy.concat": "numpy.concatenate",
    "numpy.asanyarray": "numpy.asarray",
    "numpy.ascontiguousarray": "numpy.asarray",
    "numba.njit": "numba.njit",
    "numba.core.decorators.jit": "numba.jit",
    "math.radians": "numpy.radians",
    "math.degrees": "numpy.degrees",
    "numpy.random.RandomState": "numpy.random.RandomState",
    "verde.make_xarray_grid": "verde.make_xarray_grid",
    "verde.utils.make_xarray_grid": "verde.make_xarray_grid",
    "verde.base.utils.n_1d_arrays": "verde.base.n_1d_arrays",
    "verde.base.utils.check_fit_input": "verde.base.check_fit_input",
}

ALIASING = {
    "numpy.asarray",
    "numpy.atleast_1d",
    "numpy.atleast_2d",
    "numpy.atleast_3d",
    "numpy.ravel",
    "numpy.reshape",
    "numpy.transpose",
    "numpy.squeeze",
    "numpy.swapaxes",
    "numpy.moveaxis",
    "numpy.expand_dims",
    "numpy.broadcast_to",
    "numpy.broadcast_arrays",
    "numpy.view",
    "numpy.real",
    "numpy.array",
    "numpy.flip",
    "numpy.split",
    "xarray.DataArray",
    "builtins.tuple",
    "builtins.list",
    "builtins.zip",
    "builtins.enumerate",
    "builtins.reversed",
    "builtins.iter",
    "dict.items",
    "dict.values",
    ".astype",
    ".view",
    ".transpose",
    ".isel",
    ".sel",
    ".get",
    ".rename",
    ".squeeze",
}

SIZE_PRESERVING = {
    "numpy.asarray",
    "numpy.array",
    "numpy.atleast_1d",
    "numpy.atleast_2d",
    "numpy.ravel",
    "numpy.reshape",
    "numpy.transpose",
    "numpy.squeeze",
    "numpy.astype",
    "numpy.copy",
    "numpy.flatten",
    "numpy.radians",
    "numpy.degrees",
    "numpy.cos",
    "numpy.sin",
    "numpy.abs",
    "numpy.sqrt",
    "builtins.tuple",
    "builtins.list",
}
SHAPE_PRESERVING = {
    "numpy.asarray",
    "numpy.array",
    "numpy.astype",
    "numpy.copy",
    "numpy.radians",
    "numpy.degrees",
    "numpy.cos",
    "numpy.sin",
    "numpy.abs",
    "numpy.sqrt",
    "builtins.tuple",
    "builtins.list",
}

BOOL_FUNCS = {
    "numpy.isnan",
    "numpy.isfinite",
    "numpy.isinf",
    "numpy.logical_or",
    "numpy.logical_and",
    "numpy.logical_not",
    "numpy.logical_xor",
    "numpy.isclose",
    "numpy.any",
    "numpy.all",
    "numpy.allclose",
    "numpy.array_equal",
    "numpy.isscalar",
    "numpy.less",
    "numpy.greater",
    "numpy.equal",
    "numpy.greater_equal",
    "numpy.less_equal",
    "numpy.not_equal",
    "builtins.any",
    "builtins.all",
    "builtins.bool",
    "builtins.isinstance",
    "math.isclose",
    "math.isnan",
    ".any",
    ".all",
    ".isnull",
    ".notnull",
    ".startswith",
    ".endswith",
}

FRESH = {"verde.make_xarray_grid", "xarray.DataArray", "xarray.Dataset"}

ND_METHODS = {
    n: n
    for n in (
        "ravel reshape astype copy any all sum min max mean std transpose squeeze flatten "
        "argmin argmax cumsum prod round clip conj conjugate swapaxes var dot"
    ).split()
}

MUTATING_METHODS = {
    "fill",
    "sort",
    "put",
    "itemset",
    "partition",
    "resize",
    "append",
    "extend",
    "insert",
    "pop",
    "popitem",
    "remove",
    "clear",
    "update",
    "setdefault",
    "reverse",
    "setflags",
    "add",
    "discard",
}


def callee_name(f):
    if not isinstance(f, T):
        return str(f)
    if f.op == "ext":
        return f.args[0]
    if f.op == "attr":
        return "." + f.args[1]
    if f.op == "func":
        return f.args[0].qualname
    return "<" + f.op + ">"


def const_fold_call(name, args, kwargs):
    if kwargs or not args or not all(is_const(a) for a in args):
        return None
    vals = [a.args[0] for a in args]
    short = name.split(".")[-1]
    try:
        if name in ("builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.abs",
                    "builtins.max", "builtins.min", "builtins.len", "builtins.round", "builtins.divmod"):
            return const(getattr(_b, short)(*vals))
        if name in ("numpy.isscalar",):
            return const(isinstance(vals[0], (int, float, complex, str, bool)))
        if name == "numpy.isnan" and isinstance(vals[0], (int, float)):
            return const(vals[0] != vals[0])
    except (TypeError, ValueError):
        return None
    return None


# ---------------------------------------------------------------- container methods


def dict_method(I, base, o, name, args, kwargs, st, node):
    from .interp import Obj, _may_be_absent, ite

    fields = dict(o.fields)
    known = o.content is None and not any(_may_be_absent(v) for v in fields.values())
    if name == "items" and known:
        return mk("tuple", *(mk("tuple", k, v) for k, v in fields.items()))
    if name == "keys":
        if known:
            return mk("tuple", *fields)
        return mk("call", mk("ext", "dict.keys"), (I.val(base, st),), ())
    if name == "values" and known:
        return mk("tuple", *fields.values())
    if name in ("items", "values"):
        return mk("call", mk("ext", "dict." + name), (I.val(base, st),), ())
    if name == "copy":
        return I.alloc(st, o.but())
    if name == "get":
        key = I.val(args[0], st)
        default = args[1] if len(args) > 1 else NONE
        v = fields.get(key)
        if v is not None and v is not ABSENT:
            return _default(v, default)
        if o.content is None:
            if is_const(key):
                return default
            acc = default
            for k, w in reversed(list(fields.items())):
                acc = ite(mk("==", key, k), w, acc)
            return acc
        return ite(mk("in", key, o.content), mk("item", o.content, key), default)
    if name in ("update", "setdefault", "pop", "popitem", "clear"):
        I.event("mutate", st, node, target=base, how=f".{name}()", args=tuple(args))
        if base.args[0] in I.base.heap and not I.loading:
            I.event("global_write", st, node, name="module-level dict", value=NONE)
        if name == "update":
            content = o.content
            if args:
                src = I.obj(args[0], st)
                if src is not None and src.kind == "dict":
                    for k, v in src.fields.items():
                        if _may_be_absent(v):
                            v = _default(v, fields.get(k, ABSENT))
                        fields[k] = v
                    content = src.content or content
                else:
                    content = I.val(args[0], st)
            for k, v in kwargs.items():
                fields[const(k)] = v
            I.setobj(base, st, o.but(fields=fields, content=content))
            return NONE
        key = I.val(args[0], st) if args else None
        if name == "setdefault":
            default = args[1] if len(args) > 1 else NONE
            v = fields.get(key)
            if v is None or v is ABSENT:
                if o.content is not None:
                    default = ite(mk("in", key, o.content), mk("item", o.content, key), default)
                v = default
            else:
                v = _default(v, default)
            fields[key] = v
            I.setobj(base, st, o.but(fields=fields))
            return v
        if name == "pop" and key is not None:
            v = fields.get(key)
            fields[key] = ABSENT
            if v is None or v is ABSENT:
                d = args[1] if len(args) > 1 else I.opaque("keyerror", key)
                v = d if o.content is None else ite(mk("in", key, o.content), mk("item", o.content, key), d)
                if o.content is None:
                    fields.pop(key)
            I.setobj(base, st, o.but(fields=fields))
            return v
        I.setobj(base, st, o.but(fields={}, content=I.opaque("dictmut", I.val(base, st))))
        return NONE
    return None


def _default(v, d):
    from .interp import ite

    if v is ABSENT:
        return d
    if v.op == "ite":
        return ite(v.args[0], _default(v.args[1], d), _default(v.args[2], d))
    return v


def list_method(I, base, o, name, args, kwargs, st, node):
    if name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
        I.event("mutate", st, node, target=base, how=f".{name}()", args=tuple(args))
        if name == "append":
            if o.items is not None:
                I.setobj(base, st, o.but(items=o.items + (args[0],)))
            else:
                I.setobj(base, st, o.but(content=mk("append", o.content, I.val(args[0], st))))
            return NONE
        if name == "extend":
            items = I.concrete_iter(args[0], st)
            if o.items is not None and items is not None:
                I.setobj(base, st, o.but(items=o.items + tuple(items)))
            else:
                c = o.content if o.items is None else mk("list", *(I.val(x, st) for x in o.items))
                I.setobj(base, st, o.but(items=None, content=mk("extend", c, I.val(args[0], st))))
            return NONE
        if name == "pop":
            if o.items is not None and (not args or is_const(args[0])):
                k = args[0].args[0] if args else -1
                items = list(o.items)
                try:
                    v = items.pop(k)
                except IndexError:
                    return I.opaque("indexerror")
                I.setobj(base, st, o.but(items=tuple(items)))
                return v
            c = I.val(base, st)
            k = I.val(args[0], st) if args else const(-1)
            I.setobj(base, st, o.but(items=None, content=mk("popped", c, k)))
            return mk("item", c, k)
        if name == "clear":
            I.setobj(base, st, o.but(items=(), content=None))
            return NONE
        c = I.val(base, st)
        I.setobj(base, st, o.but(items=None, content=mk("listmut", const(name), c, *(I.val(a, st) for a in args))))
        return NONE
    if name == "copy":
        return I.alloc(st, o.but())
    return None


def str_method(I, s, name, args, kwargs, st):
    if name == "join" and args:
        items = I.concrete_iter(args[0], st)
        if items is not None and all(is_const(i) for i in items):
            return const(s.join(str(i.args[0]) for i in items))
        return None
    if all(is_const(a) for a in args) and not kwargs:
        if name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "lstrip", "rstrip",
                    "removeprefix", "removesuffix", "title", "count", "find", "index", "isdigit"):
            try:
                return const(getattr(s, name)(*(a.args[0] for a in args)))
            except (TypeError, ValueError):
                return None
        if name == "split":
            return mk("tuple", *(const(x) for x in s.split(*(a.args[0] for a in args))))
    return None


# ---------------------------------------------------------------- function models

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f

    return deco


def _ext(name):
    return mk("ext", name)


def _arr(I, st, content, shape, dtype, fn, node):
    from .interp import Obj

    t = I.alloc(st, Obj("arr", content=content, meta={"shape": shape, "dtype": dtype, "fn": fn}))
    I.event("alloc", st, node, obj=t, fn=fn, shape=shape, dtype=dtype, content=content)
    return t


def _arg(args, kwargs, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kwargs.get(name, default)


def _mk_alloc(name):
    def h(I, st, args, kwargs, node):
        shape = I.val(_arg(args, kwargs, 0, "shape", NONE), st)
        k = 2 if name == "full" else 1
        dtype = _arg(args, kwargs, k, "dtype")
        if name == "full":
            v = I.val(_arg(args, kwargs, 1, "fill_value", NONE), st)
        elif name == "empty":
            v = mk("uninit", getattr(node, "lineno", 0))
        else:
            v = ZERO if name == "zeros" else const(1)
        return _arr(I, st, mk("bcval", v, shape), shape, dtype, name, node)

    return h


def _mk_like(name):
    def h(I, st, args, kwargs, node):
        x = I.val(args[0], st) if args else NONE
        shape = I.val(kwargs["shape"], st) if "shape" in kwargs else I.attr_term(x, "shape")
        o = I.obj(args[0], st) if args else None
        if "shape" not in kwargs and o is not None and o.meta.get("shape") is not None:
            shape = o.meta["shape"]
        k = 2 if name == "full" else 1
        dtype = _arg(args, kwargs, k, "dtype")
        if dtype is None:
            dtype = mk("attr", x, "dtype")
        if name == "full":
            v = I.val(_arg(args, kwargs, 1, "fill_value", NONE), st)
        elif name == "empty":
            v = mk("uninit", getattr(node, "lineno", 0))
        else:
            v = ZERO if name == "zeros" else const(1)
        return _arr(I, st, mk("bcval", v, shape), shape, dtype, name + "_like", node)

    return h


for _n in ("zeros", "ones", "empty", "full"):
    MODELS["numpy." + _n] = _mk_alloc(_n)
    MODELS["numpy." + _n + "_like"] = _mk_like(_n)


def _int_dtype(d):
    if d is None or d is NONE:
        return False
    if d.op == "ext":
        s = d.args[0].split(".")[-1]
        return s.startswith(("int", "uint", "bool"))
    if is_const(d) and isinstance(d.args[0], str):
        return d.args[0].startswith(("int", "uint", "i", "u", "b", "<i", ">i"))
    return False


@model("numpy.array")
def m_array(I, st, args, kwargs, node):
    x = args[0]
    dtype = _arg(args, kwargs, 1, "dtype")
    c = I.val(x, st)
    if _int_dtype(dtype):
        c = mk("call", _ext("numpy.astype"), (c, dtype), ())
    if kwargs.get("copy") is FALSE:
        return mk("call", _ext("numpy.asarray"), (c,), ())
    return _arr(I, st, c, I.attr_term(c, "shape"), dtype, "array", node)


@model("numpy.isscalar")
def m_isscalar(I, st, args, kwargs, node):
    x = args[0]
    o = I.obj(x, st)
    if o is not None:
        return FALSE if o.kind in ("list", "dict", "inst") else None
    if x.op in ("tuple", "list"):
        return FALSE
    if x.op == "param" and "scalar" in x.args[1:]:
        return TRUE
    return None


@model("numpy.copy", "copy.copy", "copy.deepcopy")
def m_copy(I, st, args, kwargs, node):
    o = I.obj(args[0], st)
    if o is not None and o.kind != "arr":
        return I.alloc(st, o.but())
    c = I.val(args[0], st)
    shape = o.meta.get("shape") if o is not None else I.attr_term(c, "shape")
    return _arr(I, st, c, shape, mk("attr", c, "dtype"), "copy", node)


@model("numpy.astype")
def m_astype(I, st, args, kwargs, node):
    c = I.val(args[0], st)
    dtype = _arg(args, kwargs, 1, "dtype", NONE)
    dtype = I.val(dtype, st)
    if kwargs.get("copy") is FALSE:
        return mk("call", _ext("numpy.asarray"), (c,), (("dtype", dtype),))
    o = I.obj(args[0], st)
    shape = o.meta.get("shape") if o is not None and o.kind == "arr" else I.attr_term(c, "shape")
    t = mk("call", _ext("numpy.astype"), (c, dtype), ())
    return _arr(I, st, t, shape, dtype, "astype", node)


@model("numpy.asarray")
def m_asarray(I, st, args, kwargs, node):
    o = I.obj(args[0], st)
    if o is not None and o.kind == "arr" and not kwargs and len(args) == 1:
        return args[0]
    if o is not None and o.kind == "list":
        return m_array(I, st, args, kwargs, node)
    return None


@model("numpy.atleast_1d")
def m_atleast(I, st, args, kwargs, node):
    if len(args) > 1:
        return mk("tuple", *(mk("call", _ext("numpy.atleast_1d"), (I.val(a, st),), ()) for a in args))
    return None


@model("numpy.logical_not", "operator.not_")
def m_not(I, st, args, kwargs, node):
    from .interp import not_

    return not_(I.val(args[0], st)) if not kwargs else None


@model("numpy.logical_or", "numpy.bitwise_or")
def m_or(I, st, args, kwargs, node):
    from .interp import or_

    return or_(I.val(args[0], st), I.val(args[1], st)) if not kwargs else None


@model("numpy.logical_and", "numpy.bitwise_and")
def m_and(I, st, args, kwargs, node):
    from .interp import and_

    return and_(I.val(args[0], st), I.val(args[1], st)) if not kwargs else None


def _cmp_model(op):
    def h(I, st, args, kwargs, node):
        return I.compare(op, args[0], args[1], st) if not kwargs else None

    return h


for _n, _o in (
    ("less", "<"),
    ("less_equal", "<="),
    ("greater", ">"),
    ("greater_equal", ">="),
    ("equal", "=="),
    ("not_equal", "!="),
):
    MODELS["numpy." + _n] = _cmp_model(_o)


def _bin_model(op):
    def h(I, st, args, kwargs, node):
        return I.binop(op, args[0], args[1], st, node) if not kwargs else None

    return h


for _n, _o in (
    ("add", "+"),
    ("subtract", "-"),
    ("multiply", "*"),
    ("divide", "/"),
    ("true_divide", "/"),
    ("power", "**"),
    ("float_power", "**"),
    ("floor_divide", "//"),
    ("mod", "%"),
    ("remainder", "%"),
    ("matmul", "@"),
):
    MODELS["numpy." + _n] = _bin_model(_o)


@model("numpy.negative")
def m_neg(I, st, args, kwargs, node):
    return mk("neg", I.val(args[0], st)) if not kwargs else None


@model("numpy.square")
def m_square(I, st, args, kwargs, node):
    return mk("**", I.val(args[0], st), const(2)) if not kwargs else None


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("floordiv", "//"),
               ("mod", "%"), ("matmul", "@")):
    MODELS["operator." + _n] = _bin_model(_o)
for _n, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    MODELS["operator." + _n] = _cmp_model(_o)
MODELS["operator.or_"] = MODELS["numpy.logical_or"]
MODELS["operator.and_"] = MODELS["numpy.logical_and"]
MODELS["operator.neg"] = MODELS["numpy.negative"]


def _call1(name, *args):
    return mk("call", _ext(name), args, ())


def _fold(I, st, items, f):
    acc = items[0]
    for x in items[1:]:
        acc = f(acc, x)
    return acc


def _reduce_model(name):
    """ufunc.reduce over a sequence whose items are known."""

    def h(I, st, args, kwargs, node):
        if set(kwargs) - {"axis"} or len(args) > 2:
            return None
        axis = _arg(args, kwargs, 1, "axis", ZERO)
        items = I.seq_items(args[0], st)
        if axis is not ZERO or not items:
            return None
        f = MODELS.get("numpy." + name)
        return _fold(I, st, list(items), lambda a, b: f(I, st, [a, b], {}, node) if f else _call1(
            "numpy." + name, I.val(a, st), I.val(b, st)))

    return h


for _n in ("logical_or", "logical_and", "maximum", "minimum", "add", "multiply", "bitwise_or", "bitwise_and"):
    MODELS[f"numpy.{_n}.reduce"] = _reduce_model(_n)


def _axis0_model(ufunc):
    """A reduction along the first axis of a sequence of arrays."""
    reduce = _reduce_model(ufunc)

    def h(I, st, args, kwargs, node):
        axis = _arg(args, kwargs, 1, "axis")
        if axis is not ZERO or set(kwargs) - {"axis"}:
            return None
        return reduce(I, st, [args[0]], {}, node)

    return h


for _n, _u in (("any", "logical_or"), ("all", "logical_and"), ("sum", "add"), ("max", "maximum"),
               ("min", "minimum")):
    MODELS["numpy." + _n] = _axis0_model(_u)


@model("functools.reduce")
def m_freduce(I, st, args, kwargs, node):
    items = I.concrete_iter(args[1], st) if len(args) > 1 else None
    if items is None or kwargs:
        return None
    items = list(args[2:]) + list(items)
    if not items:
        return None
    return _fold(I, st, items, lambda a, b: I.call(args[0], [a, b], {}, st, node))


@model("numpy.diff")
def m_diff(I, st, args, kwargs, node):
    if len(args) != 1 or kwargs:
        return None
    x = I.val(args[0], st)
    one, last = const(1), const(-1)
    return mk("-", I.item_term(x, mk("slice", one, NONE, NONE)), I.item_term(x, mk("slice", NONE, last, NONE)))


@model("numpy.vectorize")
def m_vectorize(I, st, args, kwargs, node):
    return args[0] if len(args) == 1 and not kwargs else None


@model("numpy.fromiter")
def m_fromiter(I, st, args, kwargs, node):
    return I.call(_ext("builtins.list"), [args[0]], {}, st, node)


@model("numpy.outer")
def m_outer(I, st, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return None
    a, b = (I.val(x, st) for x in args)
    full = mk("slice", NONE, NONE, NONE)
    return mk("*", mk("item", a, mk("tuple", full, NONE)), mk("item", b, mk("tuple", NONE, full)))


@model("numpy.ptp")
def m_ptp(I, st, args, kwargs, node):
    if len(args) != 1 or kwargs:
        return None
    x = I.val(args[0], st)
    return mk("-", _call1("numpy.max", x), _call1("numpy.min", x))


@model("numpy.count_nonzero")
def m_count(I, st, args, kwargs, node):
    if len(args) != 1 or kwargs:
        return None
    return _call1("numpy.sum", mk("!=", I.val(args[0], st), ZERO))


@model("numpy.compress")
def m_compress(I, st, args, kwargs, node):
    return I.getitem(args[1], args[0], st, node) if len(args) == 2 and not kwargs else None


@model("numpy.take")
def m_take(I, st, args, kwargs, node):
    return I.getitem(args[0], args[1], st, node) if len(args) == 2 and not kwargs else None


for _n in ("ndim", "shape", "size"):
    MODELS["numpy." + _n] = lambda I, st, args, kwargs, node, n=_n: (
        I.attr_term(mk("call", _ext("numpy.asarray"), (I.val(args[0], st),), ()) if n == "ndim" else
                    I.val(args[0], st), n) if len(args) == 1 and not kwargs else None)


@model("numpy.select")
def m_select(I, st, args, kwargs, node):
    conds, vals = (I.seq_items(a, st) for a in args[:2]) if len(args) >= 2 else (None, None)
    if conds is None or vals is None or len(conds) != len(vals) or set(kwargs) - {"default"}:
        return None
    acc = I.val(_arg(args, kwargs, 2, "default", ZERO), st)
    for c, v in reversed(list(zip(conds, vals))):
        acc = mk("call", _ext("numpy.where"), (I.val(c, st), I.val(v, st), acc), ())
    return acc


@model("numpy.append")
def m_append(I, st, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return None
    return _call1("numpy.concatenate", mk("tuple", *(_call1("numpy.ravel", I.val(x, st)) for x in args)))


@model("numpy.column_stack")
def m_colstack(I, st, args, kwargs, node):
    items = I.seq_items(args[0], st) if len(args) == 1 and not kwargs else None
    if items is None:
        return None
    return mk("attr", _call1("numpy.vstack", mk("tuple", *(I.val(x, st) for x in items))), "T")


@model("numpy.stack")
def m_stack(I, st, args, kwargs, node):
    axis = _arg(args, kwargs, 1, "axis")
    items = I.seq_items(args[0], st) if args else None
    if items is None or axis is None or set(kwargs) - {"axis"}:
        return None
    rows = mk("tuple", *(I.val(x, st) for x in items))
    if axis is ZERO:
        return _call1("numpy.stack", rows)
    if is_const(axis) and axis.args[0] in (1, -1) and all(_flat_array(x) for x in rows.args):
        return mk("attr", _call1("numpy.stack", rows), "T")
    return None


def _flat_array(t):
    """The term is known to be one-dimensional."""
    if t.op == "call" and callee_name(t.args[0]) in ("numpy.ravel", "numpy.flatten"):
        return True
    return t.op == "item" and t.args[1].op == "tuple" and sum(x.op == "slice" for x in t.args[1].args) == 1


@model("numpy.average")
def m_average(I, st, args, kwargs, node):
    return _call1("numpy.mean", I.val(args[0], st)) if len(args) == 1 and not kwargs else None


@model("numpy.polyval")
def m_polyval(I, st, args, kwargs, node):
    cs = I.seq_items(args[0], st) if len(args) == 2 else None
    if not cs:
        return None
    x = I.val(args[1], st)
    acc = I.val(cs[0], st)
    for c in cs[1:]:
        acc = mk("+", mk("*", acc, x), I.val(c, st))
    return acc


@model("numpy.nan_to_num")
def m_nan_to_num(I, st, args, kwargs, node):
    if len(args) != 1 or set(kwargs) - {"nan"}:
        return None
    x = I.val(args[0], st)
    return mk("call", _ext("numpy.where"), (_call1("numpy.isnan", x), I.val(kwargs.get("nan", ZERO), st), x), ())


@model("numpy.broadcast_arrays")
def m_bcast(I, st, args, kwargs, node):
    if any(a.op == "starred" for a in args):
        return None
    vals = tuple(I.val(a, st) for a in args)
    return mk("tuple", *(mk("bcast", v, vals) for v in vals))


@model("numpy.broadcast_to")
def m_bcast_to(I, st, args, kwargs, node):
    if len(args) != 2 or kwargs:
        return None
    x, shape = I.val(args[0], st), I.val(args[1], st)
    if shape.op == "attr" and shape.args[1] == "shape":
        c = shape.args[0]
        if c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0] == "numpy.broadcast" and not c.args[2]:
            vals = c.args[1]
            return mk("bcast", x, vals if x in vals else (*vals, x))
    return None


@model("numpy.meshgrid")
def m_mesh(I, st, args, kwargs, node):
    if any(a.op == "starred" for a in args):
        return None
    c = mk(
        "call",
        _ext("numpy.meshgrid"),
        tuple(I.val(a, st) for a in args),
        tuple((k, I.val(v, st)) for k, v in sorted(kwargs.items())),
    )
    return mk("tuple", *(mk("item", c, const(k)) for k in range(len(args))))


@model("numpy.split")
def m_split(I, st, args, kwargs, node):
    if len(args) == 2 and is_const(args[1]) and isinstance(args[1].args[0], int):
        c = mk("call", _ext("numpy.split"), (I.val(args[0], st), args[1]), ())
        return mk("tuple", *(mk("item", c, const(k)) for k in range(args[1].args[0])))
    return None


@model("verde.base.n_1d_arrays")
def m_n1d(I, st, args, kwargs, node):
    n = args[1] if len(args) > 1 else kwargs.get("n")
    if n is None or not is_const(n):
        return None
    out = []
    for k in range(n.args[0]):
        x = I.val(I.getitem(args[0], const(k), st, node, quiet=True), st)
        if not st.alive:
            return I.opaque("dead")
        out.append(mk("call", _ext("numpy.ravel"), (mk("call", _ext("numpy.atleast_1d"), (x,), ()),), ()))
    return mk("tuple", *out)


@model("verde.base.check_fit_input")
def m_check_fit(I, st, args, kwargs, node):
    names = ("coordinates", "data", "weights", "unpack")
    vals = [_arg(args, kwargs, k, n) for k, n in enumerate(names)]

    def arr(x):
        return mk("call", _ext("numpy.asarray"), (I.val(x, st),), ())

    coords = I.seq_items(vals[0], st)
    c = mk("tuple", *(arr(x) for x in coords)) if coords is not None else vals[0]
    d_items = I.seq_items(vals[1], st)
    unpack = vals[3] is None or vals[3] is not FALSE
    if d_items is not None:
        d = mk("tuple", *(arr(x) for x in d_items))
        if len(d_items) == 1 and unpack:
            d = d.args[0]
    else:
        d = arr(vals[1])
        if not unpack:
            d = mk("tuple", d)
    w = vals[2]
    if w is None or w is NONE:
        w = NONE if d.op != "tuple" else mk("tuple", *([NONE] * len(d.args)))
    else:
        def rav(x):
            if x is NONE:
                return NONE
            if x.op == "ite":
                from .interp import ite

                return ite(x.args[0], rav(x.args[1]), rav(x.args[2]))
            return mk("call", _ext("numpy.ravel"), (arr(x),), ())

        wi = I.seq_items(w, st)
        w = mk("tuple", *(rav(x) for x in wi)) if wi is not None else rav(w)
    return mk("tuple", c, d, w)


@model("builtins.len")
def m_len(I, st, args, kwargs, node):
    x = args[0]
    items = I.seq_items(x, st)
    if items is not None:
        return const(len(items))
    if is_const(x) and isinstance(x.args[0], str):
        return const(len(x.args[0]))
    o = I.obj(x, st)
    if o is not None and o.kind == "dict":
        it = I.concrete_iter(x, st)
        if it is not None:
            return const(len(it))
    if x.op == "ite":
        return I.split_value(x, st, lambda y, s: m_len(I, s, [y], {}, node))
    return I.len_term(I.val(x, st))


@model("builtins.range", "numba.prange", "builtins.enumerate")
def m_lazyiter(I, st, args, kwargs, node):
    return None


def _m_range(name):
    def h(I, st, args, kwargs, node):
        return mk("call", _ext(name), tuple(I.val(a, st) for a in args), ())

    return h


MODELS["builtins.range"] = _m_range("builtins.range")
MODELS["numba.prange"] = _m_range("numba.prange")
MODELS["numba.pndindex"] = None
MODELS.pop("numba.pndindex")


@model("builtins.enumerate")
def m_enumerate(I, st, args, kwargs, node):
    items = I.concrete_iter(args[0], st)
    start = kwargs.get("start", args[1] if len(args) > 1 else ZERO)
    if items is not None and is_const(start):
        return mk("tuple", *(mk("tuple", const(k + start.args[0]), x) for k, x in enumerate(items)))
    return mk("call", _ext("builtins.enumerate"), (I.val(args[0], st), start), ())


def columns(I, st, args, node):
    """Known items of what is iterated over together: the length of the shortest known one is that of all."""
    cols = [I.concrete_iter(a, st) for a in args]
    known = [len(c) for c in cols if c is not None]
    if known and len(known) < len(cols) and 0 < min(known) <= 8:
        for k, (a, c) in enumerate(zip(args, cols)):
            if c is None and I.obj(I.force(a), st) is None and I.force(a).op in ("call", "item", "param", "attr", "ite"):
                cols[k] = [I.getitem(a, const(j), st, node) for j in range(min(known))]
    return cols


@model("builtins.zip")
def m_zip(I, st, args, kwargs, node):
    cols = columns(I, st, args, node)
    if cols and all(c is not None for c in cols):
        return mk("tuple", *(mk("tuple", *row) for row in zip(*cols)))
    return mk("call", _ext("builtins.zip"), tuple(I.val(a, st) for a in args), ())


@model("itertools.product")
def m_product(I, st, args, kwargs, node):
    import itertools

    cols = [I.concrete_iter(a, st) for a in args]
    rep = kwargs.get("repeat", const(1))
    if cols and all(c is not None for c in cols) and is_const(rep):
        return mk("tuple", *(mk("tuple", *row) for row in itertools.product(*cols, repeat=rep.args[0])))
    return None


@model("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement")
def m_comb(I, st, args, kwargs, node):
    return None


@model("itertools.chain")
def m_chain(I, st, args, kwargs, node):
    cols = [I.concrete_iter(a, st) for a in args]
    if all(c is not None for c in cols):
        return mk("tuple", *(x for c in cols for x in c))
    return None


@model("builtins.tuple", "builtins.list", "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.iter")
def m_tuple(I, st, args, kwargs, node):
    return None


def _mk_seq(kind):
    def h(I, st, args, kwargs, node):
        from .interp import Obj

        if not args:
            return mk("tuple") if kind == "tuple" else I.alloc(st, Obj("list", items=()))
        items = I.concrete_iter(args[0], st)
        if items is not None:
            if kind == "tuple":
                return mk("tuple", *items)
            return I.alloc(st, Obj("list", items=tuple(items)))
        v = I.val(args[0], st)
        if v.op == "comp":
            v = mk("comp", kind, *v.args[1:])
        elif v.op not in ("chain", "list"):
            v = mk("call", _ext("builtins.tuple"), (v,), ())
        if kind == "tuple":
            return v
        return I.alloc(st, Obj("list", content=v))

    return h


MODELS["builtins.tuple"] = _mk_seq("tuple")
MODELS["builtins.list"] = _mk_seq("list")
MODELS["builtins.iter"] = _mk_seq("tuple")
for _n in ("builtins.sorted", "builtins.set", "builtins.frozenset"):
    MODELS.pop(_n, None)


@model("builtins.set", "builtins.frozenset")
def m_set(I, st, args, kwargs, node):
    if not args:
        return mk("tuple")
    items = I.concrete_iter(args[0], st)
    return mk("tuple", *items) if items is not None else None


@model("builtins.reversed")
def m_reversed(I, st, args, kwargs, node):
    items = I.concrete_iter(args[0], st)
    if items is not None:
        return mk("tuple", *reversed(items))
    return None


@model("builtins.map")
def m_map(I, st, args, kwargs, node):
    cols = columns(I, st, args[1:], node)
    if all(c is not None for c in cols):
        return mk("tuple", *(I.call(args[0], list(row), {}, st, node) for row in zip(*cols)))
    lid, elem = I.new_loop(args[1], st, node, False)
    loops = st.loops
    st.loops = loops + (lid,)
    v = I.call(args[0], [elem], {}, st, node)
    st.loops = loops
    return mk("comp", "gen", (mk("idx", lid),), TRUE, I.val(v, st))


@model("builtins.dict")
def m_dict(I, st, args, kwargs, node):
    from .interp import Obj

    fields, content = {}, None
    if args:
        o = I.obj(args[0], st)
        if o is not None and o.kind == "dict":
            fields, content = dict(o.fields), o.content
        else:
            items = I.concrete_iter(args[0], st)
            if items is not None and all(I.seq_items(x, st) is not None for x in items):
                for x in items:
                    k, v = I.seq_items(x, st)
                    fields[I.val(k, st)] = v
            else:
                content = I.val(args[0], st)
    for k, v in kwargs.items():
        if k == "**":
            content = v
        else:
            fields[const(k)] = v
    return I.alloc(st, Obj("dict", fields=fields, content=content))


@model("builtins.isinstance")
def m_isinstance(I, st, args, kwargs, node):
    x, c = args[0], args[1]
    classes = list(c.args) if c.op == "tuple" else [c]
    py = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool,
          "builtins.tuple": tuple, "builtins.list": list, "builtins.dict": dict,
          "numbers.Real": (int, float), "numbers.Number": (int, float, complex), "numbers.Integral": int}
    names = [k.args[0] if k.op == "ext" else None for k in classes]
    if x.op == "const":
        if x.args[0] is None:
            return FALSE
        if all(n in py for n in names):
            return const(any(isinstance(x.args[0], py[n]) for n in names))
        if isinstance(x.args[0], (int, float, str, bool)):
            hit = [n for n in names if n in py and isinstance(x.args[0], py[n])]
            if hit:
                return TRUE
            if all(n in py or n and n.split(".")[0] in ("numpy", "xarray", "collections", "pathlib", "datetime") for n in names):
                if isinstance(x.args[0], str) and any("Iterable" in n or "Sequence" in n for n in names):
                    return TRUE
                return FALSE
    o = I.obj(x, st)
    if o is not None and o.kind == "inst":
        for k in classes:
            if k.op == "cls":
                if k.args[0] in I.mro(o.cls):
                    return TRUE
            elif k.op == "ext" and k.args[0] in I.ext_bases(o.cls):
                return TRUE
        if all(k.op == "cls" for k in classes):
            return FALSE
        if all(n in py or (n or "").split(".")[-1] in ("Iterable", "Sequence") for n in names):
            if all((n or "").split(".")[-1] not in ("Iterable", "Sequence") for n in names):
                return FALSE
            if I.class_lookup(o.cls, "__iter__")[0] is None and not I.ext_bases(o.cls):
                return FALSE
    if x.op == "tuple" or (o is not None and o.kind == "list"):
        kind = "builtins.tuple" if x.op == "tuple" else "builtins.list"
        if kind in names or any((n or "").split(".")[-1] in ("Iterable", "Sequence") for n in names):
            return TRUE
        if all(n is not None for n in names):
            return FALSE
    if x.op == "param" and "scalar" in x.args[1:] and names and all(
            (n or "").split(".")[-1] in ("Iterable", "Sequence", "tuple", "list", "ndarray", "str", "dict") for n in names):
        return FALSE
    if x.op == "ite":
        return I.split_value(x, st, lambda y, s: m_isinstance(I, s, [y, c], {}, node))
    return mk("isinstance", I.val(x, st), mk("tuple", *classes))


@model("builtins.callable")
def m_callable(I, st, args, kwargs, node):
    x = args[0]
    if x.op in ("func", "cls", "bound", "ext") or x.op == "param" and "callable" in x.args[1:]:
        return TRUE
    if x.op == "param" or x.op in ("const", "tuple", "call", "item", "attr") or I.obj(x, st) is not None:
        return FALSE
    return None


@model("builtins.any", "builtins.all")
def m_any(I, st, args, kwargs, node):
    return None


def _mk_quant(is_any):
    def h(I, st, args, kwargs, node):
        from .interp import and_, not_, or_

        items = I.concrete_iter(args[0], st)
        if items is not None:
            cs = [I.truth(x, st) for x in items]
            return or_(*cs) if is_any else and_(*cs)
        v = I.val(args[0], st)
        if v.op == "comp":
            _, loops, c, e = v.args
            t = and_(c, e) if is_any else or_(not_(c), e)
            for l in reversed(loops):
                t = mk("exists" if is_any else "forall", l, t)
            return t
        return None

    return h


MODELS["builtins.any"] = _mk_quant(True)
MODELS["builtins.all"] = _mk_quant(False)


@model("numpy.split")
def m_split(I, st, args, kwargs, node):
    """An array split in equal parts along its first axis."""
    if len(args) != 2 or kwargs or not is_const(args[1]) or not isinstance(args[1].args[0], int):
        return None
    x, n = I.val(args[0], st), args[1].args[0]
    size = mk("item", mk("attr", x, "shape"), const(0))
    ends = [I.binop("//", I.binop("*", size, const(k), st, node), const(n), st, node) for k in range(1, n)]
    ends = [NONE, *ends, NONE]
    return mk("list", *(mk("item", x, mk("slice", a, b, NONE)) for a, b in zip(ends, ends[1:])))


@model("builtins.sum", "math.fsum")
def m_sum(I, st, args, kwargs, node):
    from .interp import fold_bin, ite

    start = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
    items = I.concrete_iter(args[0], st)
    if items is not None:
        acc = start
        for x in items:
            acc = I.binop("+", acc, x, st, node)
        return acc
    v = I.val(args[0], st)
    if v.op == "comp":
        _, loops, c, e = v.args
        t = ite(c, e, ZERO)
        for l in reversed(loops):
            t = mk("sum", l, t)
        return t if start is ZERO else fold_bin("+", I.val(start, st), t)
    return None


@model("math.prod", "numpy.prod")
def m_prod(I, st, args, kwargs, node):
    from .interp import fold_bin

    if kwargs or len(args) != 1:
        return None
    items = I.concrete_iter(args[0], st)
    if items is not None:
        acc = const(1)
        for x in items:
            acc = fold_bin("*", acc, I.val(x, st))
        return acc
    v = I.val(args[0], st)
    if v.op == "attr" and v.args[1] == "shape":
        return I.attr_term(v.args[0], "size")
    return mk("call", _ext("math.prod"), (v,), ())


def _extreme_model(which):
    """max or min with a key: the first item whose key is extreme."""
    def h(I, st, args, kwargs, node):
        if len(args) != 1 or set(kwargs) != {"key"}:
            return None
        items = I.seq_items(args[0], st)
        if not items:
            return None
        keys = mk("list", *(I.val(I.call(kwargs["key"], [x], {}, st, node), st) for x in items))
        return I.getitem(args[0], _call1("numpy.arg" + which, keys), st, node)

    return h


for _n in ("max", "min"):
    MODELS["builtins." + _n] = _extreme_model(_n)


@model("builtins.getattr")
def m_getattr(I, st, args, kwargs, node):
    if len(args) >= 2 and is_const(args[1]) and isinstance(args[1].args[0], str):
        o = I.obj(args[0], st)
        if len(args) == 3 and o is not None and o.kind == "inst":
            if args[1].args[0] not in o.fields and I.class_lookup(o.cls, args[1].args[0])[0] is None:
                return args[2]
        return I.getattr(args[0], args[1].args[0], st, node)
    return None


@model("builtins.setattr")
def m_setattr(I, st, args, kwargs, node):
    if is_const(args[1]):
        I.setattr(args[0], args[1].args[0], args[2], st, node)
        return NONE
    o = I.obj(args[0], st)
    I.event("setattr", st, node, target=args[0], name="<dynamic>", value=args[2])
    return NONE


@model("builtins.hasattr")
def m_hasattr(I, st, args, kwargs, node):
    o = I.obj(args[0], st)
    if o is not None and o.kind == "inst" and is_const(args[1]):
        n = args[1].args[0]
        if n in o.fields:
            v = o.fields[n]
            return I._present(v)
        if I.class_lookup(o.cls, n)[0] is not None:
            return TRUE
        if not I.ext_bases(o.cls):
            return FALSE
    return None


@model("builtins.type")
def m_type(I, st, args, kwargs, node):
    o = I.obj(args[0], st) if args else None
    if o is not None and o.kind == "inst":
        return mk("cls", o.cls)
    return None


@model("sklearn.base.clone")
def m_clone(I, st, args, kwargs, node):
    o = I.obj(args[0], st)
    if o is None or o.kind != "inst":
        return None
    init, _ = I.class_lookup(o.cls, "__init__")
    if init is None:
        return I.alloc(st, o.but(fields={}))
    names = init.args[0].param_names()[1:]
    kw = {}
    for n in names:
        if n in o.fields:
            kw[n] = o.fields[n]
    return I.construct(o.cls, [], kw, st, node)


@model("functools.partial")
def m_partial(I, st, args, kwargs, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(mk("kv", const(k), v) for k, v in sorted(kwargs.items())))


@model("functools.wraps")
def m_wraps(I, st, args, kwargs, node):
    return None


@model("numba.jit", "numba.njit", "numba.vectorize", "numba.guvectorize")
def m_jit(I, st, args, kwargs, node):
    return None


def _mk_jit(name):
    def h(I, st, args, kwargs, node):
        flags = {k: v for k, v in kwargs.items()}
        if name == "njit":
            flags["nopython"] = TRUE
        fl = tuple((k, v) for k, v in flags.items())
        if args and args[0].op == "func":
            return mk("func", args[0].args[0].with_jit(fl))
        return mk("jitmaker", fl)

    return h


for _n in ("jit", "njit", "vectorize", "guvectorize"):
    MODELS["numba." + _n] = _mk_jit(_n)


@model("xarray.register_dataset_accessor", "xarray.register_dataarray_accessor")
def m_accessor(I, st, args, kwargs, node):
    if args and is_const(args[0]):
        return mk("accessor_maker", args[0].args[0])
    return None


@model("warnings.warn")
def m_warn(I, st, args, kwargs, node):
    cat = args[1] if len(args) > 1 else kwargs.get("category")
    I.event("warn", st, node, msg=I.val(args[0], st) if args else None, category=cat)
    return NONE


@model("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal")
def m_npmut(I, st, args, kwargs, node):
    new = I.opaque("npmut", *(I.val(a, st) for a in args))
    if node is not None and getattr(node, "func", None) is not None and getattr(node.func, "attr", "") == "copyto" and len(args) == 2 and not kwargs:
        new = I.val(args[1], st)
    I.mutate_whole(args[0], new, st, node, "numpy mutator")
    return NONE


@model("builtins.next")
def m_next(I, st, args, kwargs, node):
    return None


@model("contextlib.suppress")
def m_suppress(I, st, args, kwargs, node):
    I.event("suppress", st, node, types=tuple(args))
    return None


# Parameters of external functions: those before the bar are normalised to positional arguments, those after
# it to keywords; a keyword given its documented default is dropped.
_SIGNATURES = {
    "xrft.pad": "da | pad_width mode stat_length constant_values end_values reflect_type",
    "xrft.unpad": "da pad_width |",
    "xrft.fft": "da | spacing_tol dim real_dim shift detrend window true_phase true_amplitude",
    "xrft.ifft": "daft | spacing_tol dim real_dim shift true_phase true_amplitude lag",
    "verde.base.least_squares": "jacobian data weights damping |",
    "verde.base.n_1d_arrays": "arrays n |",
    "verde.base.check_fit_input": "coordinates data weights |",
    "verde.make_xarray_grid": "coordinates | data data_names dims extra_coords_names",
    "verde.BlockReduce": "| reduction spacing region adjust center_coordinates shape drop_coords",
    "bordado.get_region": "coordinates |",
    "bordado.grid_coordinates": "region | shape spacing adjust pixel_register non_dimensional_coords",
    "bordado.neighbor_distance_statistics": "coordinates statistic | k",
    "bordado.rolling_window": "coordinates window_size | overlap region adjust",
    "sklearn.utils.validation.check_is_fitted": "estimator attributes |",
    "sklearn.base.clone": "estimator |",
    "pyvista.UnstructuredGrid": "cells points |",
    "scipy.spatial.transform.Rotation.from_euler": "seq angles | degrees=False",
    "scipy.optimize.minimize_scalar": "fun | bracket bounds args method tol options",
    "xarray.DataArray": "data | coords dims name attrs indexes",
    "xarray.Dataset": "| data_vars coords attrs",
    "pooch.retrieve": "| url known_hash fname path processor downloader progressbar",
    "datetime.datetime": "| year month day hour minute second microsecond tzinfo",
    "warnings.warn": "message category | stacklevel source",
    "numpy.full": "shape fill_value dtype |",
    "numpy.zeros": "shape dtype |",
    "numpy.ones": "shape dtype |",
    "numpy.empty": "shape dtype |",
    "numpy.linspace": "start stop num | endpoint=True retstep=False dtype=None axis=0",
    "numpy.loadtxt": "fname | dtype comments delimiter converters skiprows usecols unpack=False ndmin",
    "numpy.split": "ary indices_or_sections axis |",
    "numpy.isclose": "a b | rtol atol equal_nan=False",
    "numpy.allclose": "a b | rtol atol equal_nan=False",
    "numpy.where": "condition x y |",
    "numpy.concatenate": "arrays | axis=0",
    "numpy.clip": "a a_min a_max | out",
    "numpy.full_like": "a fill_value | dtype=None",
    "numpy.arctan2": "x1 x2 |",
    "numpy.diag": "v | k=0",
    "numpy.meshgrid": "",
}
_METHOD_SIGNATURES = {
    "differentiate": "coord | edge_order=1 datetime_unit=None",
    "drop_vars": "names | errors='raise'",
    "interp": "coords |",
}


def _signature(text):
    before, _, after = text.partition("|")
    defaults = {}
    rest = []
    for x in after.split():
        k, eq, d = x.partition("=")
        rest.append(k)
        if eq:
            defaults[k] = eval(d, {})  # literals of the table above  # noqa: S307
    return before.split(), rest, defaults


SIGNATURES = {k: _signature(v) for k, v in _SIGNATURES.items() if v}
METHOD_SIGNATURES = {k: _signature(v) for k, v in _METHOD_SIGNATURES.items()}


def normalise_call(sig, args, kwargs):
    """Arguments of a call in the form the table above fixes."""
    lead, rest, defaults = sig
    if any(getattr(a, "op", None) == "starred" for a in args) or "**" in kwargs or len(args) > len(lead) + len(rest):
        return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    names = lead + rest
    if any(n in kwargs for n in names[:len(args)]):
        return args, kwargs
    for n, a in zip(names[len(lead):], args[len(lead):]):
        kwargs[n] = a
    args = args[:len(lead)]
    for n in lead[len(args):]:
        if n not in kwargs:
            break
        args.append(kwargs.pop(n))
    for k, d in defaults.items():
        v = kwargs.get(k)
        if v is not None and v.op == "const" and type(v.args[0]) is type(d) and v.args[0] == d:
            del kwargs[k]
    return args, kwargs
