"""Global value numbering by random interpretation (Gulwani & Necula, POPL 2003/2004).

A value-graph term is given a *fingerprint*: its value when the unknowns of the program
(parameters, results of library calls, attributes) are hashed to random reals.  Arithmetic,
comparisons, gates and index operations keep their meaning; everything else is an
uninterpreted function of its arguments.  Two terms with the same fingerprints under many
independent hash functions are the same function of the unknowns with overwhelming
probability (Schwartz-Zippel), whatever the way the code spells it.  No code of the
analysed package or of any library is executed.
"""

import cmath
import datetime
import hashlib
import itertools
import math
import signal
import struct
import time

from .lib import callee_name
from .terms import FALSE, NONE, TRUE, T, const as _const, is_const, mk, walk

NAN = float("nan")
POOL_INT = (2, 3)
# compared as true or false
CONDITIONS = ("refusal of invalid input", "warning")


PHYSICAL = {
    "choclo.constants.GRAVITATIONAL_CONST": 6.6743e-11,
    "choclo.constants.VACUUM_MAGNETIC_PERMEABILITY": 1.25663706212e-06,
    "scipy.constants.mu_0": 1.25663706127e-06,
    "scipy.constants.G": 6.6743e-11,
    "scipy.constants.gravitational_constant": 6.6743e-11,
}

class Undecided(Exception):
    """The valuation could not give the term a number."""


class Dead(Undecided):
    """Invalid draw (domain error)."""


class NoneUsed(Undecided):
    """Arithmetic on None."""


def _h(*parts):
    m = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(m.digest(), "big")


def _u(*parts):
    """Deterministic uniform number in (0, 1)."""
    return (_h(*parts) % (1 << 53)) / (1 << 53)


_FREE = {}
_LOOPS = {}
_DEPS = {}
_OPEN = []


def loop_deps(i):
    """Symbols on which the iterations of loop i depend (bounds, carried values)."""
    lid = i.args[0]
    r = _DEPS.get(lid)
    if r is not None:
        return r
    _DEPS[lid] = frozenset()
    _OPEN.append(lid)
    info = _LOOPS.get(lid) or {}
    ts = [info.get(k) for k in ("lo", "hi", "iter", "cond", "elem")]
    for vv in (info.get("closed") or {"vars": {}})["vars"].values():
        ts.extend(vv)
    s = frozenset().union(*(free_syms(t) for t in ts if isinstance(t, T)))
    s = frozenset(x for x in s if x is not i and not (x.op == "mu" and x.args[0] == lid))
    _DEPS[lid] = s
    _OPEN.pop()
    # terms met while the dependencies were being computed saw an incomplete set
    if not _OPEN:
        for u in [u for u, (fs, open_) in _FREE.items() if open_]:
            del _FREE[u]
    return s


def free_syms(t):
    """Loop indices and loop-carried placeholders on which t depends."""
    r = _FREE.get(t.uid)
    if r is not None:
        return r[0]
    stack = [t]
    while stack:
        x = stack[-1]
        if x.uid in _FREE:
            stack.pop()
            continue
        kids = list(_kids(x))
        todo = [k for k in kids if k.uid not in _FREE]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset().union(*(_FREE[k.uid][0] for k in kids)) if kids else frozenset()
        if x.op in ("idx", "mu"):
            # an unbound placeholder takes its value at the current iteration
            s = frozenset([x]) if x.op == "idx" else frozenset([x, mk("idx", x.args[0])])
            _FREE[x.uid] = (s, True)
            s = s | loop_deps(mk("idx", x.args[0]))
        _FREE[x.uid] = (s, bool(_OPEN))
        stack.pop()
    return _FREE[t.uid][0]


def _kids(t):
    stack = list(t.args)
    while stack:
        a = stack.pop()
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            stack.extend(a)


def is_num(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool) or isinstance(v, bool)


ELEMENTWISE = {
    "+", "-", "*", "/", "//", "%", "**", "neg", "<", "<=", "==", "!=", "not", "and", "or",
    "&", "|", "^", "ite", "abs",
}
INVERSES = {"numpy.linalg.inv", "scipy.linalg.inv", "scipy.linalg.pinv", "numpy.linalg.pinv"}
DIAGONALS = {"scipy.sparse.diags", "scipy.sparse.diags_array"}
ARITHMETIC = {"+", "-", "*", "/", "//", "%", "**", "neg", "abs"}
UNARY = {
    "numpy.sqrt": lambda x: _sqrt(x),
    "math.sqrt": lambda x: _sqrt(x),
    "numpy.exp": lambda x: _exp(x),
    "math.exp": lambda x: _exp(x),
    "numpy.log": lambda x: _log(x),
    "math.log": lambda x: _log(x),
    "numpy.log1p": lambda x: _log(1 + x),
    "numpy.expm1": lambda x: _exp(x) - 1,
    "numpy.sin": lambda x: cmath.sin(x) if isinstance(x, complex) else math.sin(x),
    "math.sin": lambda x: math.sin(x),
    "numpy.cos": lambda x: cmath.cos(x) if isinstance(x, complex) else math.cos(x),
    "math.cos": lambda x: math.cos(x),
    "numpy.tan": lambda x: math.tan(x),
    "math.tan": lambda x: math.tan(x),
    "numpy.arcsin": lambda x: _dom(math.asin, x),
    "math.asin": lambda x: _dom(math.asin, x),
    "numpy.arccos": lambda x: _dom(math.acos, x),
    "math.acos": lambda x: _dom(math.acos, x),
    "numpy.arctan": lambda x: math.atan(x),
    "math.atan": lambda x: math.atan(x),
    "numpy.sinh": lambda x: math.sinh(x),
    "numpy.cosh": lambda x: math.cosh(x),
    "numpy.tanh": lambda x: math.tanh(x),
    "numpy.arcsinh": lambda x: math.asinh(x),
    "numpy.arctanh": lambda x: _dom(math.atanh, x),
    "numpy.arccosh": lambda x: _dom(math.acosh, x),
    "numpy.radians": lambda x: x * (math.pi / 180),
    "numpy.degrees": lambda x: x * (180 / math.pi),
    "numpy.abs": abs,
    "numpy.fabs": abs,
    "math.fabs": abs,
    "builtins.abs": abs,
    "numpy.sign": lambda x: (x > 0) - (x < 0),
    "numpy.floor": math.floor,
    "numpy.ceil": math.ceil,
    "math.floor": math.floor,
    "math.ceil": math.ceil,
    "numpy.trunc": math.trunc,
    "numpy.rint": round,
    "builtins.float": lambda x: x,
    "numpy.float64": lambda x: x,
    "numpy.float32": lambda x: x,
    "builtins.complex": lambda x: complex(x),
    "builtins.bool": bool,
    "numpy.real": lambda x: x.real,
    "numpy.imag": lambda x: x.imag,
    "numpy.conj": lambda x: x.conjugate(),
    "numpy.conjugate": lambda x: x.conjugate(),
    "numpy.reciprocal": lambda x: 1 / x,
    "numpy.cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
}
IDENTITY = {
    "numpy.ravel", "numpy.asarray", "numpy.array", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.reshape", "numpy.copy", "numpy.flatten", "numpy.squeeze",
    "builtins.tuple", "builtins.list", "numpy.float64", "builtins.iter",
    "numpy.expand_dims",
}
BINARY = {
    "numpy.arctan2": lambda a, b: math.atan2(a, b),
    "math.atan2": lambda a, b: math.atan2(a, b),
    "numpy.hypot": lambda a, b: math.hypot(a, b),
    "math.hypot": lambda a, b: math.hypot(a, b),
    "numpy.maximum": lambda a, b: max(a, b),
    "numpy.minimum": lambda a, b: min(a, b),
    "numpy.fmax": lambda a, b: max(a, b),
    "numpy.fmin": lambda a, b: min(a, b),
    "numpy.logical_xor": lambda a, b: bool(a) != bool(b),
    "numpy.copysign": lambda a, b: math.copysign(a, b),
    "math.pow": lambda a, b: _pow(a, b),
    "numpy.fmod": lambda a, b: math.fmod(a, b),
    "math.fmod": lambda a, b: math.fmod(a, b),
}


def _sqrt(x):
    if isinstance(x, complex):
        return cmath.sqrt(x)
    if x < 0:
        if x > -1e-9:
            return 0.0
        raise Dead("sqrt")
    return math.sqrt(x)


def _exp(x):
    if isinstance(x, complex):
        return cmath.exp(x)
    return math.exp(min(x, 600.0))


def _log(x):
    if isinstance(x, complex):
        return cmath.log(x)
    if x <= 0:
        raise Dead("log")
    return math.log(x)


def _dom(f, x):
    if isinstance(x, complex):
        raise Dead("complex")
    if x > 1:
        if x < 1 + 1e-9:
            return f(1.0)
        raise Dead("dom")
    if x < -1:
        if x > -1 - 1e-9:
            return f(-1.0)
        raise Dead("dom")
    return f(x)


def _pow(a, b):
    if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
        raise Undecided("pow")
    if a == 0 and not isinstance(b, complex) and b < 0:
        return math.nan if isinstance(a, complex) else math.inf
    if not isinstance(a, complex) and a < 0 and not float(b).is_integer():
        raise Dead("pow")
    if isinstance(b, complex):
        return cmath.exp(b * cmath.log(a))
    if abs(b) > 50:
        b = math.copysign(50, b) if not float(b).is_integer() else b
        if abs(b) > 400:
            raise Dead("pow")
    try:
        return a**b
    except (OverflowError, ZeroDivisionError):
        raise Dead("pow")


REL = 1e-9


def _near(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= REL * (abs(a) + abs(b))
    return abs(a - b) <= REL * (abs(a) + abs(b)) if a != b else True


def _lt(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        raise Dead("complex compare")
    return a < b and not _near(a, b)


def _le(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        raise Dead("complex compare")
    return a < b or _near(a, b)


def _eq(a, b):
    if isinstance(a, (bool, int, float, complex)) and isinstance(b, (bool, int, float, complex)):
        return _near(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    return a == b


def _newaxis(t):
    """A table made by giving an array a new axis, or an expression of one."""
    while True:
        if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
            return NONE in t.args[1].args and any(a.op == "slice" for a in t.args[1].args)
        if t.op == "neg":
            t = t.args[0]
        elif t.op in ("+", "-", "*", "/", "**"):
            return _newaxis(t.args[0]) or _newaxis(t.args[1])
        elif t.op == "call" and t.args[1] and callee_name(t.args[0]) in UNARY:
            t = t.args[1][0]
        else:
            return False


_WINDOWS = {}


def made_grid(t):
    """The dims of a call that makes a grid."""
    if t.op == "call" and callee_name(t.args[0]) == "verde.make_xarray_grid":
        return dict(t.args[2]).get("dims")
    return None


class Valuation:
    """One random interpretation of the unknowns."""

    def __init__(self, I, seed, consts=(), strings=None, fixed=None, dims=None, profile=None,
                 alias=None, positive=None, lengths=None, none=(), vars=None,
                 var_dims=None, grid_dims=None, kinds=None, watch=None, shift=None):
        self.I = I
        self.seed = seed
        # comparisons whose operands are recorded; factors and amounts that change unknowns
        self.watch = watch if watch is not None else {}
        self.shift = shift or {}
        self.consts = [c for c in consts]
        self.strings = strings or {}
        self.fixed = fixed or {}
        self.dims = {k: d(self) if callable(d) else d for k, d in (dims or {}).items()}
        self.kind = {}
        for k, options in (kinds or {}).items():
            self.kind[k] = name, classes, shape = options[_h(seed, "kind", k) % len(options)]
            if shape is not None:
                self.dims[k] = shape
            if name == "none":
                none = tuple(none) + (k,)
        self.profile = profile or {}
        self.alias = alias or {}
        self.lengths = lengths or {}
        self.none = none
        self.vars = vars or {}
        self.var_dims = var_dims or {}
        self.grid_dims = {k: d(self) if callable(d) else d for k, d in (grid_dims or {}).items()}
        self.positive = (_u(seed, "positive") < 0.6) if positive is None else positive
        self.pos = (int(_u(seed, "pos0") * 2), int(_u(seed, "pos1") * 2), int(_u(seed, "pos2") * 2))
        self.shared = [self._draw(("shared", k)) for k in range(3)]
        self.memo = {}
        self.bind = {}
        self.budget = 600_000
        self.touched_nan = False
        self.names = set()
        # functions whose values are drawn anew
        self.redrawn, self.draw = (), 0

    # draws ------------------------------------------------------------------

    def _draw(self, key):
        s = self.seed
        u = _u(s, "v", key)
        mag = (1.0, 1.0, 1.0, 30.0, 2000.0)[_h(s, "scale", key) % 5]
        v = (0.3 + 2.7 * u) * mag
        if not self.positive and _u(s, "sgn", key) < 0.4:
            v = -v
        return v

    def leaf(self, name, ix, scalar=False):
        """Value of an unknown at an index."""
        if ix is None:
            ix = (self.pos[0],)
        if scalar:
            ix = ()
        if name in self.fixed:
            f = self.fixed[name]
            return f(self, ix) if callable(f) else f
        if name in self.profile:
            return self.profile[name](self, ix)
        if name in self.strings:
            pool = self.strings[name]
            return pool[_h(self.seed, "str", name) % len(pool)]
        key = ("leaf", name, ix)
        u = _u(self.seed, "mode", key)
        if u < 0.10 and self.consts:
            return self.consts[_h(self.seed, "const", key) % len(self.consts)]
        if u < 0.2:
            return self.shared[_h(self.seed, "shared", key) % 3]
        return self._draw(key)

    def num(self, v, depth=0):
        """Compress any value into real numbers for hashing, continuously."""
        if isinstance(v, bool):
            return 0.77 if v else -0.41
        if isinstance(v, (int, float)):
            if v != v:
                return 5.4321
            if v in (math.inf, -math.inf):
                return 7.7 if v > 0 else -7.7
            return math.asinh(v)
        if isinstance(v, complex):
            return math.asinh(v.real) * 1.3 + math.asinh(v.imag) * 0.7311
        if isinstance(v, tuple):
            acc = 0.1 + 0.01 * len(v)
            for k, x in enumerate(v):
                acc = acc * 0.631 + (1.0 + 0.37 * math.sin(k + 1.0)) * math.sin(
                    1.7 * self.num(x, depth + 1) + k
                ) + 0.2 * self.num(x, depth + 1)
            return acc
        if isinstance(v, frozenset):
            return sum(math.sin(3 * self.num(x, depth + 1)) for x in v)
        return 4 * _u("token", type(v).__name__, repr(v)) - 2

    def H(self, name, *args):
        """Uninterpreted function: continuous in numbers, random in everything else."""
        if name not in self.names:
            self.names.add(name)
        s = ("again", self.seed, self.draw) if name in self.redrawn else self.seed
        a = b = c = 0.0
        for k, v in enumerate(args):
            x = self.num(v)
            if isinstance(x, complex):
                x = x.real
            a += (0.4 + _u(s, "wa", name, k)) * x
            b += (0.4 + _u(s, "wb", name, k)) * x * (1 if k % 2 else -1)
            c += (0.2 + _u(s, "wc", name, k)) * math.sin(x + k)
        p = 6.28 * _u(s, "ph", name, len(args))
        v = 1.1 * math.sin(a + p) + 0.9 * math.cos(1.31 * b + c + 2 * p) + 0.25 * math.tanh(a) + 0.1 * c
        if self.positive:
            return abs(v) + 0.2
        return v

    def Hbool(self, name, *args):
        return math.sin(17.3 * self.H("bool:" + str(name), *args)) > 0.15

    # evaluation ---------------------------------------------------------------

    def ev(self, t, ix=None):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided("budget")
        op = t.op
        if op == "const":
            return self.const(t, ix)
        if op == "idx":
            v = self.bind.get(t)
            if v is None:
                return self.H("freeidx")
            return v
        key = (t.uid, ix)
        fr = free_syms(t)
        if fr:
            key = (t.uid, ix, tuple(sorted((f.uid, repr(_hk(self.bind[f]))) for f in fr if f in self.bind)))
        m = self.memo.get(key, self)
        if m is not self:
            if isinstance(m, Exception):
                raise m
            return m
        f = getattr(self, "o_" + _OPNAME.get(op, op), None)
        try:
            r = f(t, ix) if f is not None else self.generic(t, ix)
        except (OverflowError, ZeroDivisionError) as e:
            r = Dead(str(e))
            self.memo[key] = r
            raise r from None
        except Undecided as e:
            self.memo[key] = e
            raise
        except RecursionError:
            raise Undecided("recursion") from None
        self.memo[key] = r
        return r

    def const(self, t, ix):
        v = t.args[0]
        if v is Ellipsis:
            return "..."
        if isinstance(v, bytes):
            return v.decode("latin1")
        return v

    def generic(self, t, ix):
        parts = []
        for a in t.args:
            parts.append(self.fp(a))
        return self.H("op:" + t.op, *parts, ix or (self.pos[0],))

    def fp(self, a):
        """Fingerprint of an argument (term, tuple of terms or plain value)."""
        if isinstance(a, T):
            return self.ev(a, None)
        if isinstance(a, tuple):
            return tuple(self.fp(x) for x in a)
        if isinstance(a, (int, float, complex, str, bool)) or a is None:
            return a
        return str(a)

    # leaves

    def o_param(self, t, ix):
        name = t.args[0]
        flags = t.args[1:]
        if name in self.none:
            return None
        if "callable" in flags:
            return ("callable", name)
        if name in self.kind:
            if self.kind[name][0] == "text":
                return "some text"
            if self.kind[name][0] == "zero":
                return 0.0
            if self.kind[name][2] == ():
                ix = ()
        v = self.leaf(self.alias.get(name, name), ix, "scalar" in flags)
        if name in self.shift and isinstance(v, float):
            factor, amount = self.shift[name]
            v = v * factor + amount
        return v

    def o_ext(self, t, ix):
        n = t.args[0]
        if n in PHYSICAL:
            return PHYSICAL[n]
        if n in ("numpy.pi", "math.pi"):
            return math.pi
        if n in ("numpy.nan", "math.nan"):
            self.touched_nan = True
            return NAN
        if n in ("numpy.inf", "math.inf"):
            return 1e300
        if n in ("numpy.newaxis",):
            return None
        if n in ("math.e", "numpy.e"):
            return math.e
        if n in self.fixed:
            return self.fixed[n]
        return 0.5 + 1.5 * _u(self.seed, "ext", n)

    def o_func(self, t, ix):
        return ("func", t.args[0].mod.name, t.args[0].qualname)

    def o_lam(self, t, ix):
        return ("lam", len(t.args[0]), self.num(self.ev(t.args[1])))

    def o_cls(self, t, ix):
        return ("cls", t.args[0].name)

    def o_mod(self, t, ix):
        return ("mod", t.args[0])

    def o_bound(self, t, ix):
        return self.H("bound", self.fp(t.args[1]))

    def o_uninit(self, t, ix):
        return self.H("uninitialised memory", ix)

    def o_unbound(self, t, ix):
        raise Undecided("unbound")

    def o_absent(self, t, ix):
        return "<absent>"

    def o_mu(self, t, ix):
        v = self.bind.get(t)
        if v is None:
            v = self.carried(t)
        if v is None:
            return self.H("mu", str(t.args[1]) if not isinstance(t.args[1], tuple) else "obj", ix)
        return self.pick(v, ix)

    def carried(self, m):
        """Value of a loop-carried placeholder at the current iteration of its loop."""
        i = mk("idx", m.args[0])
        k = self.bind.get(i)
        closed = self.I.loop_info[m.args[0]].get("closed")
        if closed is None or not isinstance(k, int) or m not in closed["vars"]:
            return None
        return self.run_loop(i, closed, None, 40, upto=k)[m]

    def o_opaque(self, t, ix):
        return self.H("opaque:" + str(t.args[0]), *(self.fp(a) for a in t.args[1:]), ix)

    # structure

    def pick(self, v, ix):
        """Index a concrete value (tuple) or a store."""
        if isinstance(v, (Store, Thunk)):
            return v.read(ix, self)
        if ix is None:
            return v
        for n, k in enumerate(ix):
            if isinstance(v, tuple):
                if not isinstance(k, int) or isinstance(k, bool):
                    return self.H("pick", v, tuple(ix[n:]))
                try:
                    v = v[k]
                except IndexError:
                    raise Dead("index") from None
            else:
                return v
        return v

    def o_tuple(self, t, ix):
        if ix is None or ix == ():
            out = []
            for a in t.args:
                if a.op == "starred":
                    x = self.ev(a.args[0], None)
                    out.extend(x if isinstance(x, tuple) else (x,))
                else:
                    out.append(self.ev(a, None))
            return tuple(out)
        if any(a.op == "starred" for a in t.args):
            return self.pick(self.o_tuple(t, None), ix)
        k = ix[0]
        if isinstance(k, bool) or not isinstance(k, int):
            if isinstance(k, float) and float(k).is_integer():
                k = int(k)
            else:
                return self.H("pick", self.o_tuple(t, None), ix)
        try:
            return self.ev(t.args[k], ix[1:] or None)
        except IndexError:
            raise Dead("index") from None

    o_list = o_tuple

    def o_kv(self, t, ix):
        return (self.fp(t.args[0]), self.fp(t.args[1]))

    def o_dict(self, t, ix):
        items = t.args[0]
        d = []
        for kv in items:
            v = self.ev(kv.args[1])
            if isinstance(v, str) and v == "<absent>":
                continue
            d.append((self.ev(kv.args[0]), v))
        rest = []
        for a in t.args[1:]:
            v = self.pairs(a)
            if v is not None:
                d = [x for x in d if not any(_eq(x[0], k) for k, _ in v)]
                d.extend(v)
            else:
                rest.append(self.fp(a))
        d.sort(key=lambda x: repr(x[0]))
        return self.pick_dict(t, d, ix, tuple(rest))

    def pairs(self, t):
        """Key and value of every item of what a dictionary is made from, when the keys are known names."""
        if not isinstance(t, T):
            return None
        if t.op == "loopdict":
            d = {}
            if len(t.args) > 2:
                base = self.pairs(t.args[2])
                if base is None:
                    return None
                d.update(base)

            def items():
                for kv in t.args[1]:
                    v = self.ev(kv.args[1])
                    if not (isinstance(v, str) and v == "<absent>"):
                        d[self.ev(kv.args[0])] = v

            try:
                self.over(t.args[0], items)
            except TypeError:
                return None
            v = tuple(d.items())
        elif t.op == "call" and callee_name(t.args[0]) == "builtins.zip" and len(t.args[1]) == 2 and not t.args[2]:
            k, v = (self.ev(a) for a in t.args[1])
            if not all(isinstance(x, tuple) and not _is_token(x) for x in (k, v)):
                return None
            v = tuple(zip(k, v))
        elif t.op == "call" and callee_name(t.args[0]) in ("dict.items", "builtins.dict") and len(t.args[1]) == 1:
            return self.pairs(t.args[1][0])
        elif t.op == "dict":
            v = self.ev(t)
            v = v[1:] if isinstance(v, tuple) else None
        elif t.op in ("comp", "chain", "tuple", "list"):
            v = self.fp(t)
        else:
            return None
        if isinstance(v, tuple) and all(
                isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and not x[0].startswith("<") for x in v):
            return list(v)
        return None

    def pick_dict(self, t, d, ix, rest):
        if ix:
            for k, v in d:
                if k == ix[0]:
                    for kv in t.args[0]:
                        if self.ev(kv.args[0]) == ix[0]:
                            return self.ev(kv.args[1], ix[1:] or None)
        return ("dict",) + tuple(d) + rest

    def o_instval(self, t, ix):
        return ("inst", t.args[0]) + tuple(self.fp(kv) for kv in t.args[1])

    def o_withattrs(self, t, ix):
        return self.ev(t.args[0], ix)

    def dims_of(self, x):
        """Names of the dimensions of a grid, when they are declared."""
        if not self.grid_dims:
            return None
        while x.op in ("withattrs", "locstore") or x.op == "attr" and x.args[1] in ("real", "imag"):
            x = x.args[0]
        if x.op == "param":
            return self.grid_dims.get(x.args[0])
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in (
                "drop_vars", "assign_coords", "differentiate", "pad", "copy", "reset_coords"):
            return self.dims_of(x.args[0].args[0])
        if x.op == "call" and x.args[1]:
            n = callee_name(x.args[0])
            if n in ("xrft.pad", "xrft.unpad") or n in IDENTITY or n in UNARY:
                return self.dims_of(x.args[1][0])
            if n in ("xrft.fft", "xrft.ifft"):
                d = self.dims_of(x.args[1][0])
                return d and tuple("freq_" + k if n == "xrft.fft" else k.removeprefix("freq_") for k in d)
        if x.op in ELEMENTWISE:
            for a in x.args:
                d = self.dims_of(a) if isinstance(a, T) else None
                if d:
                    return d
        return None

    def variable_dims(self, x):
        """Dimensions of a variable of a grid."""
        if x.op == "item":
            name = self.ev(x.args[1])
            return self.grid_dims.get("var:" + name) if isinstance(name, str) else None
        return None

    def coords_of(self, x):
        """Names of the coordinates of a grid, when they are declared."""
        if x.op == "param" and "coords:" + x.args[0] in self.grid_dims:
            return self.grid_dims["coords:" + x.args[0]]
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "drop_vars" and x.args[1]:
            have, gone = self.coords_of(x.args[0].args[0]), self.ev(x.args[1][0])
            gone = (gone,) if isinstance(gone, str) else gone
            if have and isinstance(gone, tuple) and all(isinstance(g, str) for g in gone):
                return tuple(c for c in have if c not in gone)
        return None

    def labels(self, x, which):
        """What iterating over grid.coords, grid.indexes or grid.dims gives."""
        return self.dims_of(x) if which in ("dims", "indexes") else self.coords_of(x) if which == "coords" else None

    def o_locstore(self, t, ix):
        base, how, key, new = t.args
        if self.ev(how) == "coords":
            return self.ev(base, ix)
        pairs = self.pairs(key)
        if self.ev(how) != "loc" or not pairs:
            raise Undecided("assignment by label")
        names = [k for k, _ in pairs]
        roots = [x.args[0] for x in walk(base) if x.op == "attr" and x.args[1] == "coords"
                 and set(names) <= set(self.dims_of(x.args[0]) or ())]
        if not roots:
            raise Undecided("assignment by label")
        for name, v in pairs:
            if not _eq(self.select(roots[0], name, ix), v):
                return self.ev(base, ix)
        return self.ev(new, ix)

    def o_bcast(self, t, ix):
        return self.ev(t.args[0], ix)

    def o_entered(self, t, ix):
        return self.ev(t.args[0], ix)

    def o_slice(self, t, ix):
        return ("slice",) + tuple(self.ev(a) for a in t.args)

    def o_fstr(self, t, ix):
        return ("fstr",) + tuple(self.fp(a) for a in _flat_fstr(t))

    # logic

    def truth(self, t, ix=None):
        v = self.ev(t, ix)
        return self.truthv(v)

    def truthv(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, complex):
            return v != 0
        return True

    def o_ite(self, t, ix):
        c = t.args[0]
        # elementwise gates (np.where) carry the index into the condition
        v = self.ev(c, ix if _is_array_cond(c) else None)
        return self.sel(v, t.args[1], t.args[2], ix)

    def sel(self, v, a, b, ix):
        if isinstance(v, tuple) and v and all(isinstance(x, bool) for x in v):
            x, y = self.ev(a, ix), self.ev(b, ix)
            return self.lift(lambda c, p, q: p if c else q, v, x, y)
        return self.ev(a if self.truthv(v) else b, ix)

    def o_not(self, t, ix):
        v = self.ev(t.args[0], ix)
        if t.args[0].op in ("comp", "chain", "list", "append") or v == ():
            return not self.truthv(v)
        return self.lift(lambda x: not self.truthv(x), v)

    def o_and(self, t, ix):
        acc = True
        for a in t.args:
            v = self.ev(a, ix)
            if isinstance(v, tuple) and v:
                acc = self.lift(lambda p, q: bool(p) and bool(q), acc, v)
            else:
                if not self.truthv(v):
                    return False
        return acc

    def o_or(self, t, ix):
        acc = False
        for a in t.args:
            v = self.ev(a, ix)
            if isinstance(v, tuple) and v:
                acc = self.lift(lambda p, q: bool(p) or bool(q), acc, v)
            else:
                if self.truthv(v):
                    return True
        return acc

    def lift(self, f, *vals):
        """Apply f elementwise on nested tuples."""
        n = None
        for v in vals:
            if isinstance(v, Store):
                raise Undecided("store")
            if isinstance(v, tuple) and not _is_token(v):
                n = len(v) if n is None else max(n, len(v))
        if n is None:
            try:
                return f(*vals)
            except TypeError:
                if any(v is None for v in vals):
                    raise NoneUsed("arithmetic on None") from None
                return self.H("lift", *vals)
        out = []
        for k in range(n):
            row = []
            for v in vals:
                if isinstance(v, tuple) and not _is_token(v):
                    if len(v) == n:
                        row.append(v[k])
                    elif len(v) == 1:
                        row.append(v[0])
                    else:
                        raise Dead("broadcast")
                else:
                    row.append(v)
            out.append(self.lift(f, *row))
        return tuple(out)

    def bin(self, f, t, ix):
        if ix is None and (_newaxis(t.args[0]) or _newaxis(t.args[1])):
            ix = self.pos[:2]
        i = j = ix
        if ix is not None and len(ix) == 2:
            # a row of numbers against a table made with a new axis
            x, y = t.args
            if _newaxis(x) and not _newaxis(y) and self.rank2(y) is None:
                j = ix[1:]
            elif _newaxis(y) and not _newaxis(x) and self.rank2(x) is None:
                i = ix[1:]
        a = self.ev(t.args[0], i)
        b = self.ev(t.args[1], j)
        return self.lift(f, a, b)

    def o_add(self, t, ix):
        return self.bin(lambda a, b: a + b, t, ix)

    def o_sub(self, t, ix):
        return self.bin(lambda a, b: a - b, t, ix)

    def o_mul(self, t, ix):
        return self.bin(lambda a, b: a * b, t, ix)

    def o_div(self, t, ix):
        def f(a, b):
            if b == 0:
                if a == 0 or a != a or isinstance(a, complex) or isinstance(b, complex):
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            return a / b

        return self.bin(f, t, ix)

    def o_floordiv(self, t, ix):
        def f(a, b):
            if b == 0:
                raise Dead("division by zero")
            return math.floor(a / b + 1e-9)

        return self.bin(f, t, ix)

    def o_mod_(self, t, ix):
        def f(a, b):
            if b == 0:
                raise Dead("division by zero")
            q = math.floor(a / b + 1e-12)
            r = a - q * b
            return r

        return self.bin(f, t, ix)

    def o_pow(self, t, ix):
        return self.bin(_pow, t, ix)

    def o_neg(self, t, ix):
        return self.lift(lambda a: -a, self.ev(t.args[0], ix))

    def o_lt(self, t, ix):
        r = self.bin(_lt, t, ix)
        return self.note(t, ix, r) if t.uid in self.watch else r

    def o_le(self, t, ix):
        r = self.bin(_le, t, ix)
        return self.note(t, ix, r) if t.uid in self.watch else r

    def note(self, t, ix, r):
        """Record the operands of a watched comparison."""
        try:
            a, b = self.ev(t.args[0], ix), self.ev(t.args[1], ix)
        except Undecided:
            return r
        if all(isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x) for x in (a, b)):
            self.watch[t.uid].append((bool(r), float(a), float(b)))
        return r

    def o_eq(self, t, ix):
        if self.is_whole(t.args[0]) or self.is_whole(t.args[1]):
            return _eq(self.ev(t.args[0]), self.ev(t.args[1]))
        return self.lift(_eq, self.ev(t.args[0], ix), self.ev(t.args[1], ix)) if ix is not None else _eq(
            self.ev(t.args[0]), self.ev(t.args[1])
        )

    def o_ne(self, t, ix):
        v = self.o_eq(t, ix)
        return self.lift(lambda x: not x, v)

    def is_whole(self, t):
        return t.op == "attr" and t.args[1] in ("shape", "size", "ndim", "dtype", "dims")

    def o_is(self, t, ix):
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                return self.ev(x) is None
            if y is TRUE or y is FALSE:
                return self.ev(x) is y.args[0]
        return _eq(self.ev(a), self.ev(b))

    def o_in(self, t, ix):
        a = self.ev(t.args[0])
        c = self.ev(t.args[1])
        if isinstance(c, tuple) and c and c[0] == "dict":
            keys = [x[0] for x in c[1:] if isinstance(x, tuple) and len(x) == 2]
            if any(_eq(a, k) for k in keys):
                return True
            return self.Hbool("in", a, c)
        if isinstance(c, tuple) and not _is_token(c):
            return any(_eq(a, x) for x in c)
        if isinstance(c, str) and isinstance(a, str):
            return a in c
        return self.Hbool("in", a, c)

    def o_isinstance(self, t, ix):
        x = t.args[0]
        names = frozenset(callee_name(c) if c.op == "ext" else str(self.fp(c)) for c in t.args[1].args)
        while x.op == "ite":
            x = x.args[1] if self.truth(x.args[0]) else x.args[2]
        if x.op == "call" and callee_name(x.args[0]) in ("numpy.asarray", "numpy.array"):
            return any(n.split(".")[-1] in ("ndarray", "Iterable", "object") for n in names)
        if x.op == "call" and callee_name(x.args[0]) in ("builtins.float", "builtins.int"):
            return any(n.split(".")[-1] in ("Real", "Number", callee_name(x.args[0])[9:]) for n in names)
        if x.op == "param" and x.args[0] in self.kind:
            return any(n.split(".")[-1] in self.kind[x.args[0]][1] for n in names)
        if x.op == "param" and "scalar" in x.args[1:]:
            if any(n.split(".")[-1] in ("Iterable", "Sequence", "tuple", "list", "ndarray") for n in names):
                return False
        if x.op in ARITHMETIC and {n.split(".")[-1] for n in names} == {"ndarray"}:
            return bool(self.rank(x))
        v = self.ev(x)
        if v is None:
            return False
        if isinstance(v, str):
            return "builtins.str" in names
        if x.op == "param":
            # the class of an unknown argument does not depend on its contents
            return _u(self.seed, "isinstance", x.args[0], sorted(names)) < 0.4
        return self.Hbool("isinstance", v, tuple(sorted(names)))

    def o_exc(self, t, ix):
        return _u(self.seed, "exc", str(self.fp(t.args[0]))) < 0.3

    # sizes -------------------------------------------------------------------

    def aligned(self, a, x, b, y):
        """An array listed element by element against one element of an array: list both."""
        for s, u, t, w in ((a, x, b, y), (b, y, a, x)):
            if isinstance(u, tuple) and not _is_token(u) and not isinstance(w, (tuple, str)) and u and not any(
                    isinstance(z, tuple) for z in u) and self.dim(t, 0) == len(u):
                w = tuple(self.ev(t, (k,)) for k in range(len(u)))
                return (u, w) if s is a else (w, u)
        return x, y

    def dim(self, t, k):
        """Length of axis k of t (None for scalars)."""
        if free_syms(t):
            return self._dim(t, k)
        key = ("dim", t.uid, k)
        m = self.memo.get(key, self)
        if m is self:
            m = self.memo[key] = self._dim(t, k)
        return m

    def _dim(self, t, k):
        op = t.op
        if op == "const":
            return len(t.args[0]) if isinstance(t.args[0], str) else None
        if op == "item" and self.windows_in(t):
            v = self.ev(t)
            if isinstance(v, tuple) and not _is_token(v):
                return len(v) if k == 0 else None
        if op == "mu":
            v = self.bind.get(t)
            return v.dim(k, self) if isinstance(v, Thunk) else None
        if op in ("idx", "sum", "prod", "is", "in", "isinstance", "exists", "forall", "fstr", "func", "lam", "cls"):
            return None
        if op == "ext" and isinstance(self.ev(t), (int, float)):
            return None
        if op in ("loopval", "rec"):
            return self.dim(t.args[2], k)
        if op == "param":
            name = t.args[0]
            if "scalar" in t.args[1:]:
                return None
            if name in self.grid_dims:
                names = self.grid_dims[name]
                return None if k >= len(names) else 4 + _h(self.seed, "size", names[k]) % 16
            d = self.dims.get(name)
            if d is not None:
                if k >= len(d):
                    return None
                v = d[k]
                if v is not None:
                    return v
            key = self.lengths.get((name, k), (name, k))
            return POOL_INT[_h(self.seed, "dim", key) % 2]
        if op in ("tuple", "list"):
            if k == 0:
                return len(t.args)
            for a in t.args:
                d = self.dim(a, k - 1)
                if d is not None:
                    return d
            return None
        if op in ("withattrs", "bcast", "entered", "locstore"):
            if op == "bcast":
                return self.bdim(t.args[1], k)
            return self.dim(t.args[0], k)
        if op == "scatter":
            return self.dim(t.args[1], k)
        if op in ("recarr",):
            return self.dim(t.args[1], k)
        if op == "bcval":
            return self.shape_dim(t.args[1], k)
        if op == "comp":
            v = self.ev(t)
            return len(v) if isinstance(v, tuple) else None
        if op == "dict":
            v = self.ev(t)
            return len(v) - 1 if k == 0 and self.pairs(t) is not None else None
        if op == "ite":
            if _is_array_cond(t.args[0]):
                return self.bdim(t.args, k)
            return self.dim(t.args[1] if self.truth(t.args[0]) else t.args[2], k)
        if op in ELEMENTWISE:
            return self.bdim(t.args, k)
        if op == "@":
            d = self.product_dim(t.args[0], t.args[1], k)
            if d != 0:
                return d
        if (self.var_dims or self.grid_dims) and op in ("item", "attr"):
            d = self.var_shape(t)
            if d is not None:
                return d[k] if k < len(d) else None
        if op == "item":
            x = t.args[0]
            if x.op == "call" and callee_name(x.args[0]) == "numpy.meshgrid" and is_const(t.args[1]) and len(x.args[1]) == 2:
                if k > 1:
                    return None
                ij = "indexing" in dict(x.args[2]) and self.ev(dict(x.args[2])["indexing"]) == "ij"
                return self.dim(x.args[1][k if ij else 1 - k], 0)
            if x.op == "call" and callee_name(x.args[0]) == "bordado.grid_coordinates" and is_const(t.args[1]):
                return None if k > 1 else 2 + k
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "geodetic_to_spherical" and len(
                    x.args[1]) == 1 and x.args[1][0].op == "tuple":
                return self.bdim(x.args[1][0].args, k)
            if x.op == "call" and callee_name(x.args[0]).endswith(".leggauss") and len(x.args[1]) == 1:
                return None if k else self.int(self.ev(x.args[1][0]))
            return self.item_dim(t, k)
        if op == "attr":
            x, name = t.args
            if self.grid_dims and name in ("dims", "coords", "indexes"):
                names = self.labels(x, name)
                if names is not None:
                    return None if k else len(names)
            if name in ("values", "data", "real", "imag"):
                return self.dim(x, k)
            if name == "T":
                if k > 1:
                    return None
                d0, d1 = self.dim(x, 0), self.dim(x, 1)
                return (d1 if k == 0 else d0) if d1 is not None else d0
            if name == "shape":
                return None
            if name in ("size", "ndim", "dtype"):
                return None
        if op == "call":
            if self.grid_dims and t.args[0].op == "attr" and (names := self.dims_of(t)):
                return None if k >= len(names) else 4 + _h(self.seed, "size", names[k]) % 16
            n = callee_name(t.args[0])
            a = t.args[1]
            if n == "verde.base.least_squares" and a:
                return self.dim(a[0], 1) if k == 0 else None
            if n in ("numpy.ravel", "numpy.reshape", "numpy.flatten", "builtins.list", "builtins.tuple", "numpy.astype") or n in IDENTITY:
                if a:
                    if n in ("numpy.ravel", "numpy.flatten"):
                        return None if k > 0 else self.size(a[0]) if self.dim(a[0], 0) is not None else 1
                    if n == "numpy.reshape" and len(a) > 1:
                        return self.shape_dim(a[1], k) if not is_const(a[1]) else self.dim(a[0], k)
                    return self.dim(a[0], k)
            if n in UNARY and a or n in ("numpy.isnan", "numpy.isfinite", "numpy.clip", "numpy.sort", "numpy.isclose"):
                return self.bdim(a, k) if a else None
            if n in BINARY or n.startswith("scipy.special.ell") and not t.args[2]:
                return self.bdim(a, k)
            if n == "numpy.broadcast_to" and len(a) == 2:
                return self.shape_dim(a[1], k)
            if n == "numpy.where" and len(a) == 3:
                return self.bdim(a, k)
            if n == "numpy.arange" or n == "builtins.range":
                if k == 0:
                    v = [self.ev(x) for x in a]
                    try:
                        return len(range(*(int(x) for x in v[:3])))
                    except (ValueError, TypeError):
                        pass
            if n in ("numpy.eye", "numpy.identity"):
                return self.int(self.ev(a[0])) if k < 2 else None
            if n == "numpy.diag" and a:
                return self.dim(a[0], 0) if k < 2 else None
            if n == "numpy.linalg.solve" and len(a) == 2:
                return self.dim(a[1], k)
            if n in INVERSES and a or n == "scipy.sparse.csr_matrix" and len(a) == 1:
                return self.dim(a[0], k)
            if t.args[0].op == "attr" and t.args[0].args[1] in ("toarray", "todense", "tocsr", "tocsc") and not a:
                return self.dim(t.args[0].args[0], k)
            if n in DIAGONALS and len(a) == 1 and not t.args[2] and self.rank(a[0]) == 1:
                return self.dim(a[0], 0) if k < 2 else None
            if n in ("numpy.concatenate", "numpy.hstack", "scipy.sparse.hstack") and a and a[0].op in ("tuple", "list") and not t.args[2]:
                parts = [self.dim(x, k) for x in a[0].args]
                along = 0 if n == "numpy.concatenate" else self.rank(a[0].args[0]) - 1 if self.rank(a[0].args[0]) else 0
                return sum(parts) if k == along and None not in parts else parts[0]
            if n == "builtins.sorted" and a:
                return self.dim(a[0], k)
            if t.args[0].op == "attr" and t.args[0].args[1] == "as_matrix":
                return 3 if k < 2 else None
            if n in ("numpy.matmul", "numpy.dot") and len(a) == 2:
                d = self.product_dim(a[0], a[1], k)
                if d != 0:
                    return d
            if n == "numpy.linspace" and k == 0:
                num = a[2] if len(a) > 2 else dict(t.args[2]).get("num")
                if num is not None:
                    return int(self.ev(num))
            if n in ("numpy.vstack", "numpy.stack", "numpy.concatenate") and a and a[0].op in ("tuple", "list"):
                if n != "numpy.concatenate":
                    return len(a[0].args) if k == 0 else self.dim(a[0].args[0], k - 1)
            if n in ("numpy.any", "numpy.all", "numpy.sum", "numpy.mean", "numpy.min", "numpy.max", "builtins.int",
                     "builtins.max", "builtins.min", "builtins.len", "math.prod", "numpy.linalg.norm"):
                if not t.args[2] and len(a) == 1:
                    return None
        v = self.H("dim", self.fp(t), k)
        return POOL_INT[int(abs(v) * 1000) % 2]

    def var_shape(self, t):
        """Shape of a named variable of a dataset-like unknown, when its dims are declared."""
        base, name = t.args
        if isinstance(name, T):
            if name.op not in ("const", "param", "item", "ite") or name.op == "item" and not self.grid_dims:
                return None
            name = self.ev(name)
        names = self.var_dims.get(name) if isinstance(name, str) else None
        if names is None:
            names = self.grid_dims.get("var:" + name) if isinstance(name, str) else None
            return names and tuple(4 + _h(self.seed, "size", n) % 16 for n in names)
        y, order = base, None
        while True:
            if y.op == "attr" and y.args[1] in ("coords", "indexes", "variables", "data_vars"):
                y = y.args[0]
            elif y.op in ("withattrs", "locstore"):
                y = y.args[0]
            elif y.op == "call" and callee_name(y.args[0]) == "numpy.transpose" and len(y.args[1]) > 1:
                order = order or [self.ev(a) for a in y.args[1][1:]]
                y = y.args[1][0]
            else:
                break
        made = made_grid(y)
        if y.op != "param" and made is None:
            return None
        if len(names) > 1 and made is not None and order is None:
            order = self.ev(made)
            order = order if isinstance(order, tuple) else None
        if len(names) > 1:
            if order is not None:
                names = sorted(names, key=lambda n: order.index(n) if n in order else 99)
            elif _u(self.seed, "dims order", y.args[0]) < 0.5:
                names = tuple(reversed(names))
        return tuple(POOL_INT[_h(self.seed, "dim", ("coordinate", n)) % 2] for n in names)

    def bdim(self, ts, k):
        best = None
        for x in ts:
            if isinstance(x, T):
                d = self.dim(x, k)
                if d is not None and (best is None or d > best):
                    best = d
        return best

    def shape_dim(self, s, k):
        if s.op in ("tuple", "list"):
            if k >= len(s.args):
                return None
            return self.int(self.ev(s.args[k]))
        if s.op == "attr" and s.args[1] == "shape":
            return self.dim(s.args[0], k)
        if s.op == "attr" and s.args[1] == "size":
            return self.size(s.args[0]) if k == 0 else None
        v = self.ev(s)
        if isinstance(v, tuple):
            if _is_token(v):
                return POOL_INT[_h(self.seed, "shp", repr(v), k) % 2]
            return self.int(v[k]) if k < len(v) else None
        return self.int(v) if k == 0 else None

    def int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if v == v and abs(v - round(v)) < 1e-6:
                return int(round(v))
            return POOL_INT[_h(self.seed, "int", round(v, 6)) % 2]
        return POOL_INT[0]

    def size(self, t):
        t0 = t
        while t.op == "call" and t.args[1] and (n := callee_name(t.args[0])) and (n in IDENTITY or n == "numpy.astype"):
            t = t.args[1][0]
        if t.op == "call" and callee_name(t.args[0]) == "numpy.broadcast":
            return self.bsize(t.args[1])
        if t.op == "bcast":
            return self.bsize(t.args[1])
        d = self.dim(t, 0)
        if d is None:
            return 1
        if t.op == "param" and t.args[0] not in self.dims:
            return d
        k = 1
        while k < 4:
            m = self.dim(t, k)
            if m is None:
                break
            d *= m
            k += 1
        return d

    def bsize(self, args):
        names = sorted({repr(round(self.num(self.fp(a)), 9)) for a in args})
        key = ("bsize", tuple(names))
        return POOL_INT[_h(self.seed, key) % 2]

    def norm_ix(self, x, k, axis):
        """Resolve a negative index."""
        if isinstance(k, float) and float(k).is_integer():
            k = int(k)
        if isinstance(k, int) and not isinstance(k, bool) and k < 0:
            try:
                n = self.dim(x, axis)
            except Undecided:
                n = None
            if n is not None:
                return k + n
        return k

    # indexing ----------------------------------------------------------------

    def o_item(self, t, ix):
        base, k = t.args
        return self.at(base, k, ix)

    def comps(self, k):
        return k.args if k.op == "tuple" else (k,)

    def at(self, base, k, ix):
        # whole-shape entries
        if base.op == "attr" and base.args[1] == "shape":
            kv = self.ev(k)
            if isinstance(kv, int) and not isinstance(kv, bool):
                x = base.args[0]
                if x.op == "call" and callee_name(x.args[0]) == "numpy.broadcast":
                    return self.H("bshape", kv)
                if kv >= 0:
                    d = self.dim(x, kv)
                    return 1 if d is None else d
                if self.dim(x, 1) is not None:
                    return self.dim(x, 2 + kv)
                return self.dim(x, 0)
        if base.op == "comp":
            return self.pick(self.ev(base), self.full_ix(base, k, ix))
        if ix is None and k.op == "slice" and k.args[0] in (NONE, _const(0)) and k.args[2] is NONE and is_const(
                k.args[1]) and isinstance(k.args[1].args[0], int) and 0 < k.args[1].args[0] <= 3 and base.op in ("call", "ite", "item"):
            # the first components, whether sliced or listed
            return tuple(self.ev(mk("item", base, _const(j))) for j in range(k.args[1].args[0]))
        if base.op == "dict":
            if k.op == "idx":  # what iterating over it gives
                names = self.pairs(base)
                if names is not None and not ix:
                    return names[self.ev(k)][0]
            name = self.ev(k)
            names = self.pairs(base) if isinstance(name, str) and len(base.args) > 1 and not ix else None
            for key, v in names or ():
                if key == name:
                    return v
            return self.ev(base, (name,) + (ix or ()))
        if self.grid_dims and base.op == "attr" and base.args[1] in ("dims", "coords", "indexes") and k.op == "idx":
            names = self.labels(base.args[0], base.args[1])
            if names is not None:
                return names[self.ev(k)]
        if self.grid_dims and k.op != "tuple" and k.op != "slice" and k.op != "dict" and (
                base.op == "attr" and base.args[1] == "coords" or self.dims_of(base) is not None):
            name = self.ev(k)
            if isinstance(name, str):
                return self.select(base, name, ix)
        if k.op not in ("tuple", "slice") and (
                is_const(k) and isinstance(k.args[0], str) or k.op == "param"
                or k.op == "item" and k.args[0].op == "attr" and k.args[0].args[1] == "dims"):
            name = self.ev(k)
            if isinstance(name, str):
                return self.select(base, name, ix)
        if ix and self.one_cell(base, k):
            ix = None  # a number used along with an array
        full = self.full_ix(base, k, ix)
        if isinstance(full, Value):
            return full.v
        return self.ev(base, full)

    def one_cell(self, base, k):
        """Whether base[k] is a number: every axis of base is indexed by an integer."""
        cs = self.comps(k)
        if not all(c.op == "idx" or is_const(c) and isinstance(c.args[0], int) for c in cs):
            return False
        if self.windows_in(base):
            return False  # arrays of arrays
        try:
            return self.dim(base, len(cs) - 1) is not None and self.dim(base, len(cs)) is None
        except Undecided:
            return False

    def full_ix(self, base, k, ix):
        """Index on base equivalent to base[k] followed by ix."""
        rest = list(ix) if ix is not None else None
        out = []
        slot = 0
        comps = self.comps(k)
        n_mask = 0
        for axis, c in enumerate(comps):
            if c.op == "slice":
                if rest is None:
                    r = None
                elif rest:
                    r = rest.pop(0)
                else:
                    r = None
                if r is None:
                    r = self.pos[slot % 3]
                slot += 1
                lo, hi, step = c.args
                if lo is NONE and step is NONE:
                    if not isinstance(r, int) or r >= 0 or hi is NONE:
                        out.append(r)
                        continue
                st = 1 if step is NONE else self.ev(step)
                st = self.int(st)
                n = self.dim(base, axis)
                l = self.ev(lo) if lo is not NONE else (0 if st > 0 else None)
                if l is None:
                    l = (n if n is not None else 3) - 1
                if isinstance(l, str):
                    out.append(("sl", l, r))
                    continue
                l = self.int(l)
                if l < 0 and n is not None:
                    l += n
                if not isinstance(r, int):
                    out.append(r)
                    continue
                if r < 0:
                    h = self.ev(hi) if hi is not NONE else n
                    h = self.int(h) if h is not None else 3
                    if h < 0 and n is not None:
                        h += n
                    cnt = len(range(l, h, st))
                    r += cnt
                out.append(l + st * r)
                continue
            if c is NONE:
                if rest:
                    rest.pop(0)
                slot += 1
                continue
            if is_const(c) and c.args[0] is Ellipsis:
                if axis == len(comps) - 1:
                    continue
                if rest is None:
                    out.append("...")
                else:
                    m = len(comps) - 1 - axis
                    take = rest[: max(0, len(rest))]
                    out.extend(take)
                    rest = []
                continue
            if self.I.is_mask(c):
                sel = self.positions(c)
                if sel is None:
                    out.append(("mask", self.num(self.ev(c))))
                    continue
                n_mask += 1
                r = rest.pop(0) if rest else self.pos[slot % 3]
                slot += 1
                if not sel:
                    return Value(self.H("empty selection"))
                if not isinstance(r, int):
                    return Value(self.H("pick", tuple(sel), r))
                if r >= len(sel):
                    if ix is not None:
                        raise Dead("index out of selection")
                    r = r % len(sel)
                p = sel[r]
                out.extend(p if isinstance(p, tuple) else (p,))
                continue
            v = self.ev(c)
            if isinstance(v, tuple) and not _is_token(v):
                r = rest.pop(0) if rest else self.pos[slot % 3]
                slot += 1
                if isinstance(r, int) and v:
                    if all(isinstance(x, bool) for x in v):
                        v = tuple(j for j, x in enumerate(v) if x)
                        if not v:
                            return Value(self.H("empty selection"))
                    v = v[r % len(v)]
                    out.append(v)
                    continue
            if isinstance(v, float) and float(v).is_integer():
                v = int(v)
            if isinstance(v, int) and v < 0 and not isinstance(v, bool):
                v = self.norm_ix(base, v, len(out))
            if isinstance(v, float):
                v = round(v, 7)
            out.append(v)
        if rest:
            out.extend(rest)
        if base.op == "param" and base.args[0] in self.dims and len(out) > len(self.dims[base.args[0]]) and len(
                comps) >= len(self.dims[base.args[0]]):
            out = out[:len(self.dims[base.args[0]])]  # an element: the same for every position
        return tuple(out)

    def positions(self, mask):
        """Positions selected by a boolean array term (None if not an array)."""
        if mask.op == "call" and callee_name(mask.args[0]) in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
            if len(mask.args[1]) == 1:
                mask = mask.args[1][0]
            else:
                return None
        if mask.op == "call" and callee_name(mask.args[0]) in ("numpy.argsort", "numpy.arange"):
            return None
        n = self.dim(mask, 0)
        if n is None:
            return None
        m = self.rank2(mask)
        if m is not None:
            return [(k, j) for k in range(n) for j in range(m) if self.truth(mask, (k, j))]
        return [k for k in range(n) if self.truth(mask, (k,))]

    def rank2(self, t):
        """Length of the second axis when t is known to have one."""
        if t.op == "param" and t.args[0] not in self.dims:
            return None
        ts = None
        if t.op == "call":
            n = callee_name(t.args[0])
            if n in ("numpy.ravel", "numpy.flatten"):
                return None
            if n in IDENTITY and n not in ("numpy.atleast_2d", "numpy.reshape") or n == "numpy.astype" \
                    or n in UNARY or n in BINARY:
                ts = t.args[1][:2 if n in BINARY else 1]
        elif t.op == "bcast":
            ts = t.args[1]
        elif t.op in ELEMENTWISE:
            ts = t.args
        elif t.op == "attr" and t.args[1] in ("values", "data") and t.args[0].op == "param":
            ts = t.args[:1]
        if ts:
            for x in ts:
                r = self.rank2(x) if isinstance(x, T) else None
                if r is not None:
                    return r
            return None
        if t.op == "item" and t.args[0].op == "call" and callee_name(t.args[0].args[0]).endswith(".leggauss"):
            return None
        return self.dim(t, 1)

    def item_dim(self, t, k):
        base, key = t.args
        comps = list(self.comps(key))
        while True:
            if base.op == "item" and base.args[0].op in ("tuple", "list", "item"):
                # an element of an element
                inner = list(self.comps(base.args[1]))
                if len(inner) == 1 and inner[0].op not in ("slice",) and inner[0] is not NONE and not (
                        self.I.is_mask(inner[0])) and isinstance(self.ev(inner[0]), int):
                    base, comps = base.args[0], inner + comps
                    continue
            if base.op in ("tuple", "list") and comps and comps[0].op != "slice" and comps[0] is not NONE and not (
                    self.I.is_mask(comps[0])):
                v = self.ev(comps[0])
                if isinstance(v, int) and not isinstance(v, bool) and -len(base.args) <= v < len(base.args) and not any(
                        x.op == "starred" for x in base.args):
                    base, comps = base.args[v], comps[1:]
                    continue
            break
        if not comps:
            return self.dim(base, k)
        axis = 0
        slots = []
        for c in comps:
            if c.op == "slice":
                slots.append((axis, c))
                axis += 1
            elif c is NONE:
                slots.append((None, None))
            elif is_const(c) and c.args[0] is Ellipsis:
                axis += 1
            elif self.I.is_mask(c):
                slots.append((axis, c))
                axis += 1 if self.rank2(c) is None else 2
            else:
                v = self.ev(c)
                if isinstance(v, tuple) and not _is_token(v):
                    slots.append((axis, v))
                axis += 1
        if k < len(slots):
            ax, c = slots[k]
            if c is None:
                return 1
            if isinstance(c, tuple):
                if c and all(isinstance(x, bool) for x in c):
                    return sum(c)
                return len(c)
            if c.op == "slice":
                n = self.dim(base, ax)
                if n is None:
                    return None
                lo, hi, st = (None if a is NONE else self.ev(a) for a in c.args)
                if any(isinstance(x, str) for x in (lo, hi, st)):
                    return n
                return len(range(n)[slice(*(None if x is None else self.int(x) for x in (lo, hi, st)))])
            sel = self.positions(c)
            return len(sel) if sel is not None else POOL_INT[0]
        if base.op == "attr" and base.args[1] == "shape":
            return None
        if len(slots) == 0 and base.op == "param" and base.args[0] not in self.dims and len(comps) == 1:
            # an element of an array whose rank is unknown: a scalar unless indexed further
            return None
        return self.dim(base, axis + (k - len(slots)))

    def o_attr(self, t, ix):
        x, name = t.args
        if name in ("year", "month", "day", "days", "seconds"):
            v = self.ev(x)
            if isinstance(v, (datetime.date, datetime.timedelta)):
                return getattr(v, name)
        if name == "itemsize" and x.op == "call" and callee_name(x.args[0]) == "numpy.dtype" and len(x.args[1]) == 1:
            d = x.args[1][0]
            d = d.args[0].split(".")[-1] if d.op == "ext" else self.ev(d)
            if isinstance(d, str):
                d = {"float": "float64", "f8": "float64", "f4": "float32", "<other>": "float32"}.get(d, d)
                bits = d.lstrip("abcdefghijklmnopqrstuvwxyz")
                if bits.isdigit() and int(bits) >= 8:
                    return int(bits) // 8
            return self.H("itemsize", self.num(d))
        if name in ("values", "data", "real", "flat", "loc", "iloc"):
            if name == "real":
                return self.lift(lambda v: v.real if isinstance(v, complex) else v, self.ev(x, ix))
            return self.ev(x, ix)
        if name == "imag":
            return self.lift(lambda v: v.imag if isinstance(v, complex) else 0.0, self.ev(x, ix))
        if self.grid_dims and name in ("dims", "coords", "indexes"):
            names = self.labels(x, name)
            if names is not None:
                return self.pick(names, ix)
            if name == "dims":
                names = self.variable_dims(x)
                if names is not None:
                    return self.pick(names, ix)
        if name == "size":
            return self.size(x)
        if name == "shape":
            return self.shape(x, ix)
        if name == "ndim":
            while x.op == "call" and callee_name(x.args[0]) in ("numpy.asarray", "numpy.array", "numpy.asanyarray") and x.args[1]:
                x = x.args[1][0]
            if x.op == "param" and x.args[0] in self.dims:
                return len(self.dims[x.args[0]])
            if self.grid_dims and (names := self.dims_of(x)) is not None:
                return len(names)
            return 1 + int(self.Hbool("ndim", self.fp(x)))
        if name == "dtype":
            return self.H("dtype", self.fp(x))
        if name == "T":
            if x.op == "call" and callee_name(x.args[0]) in ("numpy.array", "numpy.vstack", "numpy.stack"):
                v = self.ev(x)
                if isinstance(v, tuple) and v and all(isinstance(r, tuple) for r in v):
                    return self.pick(tuple(zip(*v)), ix)
            if ix is None:
                v = self.ev(x, None)
                if isinstance(v, tuple) and v and not _is_token(v) and all(isinstance(r, tuple) and len(r) == len(v[0]) for r in v):
                    return tuple(zip(*v))
                return v if self.dim(x, 1) is None else self.H("T", v)
            if len(ix) == 1:
                return self.ev(x, (self.pos[0], ix[0]))
            return self.ev(x, tuple(reversed(ix[:2])) + tuple(ix[2:]))
        if name in ("coords", "indexes", "variables", "data_vars"):
            return self.H("get", self.ev(x, None), "")  # same namespace as the dataset
        return self.select(x, name, ix)

    def select(self, x, name, ix):
        """A named variable of a dataset-like unknown."""
        y = x
        wraps = []
        while True:
            if y.op == "attr" and y.args[1] in ("coords", "indexes", "variables", "data_vars"):
                y = y.args[0]
                continue
            if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "transpose":
                wraps.append(tuple(self.fp(a) for a in y.args[1]))
                y = y.args[0].args[0]
                continue
            if y.op == "call" and callee_name(y.args[0]) == "numpy.transpose" and len(y.args[1]) > 1:
                wraps.append(tuple(self.fp(a) for a in y.args[1][1:]))
                y = y.args[1][0]
                continue
            if y.op == "withattrs":
                y = y.args[0]
                continue
            if y.op == "locstore":
                if not isinstance(name, str) or self.ev(y.args[1]) != "coords":
                    raise Undecided("variable of a changed dataset")
                if self.ev(y.args[2]) != name:
                    y = y.args[0]
                    continue
                new = y.args[3]
                if wraps or new.op != "tuple" or len(new.args) != 2:
                    raise Undecided("variable of a changed dataset")
                return self.ev(new.args[1], ix)
            break
        v = self.ev(y, None)
        if isinstance(name, str) and name in self.vars:
            return self.vars[name](self, y, tuple(wraps), ix or (self.pos[0],))
        return self.H("get", v, name, tuple(wraps), ix or (self.pos[0],))

    def shape(self, x, ix):
        if x.op == "ite":
            return self.shape(x.args[1] if self.truth(x.args[0]) else x.args[2], ix)
        while x.op == "call" and callee_name(x.args[0]) in (IDENTITY - {"numpy.ravel", "numpy.reshape", "numpy.flatten", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze"}) and x.args[1]:
            x = x.args[1][0]
        if x.op == "call" and callee_name(x.args[0]) == "numpy.broadcast":
            names = sorted({repr(round(self.num(self.fp(a)), 9)) for a in x.args[1]})
            return ("shape", "b", tuple(names))
        if x.op == "bcast":
            names = sorted({repr(round(self.num(self.fp(a)), 9)) for a in x.args[1]})
            return ("shape", "b", tuple(names))
        names = self.dims_of(x)
        if names is not None:
            return tuple(4 + _h(self.seed, "size", n) % 16 for n in names)
        d0 = self.dim(x, 0)
        if d0 is None:
            return ()
        d1 = self.dim(x, 1) if not (x.op == "param" and x.args[0] not in self.dims) else None
        if x.op == "param" and x.args[0] in self.dims:
            return tuple(self.dim(x, k) for k in range(len(self.dims[x.args[0]])))
        if x.op in ("tuple", "list"):
            r = self.rank(x)
            if r is not None:
                return tuple(self.dim(x, k) for k in range(r))
        return ("shape", d0)

    # loops -------------------------------------------------------------------

    def range_of(self, i):
        """Concrete index values of a loop."""
        info = self.I.loop_info[i.args[0]]
        lo = self.ev(info["lo"])
        lo = self.int(lo)
        hi = info.get("hi")
        if hi is None:
            it = info.get("iter")
            h = lo + 2
            if it is not None:
                d = self.dim(it, 0)
                h = lo + (d if d is not None else 2)
        else:
            h = self.ev(hi)
            if isinstance(h, tuple) and not _is_token(h):
                h = len(h)
            h = self.int(h)
        if h - lo > 64:
            raise Undecided("long loop")
        return range(lo, h)

    def over(self, i, f):
        old = self.bind.get(i)
        out = []
        try:
            for k in self.range_of(i):
                self.bind[i] = k
                out.append(f())
        finally:
            if old is None:
                self.bind.pop(i, None)
            else:
                self.bind[i] = old
        return out

    def o_sum(self, t, ix):
        i, e = t.args
        acc = 0
        for v in self.over(i, lambda: self.ev(e, ix)):
            acc = self.lift(lambda a, b: a + b, acc, v)
        return acc

    def o_prod(self, t, ix):
        i, e = t.args
        acc = 1
        for v in self.over(i, lambda: self.ev(e, ix)):
            acc = self.lift(lambda a, b: a * b, acc, v)
        return acc

    def o_exists(self, t, ix):
        i, c = t.args
        return any(self.over(i, lambda: self.truth(c)))

    def o_forall(self, t, ix):
        i, c = t.args
        return all(self.over(i, lambda: self.truth(c)))

    def o_firstof(self, t, ix):
        i, c, v = t.args
        old = self.bind.get(i)
        try:
            for k in self.range_of(i):
                self.bind[i] = k
                if self.truth(c):
                    return self.ev(v, ix)
        finally:
            if old is None:
                self.bind.pop(i, None)
            else:
                self.bind[i] = old
        return None

    def o_last(self, t, ix):
        i, v1, v0 = t.args
        r = self.range_of(i)
        if len(r) == 0:
            return self.ev(v0, ix)
        old = self.bind.get(i)
        try:
            self.bind[i] = r[-1]
            return self.ev(v1, ix)
        finally:
            if old is None:
                self.bind.pop(i, None)
            else:
                self.bind[i] = old

    def o_comp(self, t, ix):
        kind, loops, c, e = t.args
        out = []

        def rec(k):
            if k == len(loops):
                if self.truth(c):
                    out.append(self.ev(e))
                return
            self.over(loops[k], lambda: rec(k + 1))

        rec(0)
        return self.pick(tuple(out), ix)

    def o_chain(self, t, ix):
        out = []
        for a in t.args:
            v = self.ev(a)
            out.extend(v if isinstance(v, tuple) else (v,))
        return self.pick(tuple(out), ix)

    def o_append(self, t, ix):
        a = self.ev(t.args[0])
        b = self.ev(t.args[1])
        if isinstance(a, tuple) and not _is_token(a):
            return self.pick(a + (b,), ix)
        return self.H("append", a, b, ix)

    def o_bcval(self, t, ix):
        return self.ev(t.args[0], None)

    def o_scatter(self, t, ix):
        loops, base, pat, val = t.args
        pat = pat.args
        if ix is None:
            nd = len(pat)
            rx = []
            for k, p in enumerate(pat):
                rx.append(self.pos[k % 3])
            if not loops and all(is_const(p) for p in pat):
                # fixed cells: fingerprint the whole array
                return self.whole(t)
            if any(is_const(p) for p in pat):
                return self.whole(t)
            ix = tuple(rx)
        if any(isinstance(r, int) and r < 0 for r in ix):
            n = [self.dim(base, k) for k in range(len(ix))]
            ix = tuple(r + m if isinstance(r, int) and r < 0 and m is not None else r for r, m in zip(ix, n))
        m, rest = self.match(loops, pat, ix, base)
        if m == "dead":
            return self.ev(base, ix)
        if m is None:
            return self.ev(base, ix)
        old = {i: self.bind.get(i) for i in m}
        try:
            self.bind.update(m)
            if rest is not None and len(rest) > 1:
                # the value of a store is aligned with the last axes of the cells
                r = self.rank(val)
                if r is not None and r < len(rest):
                    rest = tuple(rest)[len(rest) - r:]
            return self.ev(val, rest)
        finally:
            for i, v in old.items():
                if v is None:
                    self.bind.pop(i, None)
                else:
                    self.bind[i] = v

    def whole(self, t):
        """Fingerprint of an array filled cell by cell: the columns it defines."""
        cells = set()
        x = t
        last = None
        while x.op == "scatter":
            for p in x.args[2].args[-1:]:
                if is_const(p) and isinstance(p.args[0], int):
                    cells.add(p.args[0])
            last = x
            x = x.args[1]
        nd = len(t.args[2].args)
        out = []
        for k in sorted(cells):
            out.append(self.ev(t, (self.pos[0],) * (nd - 1) + (k,)))
        return tuple(out)

    def match(self, loops, pat, ix, base):
        """Loop values (dict) for which the store writes cell ix; None if it does not."""
        m = {}
        rest = list(ix)
        extra = []
        todo = []
        spans = []  # slices whose ends depend on the loops

        def within(p, axis, r):
            n = self.dim(base, axis)
            if n is None:
                raise Undecided("length")
            lo, hi, st = (None if a is NONE else self.int(self.ev(a)) for a in p.args)
            rng = range(n)[slice(lo, hi, st)]
            return rng.index(r) if isinstance(r, int) and r in rng else None

        for axis, p in enumerate(pat):
            if p.op == "slice":
                if not rest:
                    extra.append(self.pos[axis % 3])
                    continue
                r = rest.pop(0)
                if p.args[0] is NONE and p.args[1] is NONE and p.args[2] is NONE:
                    extra.append(r)
                    continue
                if loops and not free_syms(p).isdisjoint(loops):
                    spans.append((p, axis, r, len(extra)))
                    extra.append(r)
                    continue
                k = within(p, axis, r)
                if k is None:
                    return None, None
                extra.append(k)
                continue
            if is_const(p) and p.args[0] is Ellipsis:
                extra.extend(rest)
                rest = []
                continue
            if self.I.is_mask(p) and p.op != "const":
                if not rest:
                    rest = [self.pos[axis % 3]]
                r = rest.pop(0)
                if not self.truth(p, (r,)):
                    return None, None
                sel = self.positions(p)
                extra.append(sel.index(r) if sel is not None and r in sel else r)
                continue
            if not rest:
                return None, None
            todo.append((p, rest.pop(0)))
        later = []
        for p, r in todo:
            if p in loops:
                if p in m and m[p] != r:
                    return None, None
                m[p] = r
            else:
                later.append((p, r))
        free = [i for i in loops if i not in m]
        # check ranges and solve remaining loops by enumeration (later iterations win)
        found = [None]

        def rec(k):
            if found[0] is not None:
                return
            if k == len(free):
                for i in m:
                    self.bind[i] = m[i]
                for p, r in later:
                    v = self.ev(p)
                    if not _eq(v, r):
                        return
                for p, axis, r, at in spans:
                    v = within(p, axis, r)
                    if v is None:
                        return
                    extra[at] = v
                found[0] = {**m, **{i: self.bind[i] for i in free}}
                return
            i = free[k]
            for v in reversed(self.range_of(i)):
                self.bind[i] = v
                rec(k + 1)
                if found[0] is not None:
                    return

        old = {i: self.bind.get(i) for i in loops}
        try:
            # outer loops first so that ranges depending on them can be evaluated
            for i in loops:
                if i in m:
                    if isinstance(m[i], int):
                        self.bind[i] = m[i]
            for i in loops:
                if i in m and isinstance(m[i], int) and m[i] not in self.range_of(i):
                    rg = self.range_of(i)
                    return None, None
            rec(0)
        finally:
            for i, v in old.items():
                if v is None:
                    self.bind.pop(i, None)
                else:
                    self.bind[i] = v
        if found[0] is None:
            return None, None
        rest = tuple(extra) + tuple(rest)
        return found[0], (rest or None)

    def store_block(self, st, base, pats, val):
        """Assignment of one iteration to a block of cells."""
        axes = []
        for axis, p in enumerate(pats):
            if p.op == "slice":
                n = self.dim(base, axis)
                lo, hi, step = (None if a is NONE else self.int(self.ev(a)) for a in p.args)
                axes.append(range(n if n is not None else 3)[slice(lo, hi, step)])
            else:
                v = self.ev(p)
                if not isinstance(v, int) or isinstance(v, bool):
                    raise Undecided("block")
                axes.append(v)
        spans = [k for k, a in enumerate(axes) if isinstance(a, range)]
        new = {}
        for sub in itertools.product(*(range(len(axes[k])) for k in spans)):
            cell = list(axes)
            for k, r in zip(spans, sub):
                cell[k] = axes[k][r]
            new[tuple(cell)] = self.ev(val, sub)
        st.cells.update(new)

    def o_recarr(self, t, ix):
        loops, base, pat, val, m = t.args
        key = ("store", t.uid, tuple(sorted((f.uid, repr(_hk(self.bind[f]))) for f in free_syms(t) if f in self.bind)))
        st = self.memo.get(key)
        if st is None:
            st = Store(base)
            self.memo[key] = st
            olds = {i: self.bind.get(i) for i in loops}
            oldm = self.bind.get(m)
            self.bind[m] = st
            try:
                def rec(k):
                    if k == len(loops):
                        st.version += 1
                        if any(p.op == "slice" for p in pat.args):
                            self.store_block(st, base, pat.args, val)
                            st.version += 1
                            return
                        ixv = tuple(self.ev(p) for p in pat.args)
                        if len(ixv) == 1 and _places(ixv[0]):
                            new = [self.ev(val, (r,)) for r in range(len(ixv[0]))]
                            for r, k in enumerate(ixv[0]):
                                st.cells[(k,)] = new[r]
                        else:
                            st.cells[ixv] = self.ev(val)
                        st.version += 1
                        return
                    for v in self.range_of(loops[k]):
                        self.bind[loops[k]] = v
                        rec(k + 1)

                rec(0)
            finally:
                for i, v in olds.items():
                    if v is None:
                        self.bind.pop(i, None)
                    else:
                        self.bind[i] = v
                if oldm is None:
                    self.bind.pop(m, None)
                else:
                    self.bind[m] = oldm
        if ix is None and len(pat.args) == 1:
            ix = (self.pos[0],)  # the element that stands for the array
        return st.read(ix, self)

    def o_rec(self, t, ix):
        i, name, v0, v1 = t.args
        closed = self.I.loop_info[i.args[0]].get("closed")
        if closed is None:
            return self.generic(t, ix)
        for m, (a, b) in closed["vars"].items():
            if a is v0 and b is v1:
                return self.run_loop(i, closed, None, 40)[m].read(ix, self)
        for m in closed["vars"]:
            if m.args[1] == name.args[0]:
                return self.run_loop(i, closed, None, 40)[m].read(ix, self)
        own = [m for m in free_syms(v1) if m.op == "mu" and m.args[0] == i.args[0]]
        if len(own) == 1:
            return self.run_loop(i, {"vars": {own[0]: (v0, v1)}}, None, 40)[own[0]].read(ix, self)
        raise Undecided("rec")

    def run_loop(self, i, closed, cond, bound, upto=None):
        """Values carried by a loop after its last iteration (lazily indexed)."""
        mus = closed["vars"]
        free = closed.get("free")
        if free is None:
            free = frozenset().union(*(free_syms(x) for vv in mus.values() for x in vv),
                                     *([free_syms(cond)] if cond is not None else []))
            lid = i.args[0]
            closed["free"] = free = frozenset(
                x for x in free if x is not i and not (x.op == "mu" and x.args[0] == lid))
        key = ("run", i.uid, upto, len(mus), sum(m.uid for m in mus), tuple(sorted((f.uid, repr(_hk(self.bind[f]))) for f in free if f in self.bind)))
        out = self.memo.get(key)
        if isinstance(out, Exception):
            raise out
        if out is not None:
            return out
        snap = {f: self.bind[f] for f in free if f in self.bind}
        cur = {m: Thunk(v0, dict(snap)) for m, (v0, _) in mus.items()}
        old = {m: self.bind.get(m) for m in mus}
        oldi = self.bind.get(i)
        try:
            if upto is not None:
                rng = range(min(self.range_of(i).start if cond is None else 0, upto), upto)
            else:
                rng = range(bound) if cond is not None else self.range_of(i)
            done = cond is None
            for k in rng:
                self.bind[i] = k
                self.bind.update(cur)
                if cond is not None and not self.truth(cond):
                    done = True
                    break
                b = dict(snap)
                b[i] = k
                b.update(cur)
                cur = {m: Thunk(v1, b) for m, (_, v1) in mus.items()}
            if not done:
                raise Undecided("long loop")
        except Undecided as e:
            self.memo[key] = e
            raise
        finally:
            for m, v in list(old.items()) + [(i, oldi)]:
                if v is None:
                    self.bind.pop(m, None)
                else:
                    self.bind[m] = v
        self.memo[key] = cur
        return cur

    def o_loopval(self, t, ix):
        i, name, v0, v1 = t.args
        info = self.I.loop_info[i.args[0]]
        c = info.get("cond")
        closed = info.get("closed")
        if closed is not None and (c is not None or info.get("hi") is not None or info.get("iter") is not None):
            lid = i.args[0]
            for m, (a, b) in closed["vars"].items():
                if a is v0 and b is v1 and (m.args[1] == name.args[0] or isinstance(m.args[1], tuple)):
                    return self.run_loop(i, closed, c, 40)[m].read(ix, self)
            grown = v1
            while grown.op == "append":
                grown = grown.args[0]
            if grown.op == "mu" and grown.args[0] == lid and grown not in closed["vars"]:
                # a list that grows along with the other variables of the loop
                both = {"vars": {**closed["vars"], grown: (v0, v1)}}
                return self.run_loop(i, both, c, 40)[grown].read(ix, self)
            own = [m for m in free_syms(v1) if m.op == "mu" and m.args[0] == lid]
            if c is None and len(own) == 1:
                return self.run_loop(i, {"vars": {own[0]: (v0, v1)}}, None, 40)[own[0]].read(ix, self)
        return self.H("loopval", str(name.args[0]), self.fp(v0), self.fp(v1), self.fp(c) if c is not None else 0, ix)

    # calls -------------------------------------------------------------------

    def o_call(self, t, ix):
        f, args, kw = t.args
        n = callee_name(f)
        kwd = {k: v for k, v in kw}
        if n in ("numpy.ravel", "numpy.flatten") and ix is not None and args and isinstance(ix[0], int):
            m = self.rank2(args[0])
            if m is not None:
                return self.ev(args[0], (ix[0] // m, ix[0] % m) + tuple(ix[1:]))
        if n == "numpy.reshape" and len(args) == 2 and ix is not None and len(ix) == 2 and args[1].op in ("tuple", "item", "attr"):
            m = self.shape_dim(args[1], 1)
            if isinstance(m, int) and m > 0 and all(isinstance(k, int) for k in ix) and self.rank2(args[0]) is None:
                return self.ev(args[0], (ix[0] * m + ix[1],))
        if n in ("builtins.tuple", "builtins.list") and len(args) == 1 and args[0].op == "dict":
            r = self.f_dict_keys(t, args, kwd, ix)
            if r is not NotImplemented:
                return r
        if n in IDENTITY and args:
            if kwd.get("order") is not None or n == "numpy.reshape" and len(args) > 2 and False:
                pass
            else:
                return self.ev(args[0], ix)
        if n in UNARY and len(args) == 1:
            return self.lift(UNARY[n], self.ev(args[0], ix))
        if n in BINARY and len(args) == 2 and not kw:
            return self.lift(BINARY[n], self.ev(args[0], ix), self.ev(args[1], ix))
        m = getattr(self, "f_" + n.replace(".", "_"), None)
        if m is not None:
            r = m(t, args, kwd, ix)
            if r is not NotImplemented:
                return r
        if f.op == "attr":
            if f.args[1] == "as_matrix":
                r = self.rotation(t)
                if r is not None:
                    return self.pick(r, ix)
            return self.method(t, f.args[0], f.args[1], args, kwd, ix)
        vals = tuple(self.fp(a) for a in args)
        kv = tuple(sorted((k, self.num(self.fp(v))) for k, v in kwd.items()))
        if n.startswith("<"):
            vals = (self.fp(f),) + vals
        elif f.op == "func":
            n = "func:" + n
        return self.H("call:" + n, vals, kv, ix or (self.pos[0],)) if ix is not None else self.H(
            "call:" + n, vals, kv, (self.pos[0],)
        )

    def method(self, t, base, name, args, kwd, ix):
        if name in ("index", "count") and len(args) == 1 and not kwd:
            v, x = self.ev(base), self.ev(args[0])
            if isinstance(v, tuple) and not _is_token(v) and name == "count":
                return v.count(x)
            if isinstance(v, tuple) and not _is_token(v) and x in v:
                return v.index(x)
        if name in ("item", "tolist", "to_numpy", "squeeze", "compute", "load"):
            return self.ev(base, ix)
        if name in ("total_seconds", "isoformat", "toordinal", "date", "timetuple") and not args and not kwd:
            v = self.ev(base)
            if isinstance(v, (datetime.date, datetime.timedelta)):
                return getattr(v, name)()
        if name in ("startswith", "endswith", "lower", "upper", "strip", "replace", "title", "capitalize", "split",
                    "removeprefix", "removesuffix", "join", "lstrip", "rstrip", "isdigit", "find") and not kwd:
            v, xs = self.ev(base), [self.ev(a) for a in args]
            if isinstance(v, str) and not v.startswith("<") and all(isinstance(x, (str, int, tuple)) and not _is_token(x)
                                                                   for x in xs):
                r = getattr(v, name)(*xs)
                return tuple(r) if isinstance(r, list) else r
        if name == "geodetic_to_spherical" and len(args) == 1 and ix and ix[0] in (0, 1, 2):
            return self.geocentric(base, args[0], ix[0], tuple(ix[1:]) or None)
        if name == "transpose":
            v = self.ev(base, None)
            return self.H("get", v, "", (tuple(self.fp(a) for a in args),), ix or (self.pos[0],))
        if name in ("isnull",):
            return self.nanof(base, ix)
        if name == "assign_coords":
            # the order in which coordinates are assigned does not matter
            new = {}
            while True:
                now = [("dict", *((k, self.fp(v)) for k, v in kwd.items()))] + [self.fp(a) for a in args]
                for d in now:
                    if not (isinstance(d, tuple) and d and d[0] == "dict" and all(
                            isinstance(x, tuple) and len(x) == 2 for x in d[1:])):
                        raise Undecided("assigned coordinates")
                    for k, v in d[1:]:
                        new.setdefault(k, v)
                if not (base.op == "call" and base.args[0].op == "attr" and base.args[0].args[1] == name):
                    break
                args, kwd, base = base.args[1], dict(base.args[2]), base.args[0].args[0]
            return self.H("assign_coords", self.ev(base, ix), tuple(sorted(new.items(), key=repr)))
        vals = tuple(self.fp(a) for a in args)
        kv = tuple(sorted((k, self.num(self.fp(v))) for k, v in kwd.items()))
        return self.H("method:" + name, self.fp(base), vals, kv, ix or (self.pos[0],))

    def geocentric(self, ellipsoid, coords, k, ix):
        """Geocentric position of a geodetic one: the longitude is kept, the poles stay where they are."""
        def c(n):
            return self.ev(coords.args[n] if coords.op == "tuple" else mk("item", coords, const(n)), ix)

        if k == 0:
            return c(0)
        f = abs(self.num(self.H("flattening", self.fp(ellipsoid)))) % 1.0

        def latitude(lat, h):
            return lat - (0.1 + 0.1 * f) * math.sin(2 * math.radians(lat)) * (1 - 1e-8 * h)

        def radius(lat, h):
            return 6.37e6 + h - (2e4 + 1e3 * f) * math.sin(math.radians(lat)) ** 2

        return self.lift(latitude if k == 1 else radius, c(1), c(2))

    def f_bordado_grid_coordinates(self, t, args, kw, ix):
        """Rows of equal latitude, columns of equal longitude, constant extra coordinate."""
        if not ix or ix[0] not in (0, 1, 2) or not (len(ix) == 3 or ix[0] == 2):
            return NotImplemented
        if ix[0] == 2:
            h = kw.get("non_dimensional_coords")
            return NotImplemented if h is None else self.ev(h)
        inputs = tuple(self.fp(a) for a in args) + tuple(sorted((k, self.num(self.fp(v))) for k, v in kw.items()
                                                                if k != "non_dimensional_coords"))
        u = abs(self.num(self.H("grid line", ix[0], ix[2 - ix[0]], inputs))) % 1.0
        return -180.0 + 540.0 * u if ix[0] == 0 else -90.0 if u < 0.1 else 90.0 if u > 0.9 else -90.0 + 180.0 * u

    def f_bordado_rolling_window(self, t, args, kw, ix):
        """Three windows, each with the indices of the points inside: none, some, or all of them."""
        if ix is None or not ix or ix[0] != 1 or not args:
            return NotImplemented
        coords = args[0]
        first = mk("item", coords, const(0)) if coords.op != "tuple" else coords.args[0]
        n = self.dim(first, 0)
        if n is None:
            return NotImplemented
        inputs = (self.fp(coords),) + tuple(sorted((k, self.num(self.fp(v))) for k, v in kw.items()))
        out = []
        for k in range(3):
            kind = _h(self.seed, "window", k, inputs) % 4
            inside = [j for j in range(n) if kind == 3 or kind and _h(self.seed, "inside", k, j, inputs) % 2]
            out.append((tuple(inside),))
        return self.pick(tuple(out), ix[1:] or None)

    def f_sklearn_utils_shuffle(self, t, args, kw, ix):
        v = [self.ev(a) for a in args]
        if not all(isinstance(x, tuple) and not _is_token(x) for x in v) or set(kw) - {"random_state"}:
            return NotImplemented
        state = self.num(self.fp(kw["random_state"])) if "random_state" in kw else "global"
        out = tuple(tuple(x[j] for j in sorted(range(len(x)), key=lambda j: _h(self.seed, "shuffle", j, state)))
                    for x in v)
        return self.pick(out, ix)

    def f_numpy_median(self, t, args, kw, ix):
        if kw or len(args) > 1:
            return NotImplemented
        v = sorted(self.elements(args[0]))
        return (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2

    def windows_in(self, t):
        """The term selects from the windows of a rolling window."""
        m = _WINDOWS.get(t.uid)
        if m is None:
            m = _WINDOWS[t.uid] = any(
                x.op == "call" and callee_name(x.args[0]) == "bordado.rolling_window" for x in walk(t))
        return m

    def f_datetime_datetime(self, t, args, kw, ix):
        a = [self.ev(x) for x in args]
        k = {n: self.ev(x) for n, x in kw.items()}
        try:
            return datetime.datetime(*a, **k)
        except (TypeError, ValueError):
            return NotImplemented

    def f_datetime_datetime_fromisoformat(self, t, args, kw, ix):
        v = self.ev(args[0])
        return datetime.datetime.fromisoformat(v) if isinstance(v, str) else NotImplemented

    def f_datetime_timedelta(self, t, args, kw, ix):
        try:
            return datetime.timedelta(*[self.ev(x) for x in args], **{n: self.ev(x) for n, x in kw.items()})
        except TypeError:
            return NotImplemented

    def f_xrft_ifft(self, t, args, kw, ix):
        # a complex array, even of the spectrum of real data
        h = ("call:xrft.ifft", tuple(self.fp(a) for a in args), tuple(sorted((k, self.num(self.fp(v)))
                                                                            for k, v in kw.items())), ix or (self.pos[0],))
        return complex(self.H(*h), self.H("imag", *h))

    def f_dict_keys(self, t, args, kw, ix):
        v = self.ev(args[0])
        if isinstance(v, tuple) and v and v[0] == "dict" and all(isinstance(x, tuple) and len(x) == 2 for x in v[1:]):
            return self.pick(tuple(x[0] for x in v[1:]), ix)
        return NotImplemented

    def nanof(self, t, ix):
        op = t.op
        if op in ("+", "-", "*", "/", "**", "neg"):
            return any(self.truthv(self.nanof(a, ix)) for a in t.args)
        if op == "const":
            v = t.args[0]
            return isinstance(v, float) and v != v
        if op == "call":
            n = callee_name(t.args[0])
            if n in IDENTITY or n in UNARY or n == "numpy.astype":
                return self.nanof(t.args[1][0], ix)
            if n in ("numpy.min", "numpy.max", "numpy.sum", "numpy.mean") and len(t.args[1]) == 1 and not t.args[2]:
                return self.f_numpy_any(None, [mk("call", mk("ext", "numpy.isnan"), t.args[1], ())], {}, None)
        if op in ("withattrs", "bcast"):
            return self.nanof(t.args[0], ix)
        if op == "attr" and t.args[1] in ("values", "data"):
            return self.nanof(t.args[0], ix)
        v = self.ev(t, ix)
        if self.grid_dims and _u(self.seed, "some nan") < 0.6:
            return self.lift(lambda x: isinstance(x, float) and x != x, v)

        def f(x):
            if isinstance(x, float) and x != x:
                return True
            return self.Hbool("isnan", x) and math.sin(31 * self.num(x)) > 0.3

        return self.lift(f, v)

    def f_numpy_isnan(self, t, args, kw, ix):
        return self.nanof(args[0], ix)

    def f_numpy_isfinite(self, t, args, kw, ix):
        return self.lift(lambda x: not x, self.nanof(args[0], ix))

    def f_numpy_where(self, t, args, kw, ix):
        if len(args) == 3:
            return self.sel(self.ev(args[0], ix), args[1], args[2], ix)
        return NotImplemented

    def f_numpy_astype(self, t, args, kw, ix):
        v = self.ev(args[0], ix)
        d = args[1] if len(args) > 1 else NONE
        from .lib import _int_dtype

        if _int_dtype(d) and not (d.op == "ext" and "bool" in d.args[0]):
            return self.lift(lambda x: math.trunc(x + math.copysign(1e-9, x)) if isinstance(x, float) else x, v)
        if d.op == "ext" and d.args[0] == "builtins.int":
            return self.lift(lambda x: math.trunc(x + math.copysign(1e-9, x)) if isinstance(x, float) else x, v)
        return v

    def f_builtins_int(self, t, args, kw, ix):
        v = self.ev(args[0])
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return math.trunc(v + math.copysign(1e-9, v))
        return self.int(v)

    def f_builtins_round(self, t, args, kw, ix):
        v = self.ev(args[0])
        if isinstance(v, (int, float)) and len(args) == 1:
            return round(v)
        return NotImplemented

    def _values(self, args):
        out = []
        for a in args:
            v = self.elements(a)
            out.extend(v)
        return out

    def elements(self, t, force=True):
        """All elements of an array term (first axis)."""
        if t.op == "call" and callee_name(t.args[0]) in ("numpy.concatenate", "numpy.hstack") and t.args[1]:
            x = t.args[1][0]
            if x.op in ("tuple", "list"):
                return [e for p in x.args for e in self.elements(p)]
        n = self.dim(t, 0)
        if n is None:
            v = self.ev(t)
            return list(_flatten(v)) if isinstance(v, tuple) and not _is_token(v) else [v]
        out = []
        m = self.rank2(t)
        for k in range(n) if m is None else [(k, j) for k in range(n) for j in range(m)]:
            v = self.ev(t, (k,) if m is None else k)
            if isinstance(v, tuple) and not _is_token(v):
                out.extend(_flatten(v))
            else:
                out.append(v)
        return out

    def _reduce(self, f, t, args, kw, ix):
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        extra = {k: v for k, v in kw.items() if k not in ("axis", "initial", "dtype")}
        if extra:
            return NotImplemented
        if axis is not None and axis is not NONE:
            ax = self.ev(axis)
            v = self.ev(args[0])
            if isinstance(v, tuple) and not _is_token(v) and ax == 0:
                acc = None
                for x in v:
                    acc = x if acc is None else self.lift(lambda p, q: f([p, q]), acc, x)
                return self.pick(acc, ix)
            return NotImplemented
        return f(self.elements(args[0]))

    def f_numpy_sum(self, t, args, kw, ix):
        return self._reduce(lambda v: sum(v), t, args, kw, ix)

    def f_numpy_nansum(self, t, args, kw, ix):
        return self._reduce(lambda v: sum(x for x in v if x == x), t, args, kw, ix)

    def f_numpy_mean(self, t, args, kw, ix):
        if kw or len(args) > 1:
            return NotImplemented
        v = self.elements(args[0])
        return sum(v) / len(v)

    def f_numpy_max(self, t, args, kw, ix):
        return self._reduce(lambda v: max(v) if all(x == x for x in v) else math.nan, t, args, kw, ix)

    def f_numpy_min(self, t, args, kw, ix):
        return self._reduce(lambda v: min(v) if all(x == x for x in v) else math.nan, t, args, kw, ix)

    def f_numpy_nanmax(self, t, args, kw, ix):
        return self._reduce(lambda v: max([x for x in v if x == x] or [math.nan]), t, args, kw, ix)

    def f_numpy_nanmin(self, t, args, kw, ix):
        return self._reduce(lambda v: min([x for x in v if x == x] or [math.nan]), t, args, kw, ix)

    def f_numpy_any(self, t, args, kw, ix):
        return self._reduce(lambda v: any(self.truthv(x) for x in v), t, args, kw, ix)

    def f_numpy_all(self, t, args, kw, ix):
        return self._reduce(lambda v: all(self.truthv(x) for x in v), t, args, kw, ix)

    def f_builtins_any(self, t, args, kw, ix):
        return any(self.truthv(x) for x in self.elements(args[0]))

    def f_builtins_all(self, t, args, kw, ix):
        return all(self.truthv(x) for x in self.elements(args[0]))

    def f_builtins_max(self, t, args, kw, ix):
        return max(self._values(args))

    def f_builtins_min(self, t, args, kw, ix):
        return min(self._values(args))

    def f_builtins_sum(self, t, args, kw, ix):
        return sum(self._values(args[:1]))

    def f_builtins_len(self, t, args, kw, ix):
        d = self.dim(args[0], 0)
        return d if d is not None else NotImplemented

    def f_math_prod(self, t, args, kw, ix):
        x = args[0]
        if x.op == "attr" and x.args[1] == "shape":
            return self.size(x.args[0])
        v = self.ev(x)
        if isinstance(v, tuple) and not _is_token(v):
            acc = 1
            for e in v:
                acc *= e
            return acc
        return NotImplemented

    f_numpy_prod = f_math_prod

    def f_numpy_isclose(self, t, args, kw, ix):
        rtol = self.ev(kw["rtol"]) if "rtol" in kw else (self.ev(args[2]) if len(args) > 2 else 1e-5)
        atol = self.ev(kw["atol"]) if "atol" in kw else (self.ev(args[3]) if len(args) > 3 else 1e-8)
        return self.lift(lambda a, b: abs(a - b) <= atol + rtol * abs(b), self.ev(args[0], ix), self.ev(args[1], ix))

    def f_numpy_allclose(self, t, args, kw, ix):
        rtol = self.ev(kw["rtol"]) if "rtol" in kw else 1e-5
        atol = self.ev(kw["atol"]) if "atol" in kw else 1e-8
        a, b = self.elements(args[0]), self.elements(args[1])
        if len(b) == 1:
            b = b * len(a)
        if len(a) == 1:
            a = a * len(b)
        return all(abs(x - y) <= atol + rtol * abs(y) for x, y in zip(a, b))

    def f_numpy_clip(self, t, args, kw, ix):
        if len(args) == 3:
            return self.lift(lambda x, a, b: min(max(x, a), b), *(self.ev(a, ix) for a in args))
        return NotImplemented

    def f_numpy_sort(self, t, args, kw, ix):
        if kw:
            return NotImplemented
        v = sorted(self.elements(args[0]))
        return self.pick(tuple(v), ix) if ix is not None else tuple(v)

    f_builtins_sorted = f_numpy_sort

    def f_numpy_flip(self, t, args, kw, ix):
        if kw or len(args) > 1:
            return NotImplemented
        v = self.ev(args[0])
        if isinstance(v, tuple) and not _is_token(v):
            return self.pick(tuple(reversed(v)), ix)
        n = self.dim(args[0], 0)
        if n is None or self.rank2(args[0]) is not None:
            return NotImplemented
        k = (ix or (self.pos[0],))[0]
        return self.ev(args[0], (n - 1 - k,)) if isinstance(k, int) else NotImplemented

    def f_numpy_linalg_inv(self, t, args, kw, ix):
        m = self.dense(t)
        if m is None:
            return NotImplemented
        return self.pick(m, ix)

    f_scipy_linalg_inv = f_numpy_linalg_pinv = f_scipy_linalg_pinv = f_numpy_linalg_inv

    def f_scipy_sparse_hstack(self, t, args, kw, ix):
        m = self.dense(t) if not kw and self.rank(t) == 2 else None
        return NotImplemented if m is None else self.pick(m, ix)

    f_scipy_sparse_diags = f_scipy_sparse_diags_array = f_scipy_sparse_hstack

    def f_numpy_argmin(self, t, args, kw, ix):
        x = args[0]
        if len(args) > 1 or kw or x.op not in ("tuple", "list"):
            return NotImplemented
        v = [self.ev(e) for e in x.args]
        if not v or any(not isinstance(e, (int, float)) or e != e for e in v):
            return NotImplemented
        return v.index((max if callee_name(t.args[0]).endswith("argmax") else min)(v))

    f_numpy_argmax = f_numpy_argmin

    def f_numpy_concatenate(self, t, args, kw, ix):
        x = args[0]
        if len(args) > 1 or kw or x.op not in ("tuple", "list"):
            return NotImplemented
        k = ix[0] if ix else self.pos[0]
        if not isinstance(k, int):
            return NotImplemented
        n = [self.dim(e, 0) for e in x.args]
        if any(self.rank(e) is None for e in x.args) or None in n:
            return NotImplemented
        k %= sum(n)
        for e, m in zip(x.args, n):
            if k < m:
                return self.ev(e, (k,) + tuple(ix or ())[1:])
            k -= m

    def f_numpy_linalg_norm(self, t, args, kw, ix):
        if len(args) == 1 and not kw and self.rank(args[0]) == 1 and self.dense(args[0]) is not None:
            return math.sqrt(sum(abs(x) ** 2 for x in self.dense(args[0])))
        ax = self.ev(kw["axis"]) if "axis" in kw else 0
        if set(kw) - {"axis"} or len(args) > 1 or ax != 0:
            return NotImplemented
        v = self.ev(args[0])
        if isinstance(v, tuple) and not _is_token(v):
            if any(isinstance(x, tuple) for x in v) and "axis" in kw:
                return NotImplemented
            acc = sum(abs(x) ** 2 for x in _flatten(v))
            return math.sqrt(acc)
        if args[0].op == "param" or True:
            return NotImplemented

    def f_numpy_dot(self, t, args, kw, ix):
        return self.matmul(args[0], args[1], ix)

    def f_numpy_stack(self, t, args, kw, ix):
        if kw or len(args) > 1:
            return NotImplemented
        return self.ev(args[0], ix)

    f_numpy_vstack = f_numpy_stack

    def f_numpy_transpose(self, t, args, kw, ix):
        if len(args) == 1 and not kw:
            return self.o_attr(mk("attr", args[0], "T"), ix)
        return NotImplemented

    def f_numpy_arange(self, t, args, kw, ix):
        if set(kw) - {"dtype"}:
            return NotImplemented
        k = (ix or (self.pos[0],))[0]
        if not isinstance(k, int):
            return NotImplemented
        v = [self.ev(a) for a in args]
        lo = v[0] if len(v) > 1 else 0
        st = v[2] if len(v) > 2 else 1
        return lo + k * st

    def f_builtins_range(self, t, args, kw, ix):
        return self.f_numpy_arange(t, args, kw, ix)

    def f_numpy_linspace(self, t, args, kw, ix):
        a = {"start": 0, "stop": 1, "num": 2}
        d = {n: (args[k] if len(args) > k else kw.get(n)) for n, k in a.items()}
        if set(kw) - set(a) or None in d.values():
            return NotImplemented
        k = (ix or (self.pos[0],))[0]
        if not isinstance(k, int):
            return NotImplemented
        s, e, n = (self.ev(d[x]) for x in ("start", "stop", "num"))
        return self.lift(lambda s, e, n: s + k * (e - s) / (n - 1), s, e, n)

    def f_numpy_meshgrid(self, t, args, kw, ix):
        if len(args) != 2 or ix is None or not isinstance(ix[0], int):
            return NotImplemented
        ij = "indexing" in kw and self.ev(kw["indexing"]) == "ij"
        which = ix[0]
        i = ix[1] if len(ix) > 1 else self.pos[0]
        j = ix[2] if len(ix) > 2 else self.pos[1]
        if which not in (0, 1):
            return NotImplemented
        use_first = (which == 0) if ij else (which == 1)
        return self.ev(args[which], (i if use_first else j,))

    def f_numpy_diag(self, t, args, kw, ix):
        if len(args) != 1 or kw:
            return NotImplemented
        n = self.dim(args[0], 0) if self.rank(args[0]) == 1 else None
        v = tuple(self.ev(args[0], (k,)) for k in range(n)) if n and n < 8 else self.ev(args[0])
        if isinstance(v, tuple) and not _is_token(v) and not any(isinstance(x, tuple) for x in v):
            n = len(v)
            return self.pick(tuple(tuple(v[r] if r == c else 0 for c in range(n)) for r in range(n)), ix)
        return NotImplemented

    def f_numpy_identity(self, t, args, kw, ix):
        n = self.ev(args[0])
        if isinstance(n, int) and n < 8:
            return self.pick(tuple(tuple(1 if r == c else 0 for c in range(n)) for r in range(n)), ix)
        return NotImplemented

    f_numpy_eye = f_numpy_identity

    def f_numpy_full(self, t, args, kw, ix):
        return self.ev(args[1])

    def f_numpy_broadcast_to(self, t, args, kw, ix):
        if len(args) == 2 and args[1].op == "tuple" and len(args[1].args) == 2 and self.rank2(args[0]) is None:
            i = self.pos[:2] if ix is None else ix
            return self.ev(args[0], tuple(i[1:]) if len(i) == 2 else ix)
        return self.ev(args[0], ix)

    def f_numpy_isscalar(self, t, args, kw, ix):
        v = self.ev(args[0])
        if isinstance(v, (tuple,)):
            return False
        if args[0].op == "param":
            if "scalar" in args[0].args[1:]:
                return True
            return _u(self.seed, "isscalar", args[0].args[0]) < 0.5
        return self.Hbool("isscalar", v)

    def f_builtins_callable(self, t, args, kw, ix):
        v = self.ev(args[0])
        return isinstance(v, tuple) and len(v) > 0 and v[0] in ("callable", "func", "cls")

    def f_builtins_divmod(self, t, args, kw, ix):
        a, b = self.ev(args[0]), self.ev(args[1])
        if b == 0:
            raise Dead("divmod")
        q = math.floor(a / b)
        return self.pick((q, a - q * b), ix)

    def f_numpy_cross(self, t, args, kw, ix):
        a, b = self.ev(args[0]), self.ev(args[1])
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3:
            return self.pick(
                (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]), ix
            )
        return NotImplemented

    def o_matmul(self, t, ix):
        return self.matmul(t.args[0], t.args[1], ix)

    def rank(self, t):
        """Number of axes of an array, if known."""
        for k in range(4):
            if self.dim(t, k) is None:
                return k
        return None

    def product_dim(self, a, b, k):
        """Length of an axis of a matrix product, or 0 when it is not known."""
        ra, rb = self.rank(a), self.rank(b)
        if not ra or not rb:
            return 0
        if rb == 1:
            return self.dim(a, k) if k < ra - 1 else None
        if ra == 1:
            return self.dim(b, k if k < rb - 2 else k + 1) if k < rb - 1 else None
        r = max(ra, rb)
        if k >= r:
            return None
        if k == r - 1:
            return self.dim(b, rb - 1)
        if k == r - 2:
            return self.dim(a, ra - 2)
        return self.bdim([x for x, n in ((a, ra), (b, rb)) if n == r], k)

    def dense(self, t):
        """The elements of a vector or matrix of known shape as nested tuples, or None."""
        if free_syms(t):
            return self._dense(t)
        key = ("dense", t.uid)
        m = self.memo.get(key, self)
        if m is self:
            m = self.memo[key] = self._dense(t)
        return m

    def _dense(self, t):
        r = self.rank(t)
        if r not in (1, 2):
            return None
        n = [self.dim(t, k) for k in range(r)]
        if math.prod(n) > 2000:
            return None
        name = callee_name(t.args[0]) if t.op == "call" else ""
        if t.op == "@" or name in ("numpy.matmul", "numpy.dot"):
            a, b = t.args if t.op == "@" else t.args[1]
            return self.multiply(a, b)
        if t.op == "attr" and t.args[1] == "T":
            m = self.dense(t.args[0])
            return m if m is None or r == 1 else tuple(zip(*m))
        if name in INVERSES:
            m = self.dense(t.args[1][0])
            return m and _inverse(m)
        if name in DIAGONALS:
            m = self.dense(t.args[1][0])
            return m and tuple(tuple(x if i == j else 0 for j in range(len(m))) for i, x in enumerate(m))
        if name == "scipy.sparse.hstack":
            parts = [self.dense(x) for x in t.args[1][0].args]
            return None if None in parts else tuple(sum(rows, ()) for rows in zip(*parts))
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("toarray", "todense", "tocsr", "tocsc"):
            return self.dense(t.args[0].args[0])
        if t.op == "neg":
            m = self.dense(t.args[0])
            if m is not None:
                return tuple(tuple(-x for x in row) for row in m) if r == 2 else tuple(-x for x in m)
        if r == 1:
            m = tuple(self.ev(t, (i,)) for i in range(n[0]))
        else:
            m = tuple(tuple(self.ev(t, (i, j)) for j in range(n[1])) for i in range(n[0]))
        bad = (tuple, str, Store, Thunk)
        return None if any(isinstance(x, bad) for row in m for x in (row if r == 2 else (row,))) else m

    def multiply(self, a, b):
        """The product of two vectors or matrices, or None."""
        x, y = self.dense(a), self.dense(b)
        if x is None or y is None:
            return None
        first, second = isinstance(x[0], tuple), isinstance(y[0], tuple)
        if len(x[0] if first else x) != len(y):
            raise Dead("matmul")
        cols = tuple(zip(*y)) if second else (y,)
        rows = x if first else (x,)
        out = tuple(tuple(sum(p * q for p, q in zip(row, col)) for col in cols) for row in rows)
        if not second:
            out = tuple(row[0] for row in out)
        return out if first else out[0]

    def product(self, a, b, ix):
        """An element of a matrix product of arrays of known rank, or a small product as a whole."""
        ra, rb = self.rank(a), self.rank(b)
        if not ra or not rb or ra > 3 or rb > 3:
            return NotImplemented
        if ra < 3 and rb < 3 and not free_syms(a) and not free_syms(b):
            key = ("product", a.uid, b.uid)
            m = self.memo.get(key, self)
            if m is self:
                m = self.memo[key] = self.multiply(a, b)
            if m is not None:
                k = tuple(ix or ())[:ra + rb - 2]
                if len(k) + 2 < ra + rb and not (self.product_dim(a, b, len(k)) == 3 and len(k) + 4 >= ra + rb):
                    k += (self.pos[0],) * (ra + rb - 2 - len(k))
                for i in k:
                    if not isinstance(i, int) or not -len(m) <= i < len(m):
                        if isinstance(i, int) and ix is None:
                            i %= len(m)
                        else:
                            return NotImplemented
                    m = m[i]
                return m
        n, m = self.dim(a, ra - 1), self.dim(b, max(rb - 2, 0))
        if n != m:
            raise Dead("matmul")
        out = max(ra, rb) if min(ra, rb) > 1 else ra + rb - 2
        ix = tuple(ix or ())[:out] if out else ()
        if len(ix) < out:
            d = self.product_dim(a, b, len(ix))
            if d == 3 and len(ix) + 2 >= out:
                return tuple(self.product(a, b, ix + (r,)) for r in range(3))
            return self.product(a, b, ix + (self.pos[0] % (d or 2),))
        if not all(isinstance(k, int) for k in ix):
            return NotImplemented
        if rb == 1:
            left, right = (lambda k: ix + (k,)), (lambda k: (k,))
        elif ra == 1:
            left, right = (lambda k: (k,)), (lambda k: ix[:-1] + (k,) + ix[-1:])
        else:
            left = lambda k: ix[out - ra:-1] + (k,)
            right = lambda k: ix[out - rb:-2] + (k,) + ix[-1:]
        acc = 0
        for k in range(n):
            x, y = self.ev(a, left(k)), self.ev(b, right(k))
            if isinstance(x, (tuple, str)) or isinstance(y, (tuple, str)):
                return NotImplemented
            acc += x * y
        return acc

    def f_numpy_matmul(self, t, args, kw, ix):
        return self.matmul(args[0], args[1], ix) if len(args) == 2 and not kw else NotImplemented

    def f_numpy_linalg_solve(self, t, args, kw, ix):
        a, b = self.matrix(args[0]), self.matrix(args[1])
        if a is None or b is None or not all(isinstance(r, tuple) and len(r) == len(a) for r in a) or len(b) != len(a) or any(
                isinstance(x, tuple) for x in b):
            return NotImplemented
        rows = [list(r) + [y] for r, y in zip(a, b)]
        n = len(rows)
        for i in range(n):
            k = max(range(i, n), key=lambda r: abs(rows[r][i]))
            rows[i], rows[k] = rows[k], rows[i]
            if abs(rows[i][i]) < 1e-12:
                raise Dead("singular")
            for r in range(n):
                if r != i:
                    f = rows[r][i] / rows[i][i]
                    rows[r] = [x - f * y for x, y in zip(rows[r], rows[i])]
        return self.pick(tuple(r[n] / r[i] for i, r in enumerate(rows)), ix)

    def rotation(self, t):
        """Matrix of Rotation.from_euler(...).as_matrix()."""
        c = t.args[0].args[0]
        if c.op != "call" or not callee_name(c.args[0]).endswith("Rotation.from_euler") or t.args[1] or len(c.args[1]) < 2:
            return None
        kw = dict(c.args[2])
        deg = self.ev(c.args[1][2] if len(c.args[1]) > 2 else kw["degrees"]) if len(c.args[1]) > 2 or "degrees" in kw else False
        seq, ang = self.ev(c.args[1][0]), self.ev(c.args[1][1])
        if isinstance(ang, (int, float)):
            ang = (ang,)
        if not isinstance(seq, str) or not isinstance(ang, tuple) or len(ang) != len(seq):
            return None
        out = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
        mul = lambda p, q: tuple(tuple(sum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)) for i in range(3))
        for axis, x in zip(seq, ang):
            x = math.radians(x) if deg else x
            c, s = math.cos(x), math.sin(x)
            c, s = (round(v) if abs(v - round(v)) < 1e-12 else v for v in (c, s))
            k = "xyz".index(axis.lower())
            i, j = (k + 1) % 3, (k + 2) % 3
            m = [[float(r == q) for q in range(3)] for r in range(3)]
            m[i][i], m[i][j], m[j][i], m[j][j] = c, -s, s, c
            out = mul(out, m) if axis.isupper() else mul(m, out)
        return out

    def f_builtins_sorted(self, t, args, kw, ix):
        v = self.ev(args[0])
        if len(args) != 1 or set(kw) - {"reverse"} or not isinstance(v, tuple) or _is_token(v) or any(
                isinstance(x, tuple) for x in v):
            return NotImplemented
        return self.pick(tuple(sorted(v, reverse=bool(self.ev(kw["reverse"])) if "reverse" in kw else False)), ix)

    def f_scipy_special_ellipkinc(self, t, args, kw, ix):
        return self.lift(_ellipkinc, self.ev(args[0], ix), self.ev(args[1], ix))

    def f_scipy_special_ellipeinc(self, t, args, kw, ix):
        return self.lift(_ellipeinc, self.ev(args[0], ix), self.ev(args[1], ix))

    def f_scipy_special_ellipk(self, t, args, kw, ix):
        return self.lift(lambda m: _ellipkinc(math.pi / 2, m), self.ev(args[0], ix))

    def f_scipy_special_ellipe(self, t, args, kw, ix):
        return self.lift(lambda m: _ellipeinc(math.pi / 2, m), self.ev(args[0], ix))

    def f_scipy_special_elliprf(self, t, args, kw, ix):
        return self.lift(_carlson_rf, *(self.ev(a, ix) for a in args))

    def f_scipy_special_elliprd(self, t, args, kw, ix):
        return self.lift(_carlson_rd, *(self.ev(a, ix) for a in args))

    def f_numpy_roots(self, t, args, kw, ix):
        """Real roots of a cubic whose roots are all real."""
        v = args[0]
        if v.op not in ("list", "tuple") or len(v.args) != 4:
            return NotImplemented
        k = ix[0] if ix and isinstance(ix[0], int) else None
        vals = [self.ev(a, (ix[1:] or None) if ix else None) for a in v.args]
        if any(isinstance(x, (tuple, str)) for x in vals):
            return NotImplemented
        return self.pick(_real_cubic(*vals), None if k is None else (k,))

    def matmul(self, a, b, ix):
        r = self.product(a, b, ix)
        if r is not NotImplemented:
            return r
        va = self.matrix(a)
        vb = self.matrix(b, vec_ok=True)
        if va is not None and vb is not None and va and isinstance(va[0], tuple):
            if len(va[0]) != len(vb):
                raise Dead("matmul")
            if isinstance(vb[0], tuple):
                r = tuple(
                    tuple(sum(row[k] * vb[k][c] for k in range(len(vb))) for c in range(len(vb[0])))
                    for row in va
                )
            else:
                r = tuple(sum(x * y for x, y in zip(row, vb)) for row in va)
            return self.pick(r, ix)
        if va is not None and vb is not None and not isinstance(va[0], tuple) and not isinstance(vb[0], tuple):
            return sum(x * y for x, y in zip(va, vb))
        flat = []

        def rec(x):
            if x.op == "@":
                rec(x.args[0])
                rec(x.args[1])
            else:
                flat.append(self.fp(x))

        rec(a)
        rec(b)
        return self.H("@", *flat, ix or (self.pos[0],))

    def matrix(self, t, vec_ok=False):
        """A concrete small matrix or vector, if the term is one."""
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "as_matrix":
            r = self.rotation(t)
            return r if r is not None else tuple(tuple(self.ev(t, (r, c)) for c in range(3)) for r in range(3))
        if t.op == "attr" and t.args[1] == "T":
            m = self.matrix(t.args[0])
            if m is not None and isinstance(m[0], tuple):
                return tuple(zip(*m))
            return m
        if t.op == "param" and self.dims.get(t.args[0]) in ((3, 3), (3,)):
            d = self.dims[t.args[0]]
            if len(d) == 2:
                return tuple(tuple(self.ev(t, (r, c)) for c in range(3)) for r in range(3))
            return tuple(self.ev(t, (r,)) for r in range(3))
        try:
            v = self.ev(t)
        except Dead:
            raise
        if isinstance(v, tuple) and v and not _is_token(v):
            return v
        return None


def _inverse(m):
    n = len(m)
    if any(len(r) != n for r in m):
        raise Dead("inverse")
    rows = [[float(x) if not isinstance(x, complex) else x for x in r] + [float(i == j) for j in range(n)]
            for i, r in enumerate(m)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(rows[r][i]))
        rows[i], rows[k] = rows[k], rows[i]
        if abs(rows[i][i]) < 1e-13:
            raise Dead("singular")
        rows[i] = [x / rows[i][i] for x in rows[i]]
        for r in range(n):
            if r != i and rows[r][i]:
                f = rows[r][i]
                rows[r] = [x - f * y for x, y in zip(rows[r], rows[i])]
    return tuple(tuple(r[n:]) for r in rows)


def _carlson_rf(x, y, z):
    for _ in range(60):
        lam = math.sqrt(x * y) + math.sqrt(y * z) + math.sqrt(z * x)
        x, y, z = (x + lam) / 4, (y + lam) / 4, (z + lam) / 4
        a = (x + y + z) / 3
        if max(abs(x - a), abs(y - a), abs(z - a)) < 1e-4 * a:
            break
    X, Y = 1 - x / a, 1 - y / a
    Z = -X - Y
    e2, e3 = X * Y - Z * Z, X * Y * Z
    return (1 - e2 / 10 + e3 / 14 + e2 * e2 / 24 - 3 * e2 * e3 / 44) / math.sqrt(a)


def _carlson_rd(x, y, z):
    acc, f = 0.0, 1.0
    for _ in range(60):
        lam = math.sqrt(x * y) + math.sqrt(y * z) + math.sqrt(z * x)
        acc += f / (math.sqrt(z) * (z + lam))
        f /= 4
        x, y, z = (x + lam) / 4, (y + lam) / 4, (z + lam) / 4
        a = (x + y + 3 * z) / 5
        if max(abs(x - a), abs(y - a), abs(z - a)) < 1e-4 * a:
            break
    X, Y = 1 - x / a, 1 - y / a
    Z = -(X + Y) / 3
    e2, e3 = X * Y - 6 * Z * Z, (3 * X * Y - 8 * Z * Z) * Z
    e4, e5 = 3 * (X * Y - Z * Z) * Z * Z, X * Y * Z**3
    s = (1 - 3 * e2 / 14 + e3 / 6 + 9 * e2 * e2 / 88 - 3 * e4 / 22 - 9 * e2 * e3 / 52 + 3 * e5 / 26)
    return 3 * acc + f * s / (a * math.sqrt(a))


def _ellipkinc(phi, m):
    s, c = math.sin(phi), math.cos(phi)
    if not 0 <= phi <= math.pi / 2 + 1e-12 or 1 - m * s * s < 0:
        raise Dead("domain")
    return s * _carlson_rf(c * c, 1 - m * s * s, 1)


def _ellipeinc(phi, m):
    s, c = math.sin(phi), math.cos(phi)
    if not 0 <= phi <= math.pi / 2 + 1e-12 or 1 - m * s * s < 0:
        raise Dead("domain")
    return s * _carlson_rf(c * c, 1 - m * s * s, 1) - m * s**3 / 3 * _carlson_rd(c * c, 1 - m * s * s, 1)


def _real_cubic(k3, k2, k1, k0):
    """Real roots in decreasing order; the largest by Newton's method from above."""
    b, c, d = k2 / k3, k1 / k3, k0 / k3
    x = 1 + max(abs(b), abs(c), abs(d))
    for _ in range(300):
        f, g = ((x + b) * x + c) * x + d, (3 * x + 2 * b) * x + c
        if g == 0:
            break
        new = x - f / g
        if new >= x or abs(new - x) <= 1e-16 * abs(x):
            break
        x = new
    p, q = b + x, (b + x) * x + c
    disc = max(p * p - 4 * q, 0.0)
    return (x, (-p + math.sqrt(disc)) / 2, (-p - math.sqrt(disc)) / 2)


class Value:
    """An already computed value in place of an index."""

    def __init__(self, v):
        self.v = v


def _places(v):
    """A list of indices."""
    return isinstance(v, tuple) and v and all(isinstance(x, int) and not isinstance(x, bool) for x in v)


class Store:
    """An array being filled by a recurrence."""

    _ids = [0]

    def __init__(self, base):
        self.base = base
        self.cells = {}
        self.version = 0
        Store._ids[0] += 1
        self.id = Store._ids[0]

    def read(self, ix, val):
        if ix is None:
            return tuple((k, self.cells[k]) for k in sorted(self.cells, key=repr))
        if ix in self.cells:
            return self.cells[ix]
        return val.ev(self.base, ix)

    def __repr__(self):
        return f"store{self.id}.{self.version}"


class Thunk:
    """Value carried into an iteration: a term under the bindings of the previous one."""

    _ids = [0]

    def __init__(self, term, bind):
        self.term, self.bind = term, bind
        Thunk._ids[0] += 1
        self.id = Thunk._ids[0]

    def read(self, ix, val):
        old = {m: val.bind.get(m) for m in self.bind}
        try:
            val.bind.update(self.bind)
            return val.ev(self.term, ix)
        finally:
            for m, v in old.items():
                if v is None:
                    val.bind.pop(m, None)
                else:
                    val.bind[m] = v

    def dim(self, k, val):
        old = {m: val.bind.get(m) for m in self.bind}
        try:
            val.bind.update(self.bind)
            return val.dim(self.term, k)
        finally:
            for m, v in old.items():
                if v is None:
                    val.bind.pop(m, None)
                else:
                    val.bind[m] = v


def _hk(v):
    if isinstance(v, Thunk):
        return ("thunk", v.id)
    if isinstance(v, Store):
        return (v.id, v.version)
    return v


def _flatten(v):
    for x in v:
        if isinstance(x, tuple) and not _is_token(x):
            yield from _flatten(x)
        else:
            yield x


_TOKENS = {"shape", "slice", "func", "cls", "mod", "callable", "dict", "inst", "fstr", "sl", "mask"}


def _is_token(v):
    return bool(v) and isinstance(v[0], str) and v[0] in _TOKENS


def _flat_fstr(t):
    out = []
    for a in t.args:
        xs = a if isinstance(a, tuple) else (a,)
        for x in xs:
            if isinstance(x, T) and x.op == "fstr":
                out.extend(_flat_fstr(x))
            else:
                out.append(x)
    return out


def _is_array_cond(c):
    """Gates whose condition is itself elementwise never come from branches."""
    return False


_OPNAME = {
    "+": "add", "-": "sub", "*": "mul", "/": "div", "//": "floordiv", "%": "mod_", "**": "pow",
    "<": "lt", "<=": "le", "==": "eq", "!=": "ne", "&": "and", "|": "or", "@": "matmul", "not": "not",
    "and": "and", "or": "or", "is": "is", "in": "in", "^": "xor",
}


# --------------------------------------------------------------------------- comparison


def same(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else a == b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, Store) or isinstance(b, Store):
        return False
    return type(a) is type(b) and a == b


# Symbols that are different functions by definition: the kernels of choclo, the data of a
# dataset and memory that was never written.  Any other uninterpreted symbol that only one
# side uses may be another way to write the same thing, so it decides nothing.
def primitive(name):
    return name in ("get", "uninitialised memory", "isscalar", "bool:isscalar") or name.startswith(
        ("call:choclo.", "bool:call:choclo."))


def collect(terms):
    """Numeric constants and string-typed parameters of a set of terms."""
    nums, strings = set(), {}
    seen = set()
    for t in terms:
        for x in walk(t, seen):
            if x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool):
                v = x.args[0]
                if v == v and abs(v) < 1e7:
                    nums.add(float(v))
            elif x.op in ("==", "!="):
                for p, c in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    if p.op == "param" and is_const(c) and isinstance(c.args[0], str):
                        strings.setdefault(p.args[0], set()).add(c.args[0])
            elif x.op == "in" and x.args[0].op == "param":
                for y in walk(x.args[1]):
                    if is_const(y) and isinstance(y.args[0], str):
                        strings.setdefault(x.args[0].args[0], set()).add(y.args[0])
    return sorted(nums), {k: sorted(v) + ["<other>"] for k, v in strings.items()}


def size_aliases(pc):
    """Dimensions forced to be equal by a path condition."""
    parent = {}

    def key(t):
        # attr size of (identity*) param, or shape[k] of a param
        if t.op == "attr" and t.args[1] == "size":
            b = _strip(t.args[0])
            if b.op == "param":
                return (b.args[0], 0)
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]):
            b = _strip(t.args[0].args[0])
            if b.op == "param":
                return (b.args[0], t.args[1].args[0])
        if t.op == "call" and callee_name(t.args[0]) == "builtins.len":
            b = _strip(t.args[1][0])
            if b.op == "param":
                return (b.args[0], 0)
        if t.op == "attr" and t.args[1] == "shape":
            b = _strip(t.args[0])
            if b.op == "param":
                return (b.args[0], 0)
        return None

    def find(k):
        while k in parent:
            k = parent[k]
        return k

    def visit(c, positive):
        if c.op == "not":
            visit(c.args[0], not positive)
        elif c.op == "and" and positive or c.op == "or" and not positive:
            for a in c.args:
                visit(a, positive)
        elif c.op == "==" and positive or c.op == "!=" and not positive:
            a, b = key(c.args[0]), key(c.args[1])
            if a and b:
                a, b = find(a), find(b)
                if a != b:
                    parent[a] = b

    for c in pc:
        visit(c, True)
    return {k: find(k) for k in parent}


def _strip(t):
    while True:
        if t.op == "call" and callee_name(t.args[0]) in IDENTITY and t.args[1]:
            t = t.args[1][0]
        elif t.op in ("withattrs", "bcast"):
            t = t.args[0]
        else:
            return t


def reach(terms, seen=None):
    """Every term below the given ones, through the loops they come from."""
    seen = set() if seen is None else seen
    stack = [t for t in terms if isinstance(t, T)]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        stack.extend(_kids(x))
        if x.op in ("idx", "mu"):
            info = _LOOPS.get(x.args[0]) or {}
            stack.extend(v for k in ("lo", "hi", "iter", "cond", "elem") if isinstance(v := info.get(k), T))
            for m, vv in (info.get("closed") or {"vars": {}})["vars"].items():
                if x.op == "mu" and m is x or x.op == "idx":
                    stack.extend(v for v in vv if isinstance(v, T))


def one_sided(pairs):
    """Comparisons of numbers that only one side of the pairs makes."""
    pairs = [(a, b) for _, a, b in pairs if a is not b]
    sides = [[x for x in reach(list(side)) if x.op in ("<", "<=")] for side in zip(*pairs)] or [[], []]
    shared = {x.uid for x in sides[0]} & {x.uid for x in sides[1]}
    return [x for side in sides for x in side if x.uid not in shared][:40]


class Comparer:
    """Decides term equality under a path condition."""

    def __init__(self, I, want=24, tries=240, **opts):
        self.I = I
        if _LOOPS is not I.loop_info:
            globals()["_LOOPS"] = I.loop_info
            _FREE.clear()
            _DEPS.clear()
        self.want = want
        self.tries = tries
        self.opts = opts
        self.collected = None, None
        # seconds left for steering samples
        self.steering = 60.0
        self.stats = {"comparisons": 0, "valuations": 0, "undecided": 0}

    def valuations(self, terms, pc, seeds=None, **opts):
        key = tuple(t.uid for t in terms), tuple(c.uid for c in pc)
        if self.collected[0] != key:
            self.collected = key, collect(list(terms) + list(pc))
        nums, strings = self.collected[1]
        al = size_aliases(pc)
        o = dict(self.opts)
        o.update(opts)
        s2 = dict(strings)
        s2.update(o.pop("strings", {}))
        ln = dict(al)
        ln.update(o.pop("lengths", {}))
        for seed in range(self.tries) if seeds is None else seeds:
            yield Valuation(self.I, seed, consts=nums, strings=s2, lengths=ln, **o)

    def holds(self, v, pc):
        for c in pc:
            try:
                if not v.truth(c):
                    return False
            except Undecided:
                return None
            except (TypeError, ValueError, IndexError, AttributeError):
                return None
        return True

    def differ(self, v, pairs, close, scale, seen, suspects):
        """Evaluate both sides of every pair: what compare returns if they differ."""
        for label, a, b in pairs:
            if a is b:
                continue
            v.names = set()
            y = v.ev(b)
            seen |= v.names
            v.names = set()
            try:
                x = v.ev(a)
            except NoneUsed:
                x = "an error: arithmetic on None"
            if label in CONDITIONS:
                x, y = (v.truthv(z) if isinstance(z, tuple) and not _is_token(z) else z for z in (x, y))
            if not same(x, y):
                x, y = v.aligned(a, x, b, y)
            if close and not same(x, y) and all(isinstance(z, (int, float)) for z in (x, y)):
                # components of one vector, up to a fraction of its size
                whole = [v.ev(z) for z in scale]
                if all(isinstance(z, (int, float)) for z in whole) and abs(x - y) <= close * math.hypot(*whole):
                    continue
            if not same(x, y):
                new = sorted(n for n in v.names - seen if not primitive(n))
                if new and self.matter(v, new, a, x, b):
                    suspects.append((label, (v.seed, x, y), new))
                    raise Undecided("not modelled: " + ", ".join(new[:4]))
                self.stats["valuations"] += 1
                return "differ", label, (v.seed, x, y)
        return None

    def matter(self, v, names, a, x, b):
        """Whether a value depends on what the functions of these names return."""
        for v.draw in (1, 2, 3):
            v.redrawn = names
            v.memo.clear()
            try:
                z = v.aligned(a, v.ev(a), b, v.ev(b))[0]
            except (Undecided, TypeError, ValueError, IndexError, AttributeError, KeyError):
                z = None
            v.redrawn = ()
            v.memo.clear()
            if z is None or not same(x, z):
                return True
        return False

    def steer(self, pairs, pc, opts, truths, close, scale, seen):
        """Look for differences where the outcome of a comparison that only one side makes is
        changed by shifting an unknown (if it had one outcome in every sample) or scaling it."""
        terms = [x for _, a, b in pairs for x in (a, b)]
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        if left:  # of the time for this instance
            self.steering = min(self.steering, 0.4 * left)
        for t in one_sided(pairs):
            if not truths.get(t.uid):
                continue
            modes = "scale", "shift"
            if len(truths[t.uid]) > 1:
                modes = modes[:1] if any(is_const(x) and x.args[0] for x in t.args) else ()
            end = time.monotonic() + 4
            names = sorted({x.args[0] for x in reach([t]) if x.op == "param"})
            for n, v in enumerate(self.valuations(terms, pc, **opts, watch={t.uid: []})):
                if n >= 4 * len(modes) or time.monotonic() > end or self.steering <= 0:
                    break
                start = time.monotonic()
                fixed = dict(opts.get("fixed") or {})
                for name, mode in itertools.product(names, modes):
                    if name in fixed or time.monotonic() > end:
                        continue
                    for w in self.flipped(t, mode, name, n, terms, pairs, pc, opts):
                        self.stats["steered"] = self.stats.get("steered", 0) + 1
                        try:
                            found = self.differ(w, pairs, close, scale, seen, [])
                        except (Undecided, TypeError, ValueError, IndexError, AttributeError, KeyError):
                            continue
                        if found:
                            return found
                self.steering -= time.monotonic() - start
        return None

    def flipped(self, t, mode, name, seed, terms, pairs, pc, opts):
        """Valuations in which a changed unknown gives comparison t the other outcome."""
        side = [x for _, a, b in pairs for x in (a, b) if any(y is t for y in reach([x]))][:1]
        if not side:
            return

        def probe(d):
            change = {name: (1 + d, 0.0) if mode == "scale" else (1.0, d)}
            w = next(self.valuations(terms, pc, (seed,), **opts, watch={t.uid: []}, shift=change))
            try:
                if not self.holds(w, pc):
                    return w, None
                w.memo.clear()
                w.watch[t.uid].clear()
                w.ev(side[0])
            except (Undecided, TypeError, ValueError, IndexError, AttributeError, KeyError):
                pass
            notes = w.watch[t.uid]
            return w, notes[0] if notes else None

        def keeps(d):
            # values of a particular kind are only made smaller
            return mode == "scale" and -1 < d <= 0 if name in (opts.get("profile") or {}) else mode == "shift" or d > -1

        d, (w, note) = 0.0, probe(0.0)
        old = note and note[0]
        for _ in range(12):
            if note is None:
                return
            r, a, b = note
            if r != old:
                w.memo.clear()
                yield w
                return
            margin = 0.3 * min(abs(a), abs(b)) if a and b else 0.01 * (abs(a) + abs(b))
            goal = margin if a <= b else -margin
            h = 1e-5 * max(1.0, abs(d))
            _, other = probe(d + h)
            if other is None:
                return
            slope = ((other[1] - other[2]) - (a - b)) / h
            if not slope or not math.isfinite(slope):
                return
            d += (goal - (a - b)) / slope
            if not keeps(d):
                return
            w, note = probe(d)

    def compare(self, pairs, pc=(), **opts):
        """pairs: [(label, a, b)] -> (status, label, detail).

        status: 'equal', 'differ' or 'undecided'.
        """
        self.stats["comparisons"] += 1
        close, scale = opts.pop("close", (0, ()))
        pairs = [(l, a, b) for l, a, b in pairs]
        if all(a is b for _, a, b in pairs):
            return "equal", None, "identical terms"
        terms = [x for _, a, b in pairs for x in (a, b)]
        good = 0
        seen, suspects = set(), []
        why = "no valuation satisfies the path condition"
        start = time.monotonic()
        watch = {t.uid: [] for t in one_sided(pairs)}
        truths = {u: set() for u in watch}
        for v in self.valuations(terms, pc, **opts, watch=watch):
            h = self.holds(v, pc)
            if not h:
                continue
            v.memo.clear()
            try:
                found = self.differ(v, pairs, close, scale, seen, suspects)
                if found:
                    return found
            except Undecided as e:
                why = f"{type(e).__name__}: {e}"
                continue
            except (TypeError, ValueError, IndexError, AttributeError, KeyError) as e:
                why = f"{type(e).__name__}: {e}"
                continue
            good += 1
            self.stats["valuations"] += 1
            for u, notes in watch.items():
                truths[u].update(r for r, _, _ in notes)
                notes.clear()
            if good >= self.want:
                break
        found = None
        if good >= min(6, self.want) and time.monotonic() - start < 0.7 * good:
            found = self.steer(pairs, pc, opts, truths, close, scale, seen)
        if found:
            return found
        for label, detail, new in suspects:
            # the reference turned out to use the same symbols at other points
            if set(new) <= seen:
                return "differ", label, detail
        if good < min(6, self.want):
            self.stats["undecided"] += 1
            return "undecided", None, why
        if suspects:
            self.stats["undecided"] += 1
            return "undecided", None, "not modelled: " + ", ".join(suspects[0][2][:4])
        return "equal", None, good
