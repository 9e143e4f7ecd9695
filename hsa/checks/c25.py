"""Effect analysis of every public call: no write to a module-level name, a module-level container or
array, a class attribute or a mutable default; no call and no read of hidden state (global random
generators, clock, environment, warning filters, floating-point error settings). A method other than fit
stores nothing derived from its arguments in its object, and what fit leaves behind does not depend on an
earlier fit."""

from ..report import ok, violation
from ..terms import T, contains, is_const, show, walk

STATEFUL = (
    "numpy.random.", "random.", "time.", "secrets.", "uuid.", "os.environ", "os.getenv", "os.putenv",
    "os.chdir", "os.getcwd", "os.getpid", "os.urandom", "warnings.filterwarnings", "warnings.simplefilter",
    "warnings.resetwarnings", "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions",
    "numba.set_num_threads", "numba.set_parallel_chunksize", "locale.setlocale", "sys.setrecursionlimit",
    "logging.basicConfig", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow",
    "datetime.date.today", "datetime.now", "datetime.today", "xarray.set_options", "pandas.set_option",
    "builtins.id", "threading.get_ident", "gc.", "sys.argv", "numpy.random",
)
SEEDED = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random",
          "numpy.random.SeedSequence")
ALLOWED = {"time.strptime", "time.struct_time", "time.strftime"}
FITTED = {"coefs_", "Se", "Sn", "Su", "regw", "rege", "regs", "regn", "window_size_"}


def stateful(name):
    if name in ALLOWED or name in SEEDED:
        return False
    return any(name == p or (p.endswith(".") and name.startswith(p)) or name.startswith(p + ".") for p in STATEFUL)


def effects(I, res):
    """(event, what) of every effect on, or use of, hidden state."""
    for e in res.events:
        if e.kind == "global_write":
            yield e, f"writes to {e.name}"
        elif e.kind in ("mutate", "setattr"):
            for r in I.roots(e.target, res.st):
                if r.op == "obj" and r.args[0] in I.base.heap and not contains(e.target, lambda y: y.op == "param"):
                    yield e, "changes a module-level object or a mutable default"
        elif e.kind == "call":
            if stateful(e.name):
                yield e, f"calls {e.name}"
            elif e.name in SEEDED and not e.args and not e.kwargs:
                yield e, f"calls {e.name} without a seed"
            elif e.name == "sklearn.utils.shuffle":
                kw = e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs)
                v = kw.get("random_state")
                if v is None or is_const(v) and v.args[0] is None:
                    yield e, f"calls {e.name} without a random state"
            for t in list(e.args) + list((e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs)).values()):
                if isinstance(t, T):
                    yield from ((e, f"reads {n}") for n in reads(t))
        elif e.kind in ("mutate", "raise", "warn"):
            pass
        for c in e.pc:
            yield from ((e, f"decides on {n}") for n in reads(c))


def reads(t):
    for x in walk(t):
        if x.op == "ext" and stateful(str(x.args[0])):
            yield x.args[0]


def judge(ctx, case, rule="hidden state"):
    I = ctx.D.I
    out = {}
    for e, what in effects(I, case.res):
        out.setdefault((case.api, what), violation(rule, f"{case.api}: {what}",
                                                   f"{what} in context [{case.label}]", where=e.where()))
    for n in reads(case.res.value):
        out.setdefault((case.api, n), violation(rule, f"{case.api}: {n}", f"the result depends on {n}",
                                                where=getattr(case.res, "entry", "")))
    return list(out.values()) or [ok(rule, case)]


def stores(ctx, case):
    """Methods other than fit leave nothing of their arguments in their object."""
    res = case.res
    own = getattr(res, "self_obj", None)
    if own is None or case.api.endswith(("fit", "__init__", "setter")):
        return None
    args = {"E", "N", "U", "data", "weights", "lon", "lat", "h", "Se", "Sn", "Su", "spacing", "n_lat", "n_lon",
            "rw", "re", "rs", "rn"}
    out = []
    for e in res.events:
        if e.kind == "setattr" and e.target is own:
            v = res.interp.freeze(e.value, res.st) if isinstance(e.value, T) else None
            if v is not None and contains(v, lambda y: y.op == "param" and y.args[0] in args):
                out.append(violation("object state", f"{case.api}: {e.name}",
                                     f"stores a value derived from its arguments in the object ({e.name})",
                                     where=e.where()))
    return out or ok("object state", case)


def refit(ctx, item):
    """Fitting again forgets the previous fit."""
    name, pts = item
    D = ctx.D
    from ..aspects import fields
    from ..drive import COORDS, NONE, p, triple

    r = D.eqs_call(name, "fit", COORDS, p("data"), p("weights"), fitted=True,
                   over={"points": triple("Q") if pts else NONE})
    out = []
    for k, v in fields(r).items():
        if not k.endswith("_"):
            continue
        old = sorted({x.args[0] for x in walk(v) if x.op == "param" and x.args[0] in FITTED})
        if old:
            out.append(violation("refit", f"{name}.fit: {k}", f"{k} after a second fit depends on the first ({old})",
                                 where=r.entry))
        else:
            out.append(ok("refit", f"{name}.fit {k} points={pts}"))
    return out


def check(ctx):
    D = ctx.D
    for n in ("remembers", "counts", "scribbles", "collects", "draws", "times", "looks_around", "silences"):
        from ..drive import Case, p

        r = D.I.run(D.specs[n], [p("x")], {})
        c = Case(D, n, "", lambda: r)
        ctx.positive(f"hidden state ({n})", any(x["status"] == "violation" for x in judge(ctx, c)))
    cs = D.cases()
    ctx.pmap(lambda c: [*judge(ctx, c), stores(ctx, c)], cs, "hidden state", limit=100)
    ctx.pmap(lambda i: refit(ctx, i), [(n, q) for n in D.EQS_ARGS for q in (True, False)], "refit", limit=100)
    ctx.floor("hidden state", 300)
    ctx.floor("refit", 6)
