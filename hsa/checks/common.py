"""Shared parts of the checks."""

from .. import aspects as A
from ..gvn import Comparer
from ..project import AnalysisBroken

GVN = (
    "The value graph of every entry point is built from the source by a gated (phi/mu) dataflow "
    "analysis that inlines helpers and follows closures, heap objects and the package's registries; it is "
    "then compared with the value graph of a reference written from the documentation, by global value "
    "numbering with random interpretation: the same expression gets the same number whatever its "
    "spelling. No package code is executed and no solver is involved. "
)
COORDS = ["E", "N", "U"]


def spec_check(ctx, cases, aspects, limit=120, comparer=None, floor=None):
    """Compare every case with its reference, one task per case and aspect.

    aspects: names in {value, errors, warnings, shape, state}.
    """

    def task(job):
        case, what = job
        return one(ctx, case, what, comparer or {})

    jobs = [(c, a) for c in cases for a in aspects]
    ctx.pmap(task, jobs, aspects[0], limit)
    for a in aspects:
        if a in ("value", "errors", "shape", "state"):
            ctx.floor(a, floor if floor is not None else len(cases))
    return ctx


def one(ctx, case, what, opts=None, **kw):
    c = Comparer(ctx.D.I, **(opts or {}))
    if what == "value":
        return A.value(case, c, **kw)
    if what == "errors":
        return A.raising(case, Comparer(ctx.D.I, tries=600), **kw)
    if what == "warnings":
        return A.warning(case, Comparer(ctx.D.I, tries=600), **kw)
    if what == "marks":
        return A.marking(case, c, **kw)
    if what == "shape":
        return A.shape(case, COORDS, **kw)
    if what == "state":
        return A.attributes(case, c, **kw)
    if what == "fitted":
        names = sorted(n for n in A.fields(case.spec) if n.endswith("_") and not n.startswith("_"))
        return A.attributes(case, c, names, rule="fitted", **kw)
    raise ValueError(what)


def cases(ctx, *groups, select=None, apis=None):
    """Analysed calls of some groups of entry points (all of them without a group)."""
    out = [c for c in ctx.D.cases(*groups)
           if (apis is None or c.api in apis) and (select is None or select(c))]
    missing = set(apis or ()) - {c.api for c in out}
    if not out:
        raise AnalysisBroken(f"no calls to analyse: {missing or groups}")
    ctx.notes.extend(f"no call of {m} to analyse" for m in sorted(missing))
    return out


class Pair:
    """One call of the package compared with another: the second plays the reference."""

    def __init__(self, a, b, label):
        self.api, self.label, self.info, self.a, self.b = a.api, label, a.info, a, b

    @property
    def res(self):
        return self.a.res

    @property
    def spec(self):
        return self.b.res

    def __repr__(self):
        return f"{self.api}[{self.label}]"


def siblings(cs, names):
    """Pairs of cases that differ in the named switches only; the first of a family is the reference."""
    fam = {}
    for c in cs:
        key = (c.api, tuple(sorted((k, repr(v)) for k, v in c.info.items() if k not in names)),
               ",".join(x for x in c.label.split(",") if x.split("=")[0] not in (*names, "progressbar")))
        fam.setdefault(key, []).append(c)
    for members in fam.values():
        ref = members[-1]
        for m in members[:-1]:
            yield Pair(m, ref, f"{m.label} against {ref.label}")
