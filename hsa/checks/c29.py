"""Definite-assignment analysis along the paths of every public call: a use of a local name, attribute or
module member that is unbound on some path whose condition is not contradictory (unit propagation over the
literals of the path condition). Names bound only inside a loop count as unbound when the loop may not run."""

from ..interp import infeasible
from ..report import ok, undecided, violation
from ..terms import walk


def option_loop(I, v):
    """The loop that binds the name runs as often as an option says."""
    while v.op == "ite":
        v = v.args[1] if v.args[1].op in ("loopval", "last") else v.args[2]
    info = I.loop_info.get(v.args[0].args[0], {}) if v.op in ("loopval", "last") else {}
    hi = info.get("hi")
    return hi is not None and any(x.op == "param" and "scalar" in x.args[1:] for x in walk(hi)) and not any(
        x.op == "param" and "scalar" not in x.args[1:] for x in walk(hi))


def judge(case):
    out = {}
    n = 0
    for e in case.res.events:
        if e.kind not in ("unbound", "missing_attr"):
            continue
        n += 1
        if infeasible(e.pc):
            continue
        name = getattr(e, "name", "?")
        if getattr(e, "loop", False) and not option_loop(case.res.interp, e.value):
            out.setdefault((e.loc[2], name), undecided("definite assignment", f"{case} {name}",
                                                       "bound in a loop over data that may be empty"))
            continue
        how = "is unbound when the loop that binds it does not run" if getattr(e, "loop", False) else \
            "may be used before it is bound" if e.kind == "unbound" else "does not exist"
        out.setdefault((e.loc[2], name), violation("definite assignment", f"{e.loc[2]}: {name}",
                                                   f"{name} {how}, reached from {case}", where=e.where()))
    return list(out.values()) or [ok("definite assignment", f"{case}")]


def check(ctx):
    from ..drive import Case, p

    D = ctx.D
    r = D.I.run(D.specs["forgets"], [p("x")], {})
    ctx.positive("definite assignment", any(x["status"] == "violation" for x in judge(Case(D, "forgets", "", lambda: r))))
    ctx.pmap(judge, D.cases(), "definite assignment", limit=100)
    ctx.floor("definite assignment", 300)
