"""Import and guard analysis. No module of the package imports an optional dependency when it is loaded,
unless the import is guarded; no public call that does not need one (no progress bar, no PyVista output)
reaches an import of it; and where one is needed and missing, every path ends in an import error."""

import ast
import builtins
import re

from ..project import AnalysisBroken
from ..report import REPO, ok, violation
from ..terms import is_const

FALLBACK = ("pyvista", "vtk", "numba_progress")


def optional():
    """Importable names of the optional dependencies of the package."""
    text = (REPO / "pyproject.toml").read_text() if (REPO / "pyproject.toml").exists() else ""
    m = re.search(r"\[project\.optional-dependencies\](.*?)(\n\[|\Z)", text, re.S)
    names = re.findall(r'"([A-Za-z0-9_.-]+?)\s*(?:[<>=!~;\[].*?)?"', m.group(1)) if m else []
    return tuple(sorted({n.replace("-", "_") for n in names} | set(FALLBACK)))


def guards(handlers):
    for h in handlers:
        names = {x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in ast.walk(h.type)} if h.type else {"Exception"}
        if names & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}:
            return True
    return False


def load_imports(body, guarded=False):
    """(top-level module name, node, guarded) imported when a module body runs."""
    for n in body:
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name.split(".")[0], n, guarded
        elif isinstance(n, ast.ImportFrom):
            if not n.level:
                yield (n.module or "").split(".")[0], n, guarded
        elif isinstance(n, ast.Try):
            yield from load_imports(n.body, guarded or guards(n.handlers))
            for h in n.handlers:
                yield from load_imports(h.body, guarded)
            yield from load_imports(n.orelse, guarded)
            yield from load_imports(n.finalbody, guarded)
        elif isinstance(n, ast.If):
            yield from load_imports(n.body, guarded or "TYPE_CHECKING" in ast.unparse(n.test) or "find_spec" in ast.unparse(n.test))
            yield from load_imports(n.orelse, guarded)
        elif isinstance(n, (ast.With, ast.For, ast.While, ast.ClassDef)):
            yield from load_imports(n.body, guarded)


def imported(e):
    """Top-level name of the module an event imports."""
    if e.kind == "import":
        return [e.name.split(".")[0]]
    if e.kind == "call" and e.name in ("importlib.import_module", "builtins.__import__") and e.args and is_const(e.args[0]):
        return [str(e.args[0].args[0]).split(".")[0]]
    return []


def needs(case, name):
    if name == "numba_progress":
        return bool(case.info.get("bar"))
    return "pyvista" in case.api


def names_in(body):
    names = {a.name.split(".")[0] for n in body for x in ast.walk(n) if isinstance(x, ast.Import) for a in x.names}
    return names | {(x.module or "").split(".")[0] for n in body for x in ast.walk(n) if isinstance(x, ast.ImportFrom)}


def disguised(res, opt):
    """Errors of another kind that handlers raise in place of the one of a failing import."""
    for e in res.events:
        if e.kind == "replaces" and names_in(e.body) & set(opt):
            kind = getattr(builtins, str(e.raised.exc).split(".")[-1], None)
            if isinstance(kind, type) and not issubclass(kind, ImportError):
                yield e.raised, sorted(names_in(e.body) & set(opt)), kind.__name__


def survives(res, opt):
    """Handlers after which a call goes on although the import in their try block failed."""
    for e in res.events:
        if e.kind == "survives":
            if names_in(e.body) & set(opt):
                yield e, sorted(names_in(e.body) & set(opt))
        elif e.kind == "suppress":
            yield e, ["an import"]


def judge(case, opt):
    out = []
    res = case.res
    hit = [(e, n) for e in res.events for n in imported(e) if n in opt]
    for e, name in hit:
        if not needs(case, name):
            out.append(violation("needless imports", f"{case.api}: {name}",
                                 f"{name} is imported in context [{case.label}], which does not need it", where=e.where()))
    if hit:
        bad = list(survives(res, opt))
        for e, names in bad:
            out.append(violation("missing dependency", f"{case.api}: {', '.join(names)}",
                                 f"the call carries on when the import fails, in context [{case.label}]", where=e.where()))
        for e, names, kind in disguised(res, opt):
            bad.append(e)
            out.append(violation("missing dependency", f"{case.api}: {', '.join(names)}",
                                 f"a missing package is reported as {kind}, in context [{case.label}]", where=e.where()))
        if not bad:
            out.append(ok("missing dependency", case))
    if not out:
        out.append(ok("needless imports", case))
    return out


def check(ctx):
    opt = optional()
    n = 0
    for mod in ctx.project.modules.values():
        if mod.name.startswith("spec."):
            continue
        bad = False
        for name, node, guarded in load_imports(mod.tree.body):
            n += 1
            if name in opt and not guarded:
                bad = True
                ctx.add(violation("load imports", f"{mod.name}: {name}", f"loading the module imports the optional {name}",
                                  where=f"{ctx.project.relpath(mod)}:{node.lineno} (<module>)"))
        if not bad:
            ctx.add(ok("load imports", mod.name))
    if n < 20:
        raise AnalysisBroken("no imports found in the package")
    tree = ast.parse("import pyvista\ntry:\n    import vtk\nexcept ImportError:\n    vtk = None\n")
    found = [(a, g) for a, _, g in load_imports(tree.body)]
    ctx.positive("load imports", found == [("pyvista", False), ("vtk", True)])
    cs = ctx.D.cases()
    ctx.pmap(lambda c: judge(c, opt), cs, "needless imports", limit=100)
    ctx.floor("load imports", 20)
    ctx.floor("needless imports", 150)
    ctx.floor("missing dependency", 20)
