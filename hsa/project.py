"""Loading of the analysed package: parsing and module tables."""

import ast
import pathlib


class AnalysisBroken(Exception):
    """The analysis lost an anchor it needs (a public name, a module)."""


class Module:
    def __init__(self, name, path, tree, is_pkg, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.source = source
        self.fid = None  # global frame, filled by the interpreter
        self.state = "new"

    def resolve_relative(self, level, target):
        """Absolute dotted name of a ``from ...target import`` in this module."""
        if level == 0:
            return target or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        if target:
            parts.append(target)
        return ".".join(parts)


class Project:
    """Every module of the analysed package, parsed from its current source."""

    def __init__(self, repo="/repo", package="harmonica", spec_dir=None):
        self.repo = pathlib.Path(repo)
        self.package = package
        self.modules = {}
        root = self.repo / "src" / package
        if not root.is_dir():
            raise AnalysisBroken(f"no package at {root}")
        for path in sorted(root.rglob("*.py")):
            rel = path.relative_to(root.parent).with_suffix("")
            parts = list(rel.parts)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            self._add(".".join(parts), path, is_pkg)
        if spec_dir is not None:
            for path in sorted(pathlib.Path(spec_dir).glob("*.py")):
                self._add("spec." + path.stem, path, False)
        self.n_lines = sum(
            m.source.count("\n")
            for n, m in self.modules.items()
            if not n.startswith("spec.")
        )

    def _add(self, name, path, is_pkg):
        source = path.read_text(encoding="utf-8")
        tree = ast.parse(source, filename=str(path))
        self.modules[name] = Module(name, path, tree, is_pkg, source)

    def relpath(self, module):
        try:
            return str(module.path.relative_to(self.repo))
        except ValueError:
            return str(module.path)

    def functions(self):
        """Yield (module, qualname, node) for every function of the package."""
        for mod in self.modules.values():
            if mod.name.startswith("spec."):
                continue
            yield from _functions(mod, mod.tree.body, "")


def _functions(mod, body, prefix):
    for node in body:
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield mod, prefix + node.name, node
            yield from _functions(mod, node.body, prefix + node.name + ".")
        elif isinstance(node, ast.ClassDef):
            yield from _functions(mod, node.body, prefix + node.name + ".")
        elif isinstance(node, (ast.If, ast.Try, ast.With)):
            for name in ("body", "orelse", "finalbody"):
                yield from _functions(mod, getattr(node, name, []), prefix)
