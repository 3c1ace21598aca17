"""Parse the package and resolve modules, imports, classes and functions (no execution)."""
from __future__ import annotations
import ast
import hashlib
import os

PKG = "infomeasure"


class Func:
    """a function definition (or lambda) together with its lexical context"""
    __slots__ = ("node", "module", "qual", "cls", "defaults", "kwdefaults", "closure", "kind", "name", "is_lambda",
                 "is_gen", "decorated")

    def __init__(self, node, module, qual, cls=None, closure=None, kind="func"):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.closure = closure
        self.kind = kind          # func | static | classm | property
        self.name = getattr(node, "name", "<lambda>")
        self.is_lambda = isinstance(node, ast.Lambda)
        self.defaults = []
        self.kwdefaults = {}
        self.is_gen = (not self.is_lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))
        self.decorated = []

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno} {self.qual}"


def _own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Module:
    def __init__(self, name, path, tree, is_pkg, relpath):
        self.name = name
        self.path = relpath
        self.abspath = path
        self.tree = tree
        self.is_pkg = is_pkg


class Project:
    def __init__(self, root):
        self.root = root
        self.modules: dict[str, Module] = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, PKG)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            if "__pycache__" in dp:
                continue
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                if f.startswith("test_"):
                    continue
                src = open(p, encoding="utf-8").read()
                self.digest.update(rel.encode() + b"\0" + src.encode() + b"\0")
                tree = ast.parse(src, filename=rel)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                self.modules[name] = Module(name, p, tree, is_pkg, rel)
        if not self.modules:
            raise SystemExit("analysis-broken: no modules found under " + base)

    def add(self, name, path):
        """a module of /verif holding documented formulas; analysed like any other source, never executed"""
        src = open(path, encoding="utf-8").read()
        self.modules[name] = Module(name, path, ast.parse(src, filename=path), False, os.path.basename(path))

    def resolve_from(self, mod: Module, level: int, target: str | None) -> str:
        if level == 0:
            return target or ""
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        if target:
            parts = parts + target.split(".")
        return ".".join(parts)
