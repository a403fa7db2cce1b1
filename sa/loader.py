"""Loads the analysed package by parsing its current source and interpreting its modules."""
from __future__ import annotations
import ast
import importlib
import os
import sys
import types

from .interp import Interp, Undecided, tag
from .ops import Ops

STD = {
    "abc", "argparse", "ast", "asyncio", "base64", "bisect", "builtins", "collections", "collections.abc", "contextlib",
    "contextvars", "copy", "dataclasses", "datetime", "decimal", "enum", "fractions", "functools", "importlib",
    "importlib.util", "inspect", "io", "ipaddress", "itertools", "keyword", "math", "numbers", "operator", "os",
    "os.path", "pathlib", "pprint", "re", "string", "sys", "textwrap", "time", "traceback", "types", "typing", "uuid",
    "warnings", "weakref", "typing_extensions", "typing_inspect", "jinja2", "casefy", "jaxtyping", "numpy",
    "numpy.typing", "queue", "tempfile", "__future__", "linecache", "reprlib", "random", "hashlib", "heapq", "struct",
    "markupsafe", "_thread", "gc", "unicodedata", "graphlib",
}


class Loader:
    def __init__(self, repo, missing=()):
        self.repo = repo
        self.missing = set(missing)
        self.loaded = {}
        self.sources = {}
        self.import_log = []
        self.ops = Ops()
        self.interp = Interp(self.ops)
        self.ops.loader = self

    # the analysed package
    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def import_module(self, name, fr=None):
        self.import_log.append((fr.globals.get("__name__") if fr is not None else None, name))
        top = name.split(".")[0]
        if name in self.missing or top in self.missing:
            raise tag(ModuleNotFoundError(f"No module named {name!r}"))
        if name in self.loaded:
            return self.loaded[name]
        if top == "serde":
            return self.load(name)
        if name in self.ops.modules:
            return self.ops.modules[name]
        if name in USER_MODULES:
            return USER_MODULES[name]
        if name in STD:
            return importlib.import_module(name)
        if top in sys.stdlib_module_names:
            self.ops.sinks.append(("import " + name, (), self.interp.where()))
            self.ops.event("import", name)
            raise Undecided(f"import of {name} has no model")
        raise tag(ModuleNotFoundError(f"No module named {name!r}"))

    def load(self, name):
        parts = name.split(".")
        if len(parts) > 1:
            self.import_module(".".join(parts[:-1]))
            if name in self.loaded:
                return self.loaded[name]
        path, pkg = self.path_of(name)
        if path is None:
            raise tag(ModuleNotFoundError(f"No module named {name!r}"))
        with open(path, encoding="utf-8") as f:
            src = f.read()
        rel = os.path.relpath(path, self.repo)
        tree = ast.parse(src, rel)
        self.sources[name] = (rel, src, tree)
        m = types.ModuleType(name)
        m.__file__ = rel
        m.__package__ = name if pkg else ".".join(parts[:-1])
        if pkg:
            m.__path__ = []
        m.__dict__["__builtins__"] = __builtins__
        self.loaded[name] = m
        sys.modules[name] = m
        try:
            self.interp.run_module(tree, rel, m.__dict__)
        except BaseException:
            self.loaded.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if len(parts) > 1:
            setattr(self.loaded[".".join(parts[:-1])], parts[-1], m)
        return m


USER_MODULES = {}


def user_module(name="abs_user"):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        sys.modules[name] = m
        USER_MODULES[name] = m
    return m


def purge():
    for k in [k for k in sys.modules if k == "serde" or k.startswith("serde.")]:
        del sys.modules[k]
