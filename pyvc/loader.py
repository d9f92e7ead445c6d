"""Import hook: loads the packages under verification in instrumented form."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from .rewrite import instrument

REPO = os.environ.get("PYVC_REPO", "/repo")
EXCLUDE = ("pdr.pds4_tools", "pdr.tests")
INCLUDE = ("pdr.pds4_tools.reader.read_", "pdr.pds4_tools.reader.core",
           "pdr.pds4_tools.reader.table_objects",
           "pdr.pds4_tools.reader.array_objects")
LOADED = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks
        with open(self.path, "rb") as f:
            src = f.read()
        code = instrument(src, self.path)
        module.__dict__["__vc__"] = hooks
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.path, encoding="utf-8") as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "pdr" and not name.startswith("pdr."):
            return None
        if any(name == e or name.startswith(e + ".") for e in EXCLUDE) and \
                not name.startswith(INCLUDE):
            base = os.path.join(REPO, *name.split("."))
            if os.path.isfile(os.path.join(base, "__init__.py")):
                return importlib.util.spec_from_file_location(
                    name, os.path.join(base, "__init__.py"),
                    submodule_search_locations=[base])
            if os.path.isfile(base + ".py"):
                return importlib.util.spec_from_file_location(
                    name, base + ".py")
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, True),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, False))
        return None


def install():
    for m in list(sys.modules):
        if m == "pdr" or m.startswith("pdr."):
            raise RuntimeError("pdr already imported uninstrumented")
    sys.meta_path.insert(0, Finder())
