"""Loads the package under test from its current source, with stand-ins for its environment."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import arr, shims

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "diamondback"
_CODE = {}
_EXPORTS = {}


def source_path(modname):
    rel = modname.split(".")
    base = os.path.join(REPO, *rel)
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py"), True
    return base + ".py", False


def code_of(path, text=False):
    c = _CODE.get((path, text))
    if c is None:
        with open(path, "rb") as f:
            c = f.read()
        if text:
            from . import text as tx
            c = tx.rewrite(ast.parse(c, path))
        c = compile(c, path, "exec", dont_inherit=True)
        _CODE[path, text] = c
    return c


def exports(modname):
    """name -> module, from the import statements of a package's __init__"""
    r = _EXPORTS.get(modname)
    if r is None:
        r = {}
        path, ispkg = source_path(modname)
        if ispkg and os.path.exists(path):
            with open(path, "rb") as f:
                tree = ast.parse(f.read())
            for n in tree.body:
                if isinstance(n, ast.ImportFrom):
                    m = n.module or ""
                    if n.level:
                        base = modname.split(".")
                        base = base[:len(base) - (n.level - 1)]
                        m = ".".join(base + ([m] if m else []))
                    for a in n.names:
                        r[a.asname or a.name] = (m, a.name)
        _EXPORTS[modname] = r
    return r


class Package(types.ModuleType):
    """A package whose exported names are loaded when used."""

    def __init__(self, name, ld):
        super().__init__(name)
        self.__dict__["_ld"] = ld
        self.__path__ = [source_path(name)[0]]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        e = exports(self.__name__).get(name)
        if e is not None:
            m = self._ld.load(e[0])
            v = getattr(m, e[1])
            setattr(self, name, v)
            return v
        path, ispkg = source_path(self.__name__ + "." + name)
        if os.path.exists(path):
            return self._ld.load(self.__name__ + "." + name)
        raise AttributeError(name)


class Loader:
    def __init__(self, stubs=None):
        self.stubs = dict(stubs or {})
        self.mods = {}
        self.scipy = shims.Scipy(self.stubs)
        b = dict(shims.BUILTINS)
        b["__import__"] = self.imp
        for k, v in self.stubs.items():
            if k.startswith("builtins."):
                b[k[9:]] = v
        self.text = "builtins.str" in self.stubs
        if self.text:
            from . import text as tx
            b.update(tx.HELPERS)
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, ispkg = source_path(name)
        if ispkg:
            m = Package(name, self)
            self.mods[name] = m
            return m
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(code_of(path, self.text), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def find(self, name):
        """stand-in or real module for a dotted name"""
        if name in self.stubs:
            return self.stubs[name]
        top = name.split(".")[0]
        if top == PKG:
            return self.load(name)
        if top == "numpy":
            m = arr.NP
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if name == "math":
            return shims.MATH
        if name == "cmath":
            return shims.CMATH
        if top == "scipy":
            m = self.scipy
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if top in self.stubs:
            m = self.stubs[top]
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        return importlib.import_module(name)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "")
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.find(name)
        if fromlist:
            if name.split(".")[0] == PKG or any(k.startswith(name + ".") for k in self.stubs):
                return _From(self, name, m)
            return m
        # import a.b.c binds a
        top = name.split(".")[0]
        return self.find(top)


class _From:
    """what `from m import names` reads"""

    def __init__(self, ld, name, m):
        self._ld, self._name, self._mod = ld, name, m

    def __getattr__(self, k):
        s = self._ld.stubs.get(self._name + "." + k)
        if s is not None:
            return s
        try:
            return getattr(self._mod, k)
        except AttributeError:
            if self._name.split(".")[0] == PKG:
                return self._ld.load(self._name + "." + k)
            raise
