"""The operating system as seen by the code under contract: nothing real is touched."""
import io
import os as _os
import types

from . import sym
from .symstr import SymStr, NumStr
from .sym import Unsupported


class PathOf:
    """directory (concrete) + one name that may be symbolic or opaque"""

    def __init__(self, d, base):
        self.dir, self.base = d, base

    def __eq__(self, o):
        return isinstance(o, PathOf) and o.dir == self.dir and o.base is self.base

    def __hash__(self):
        return hash(self.dir)

    def __fspath__(self):
        raise Unsupported("symbolic path given to the operating system")

    def __repr__(self):
        return f"<path in {self.dir}>"

    def __str__(self):
        raise Unsupported("text of a symbolic path")
    __format__ = lambda self, s: "<path>"

    def __bool__(self):
        return True

    @property
    def t(self):
        import z3
        return z3.Concat(z3.StringVal(self.dir.rstrip("/") + "/"), self.base.t)

    def endswith(self, p):
        return SymStr(self.t).endswith(p)

    def startswith(self, p):
        return SymStr(self.t).startswith(p)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("str." + a + " of a symbolic path")


def join(*ps):
    if all(isinstance(p, str) for p in ps):
        return _os.path.join(*ps)
    if len(ps) >= 2 and all(isinstance(p, str) for p in ps[:-1]):
        d = _os.path.join(*ps[:-1])
        return PathOf(d.rstrip("/") or "/", ps[-1])
    raise Unsupported("os.path.join of symbolic directories")


def basename(p):
    return p.base if isinstance(p, PathOf) else p if isinstance(p, SymStr) else _os.path.basename(p)


def dirname(p):
    return p.dir if isinstance(p, PathOf) else _os.path.dirname(p)


def _tag(name):
    def f(*a, **k):
        h = sym.ctx().tags.get(name) if sym.ctx() else None
        if h is None:
            raise Unsupported("os-level call " + name)
        return h(*a, **k)
    return f


def splitext(p):
    if isinstance(p, (PathOf, SymStr)):
        raise Unsupported("os.path.splitext")
    return _os.path.splitext(p)


def open_(*a, **k):
    h = sym.ctx().tags.get("open") if sym.ctx() else None
    if h is not None:
        return h(*a, **k)
    return io.StringIO()


def make():
    path = types.ModuleType("os.path")
    path.__getattr__ = lambda n: getattr(_os.path, n)
    path.join, path.basename, path.dirname, path.splitext = join, basename, dirname, splitext
    path.split = lambda p: (dirname(p), basename(p))
    for n in ("exists", "isfile", "isdir", "getmtime"):
        setattr(path, n, _tag(n))
    m = types.ModuleType("os")
    m.__getattr__ = lambda n: getattr(_os, n)
    m.path = path
    for n in ("listdir", "scandir", "walk", "makedirs", "remove", "rename", "mkdir"):
        setattr(m, n, _tag(n))
    g = types.ModuleType("glob")
    g.glob = _tag("glob")
    g.iglob = _tag("glob")
    et = types.ModuleType("xml.etree.ElementTree")
    import xml.etree.ElementTree as _et
    et.__getattr__ = lambda n: getattr(_et, n)
    et.parse = _tag("et_parse")
    et.Element = _et.Element
    x = types.ModuleType("xml")
    x.etree = types.ModuleType("xml.etree")
    x.etree.ElementTree = et
    return {"os": m, "os.path": path, "glob": g, "xml.etree.ElementTree": et, "xml": x}
