"""pv.loader - load the modules of the repository under verification.

The source text is read from the repository on every run.  The only changes made to it before
execution are: (1) `except:` becomes `except Exception:` so that the engine's control exceptions
pass through; (2) builtins (`int`, `float`, `bool`, `list`, `min`, `max`, `len`, `enumerate`, `range`) are replaced by
versions that behave identically on concrete values and also accept symbolic ones; (3) imports of
numpy, torch and the mahjong library are redirected to the contract stubs given by the unit's
environment; (4) every `while` condition is preceded by a call that announces the loop head to the
engine and returns True (`for` loops need nothing: see pv.cut); (5) an f-string becomes a call with
its parts, which gives the same text, or a text with a symbolic number in it.
"""
import ast
import builtins as B
import importlib.abc
import importlib.util
import os
import sys

from . import sym, cut, state
from .sym import Sym, SymInt, SymBool, as_num, ite, mk_bool, is_num
from .symstr import NumStr


class _NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._kinds)

    def __subclasscheck__(cls, c):
        return B.issubclass(c, cls._kinds)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class _IntMeta(_NumMeta):
    def __call__(cls, x=0, *a, **k):
        if isinstance(x, Sym):
            return as_num(x)
        if hasattr(x, "__symint__"):
            return x.__symint__()
        return B.int(x, *a, **k)


class int_(metaclass=_IntMeta):
    _kinds = (B.int, SymInt, SymBool)
    _real = B.int
    from_bytes = B.int.from_bytes


class _FloatMeta(_NumMeta):
    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return as_num(x)
        if hasattr(x, "__symint__"):
            return x.__symint__()
        return B.float(x)


class float_(metaclass=_FloatMeta):
    _kinds = (B.float, SymInt)
    _real = B.float


class _BoolMeta(_NumMeta):
    def __call__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return B.bool(x)


class bool_(metaclass=_BoolMeta):
    _kinds = (B.bool, SymBool)
    _real = B.bool


class _ListMeta(_NumMeta):
    def __call__(cls, *a):
        if len(a) == 1:
            if isinstance(a[0], cut.GhostList):
                return a[0][:]
            f = getattr(type(a[0]), "__symlist__", None)
            if f is not None:
                return f(a[0])
        return B.list(*a)


class list_(metaclass=_ListMeta):
    _kinds = (B.list,)
    _real = B.list
    append, extend, sort, copy, pop, index, count, insert = (B.list.append, B.list.extend, B.list.sort, B.list.copy,
                                                              B.list.pop, B.list.index, B.list.count, B.list.insert)

    def __class_getitem__(cls, i):
        return B.list[i]


def _fold(args, key, default, pick, real):
    if len(args) == 1:
        items = B.list(args[0])
    else:
        items = B.list(args)
    if key is None and any(isinstance(i, Sym) for i in items):
        r = items[0]
        for i in items[1:]:
            r = ite(pick(i, r), i, r)
        return r
    if not items:
        if default is not _fold:
            return default
    return real(items, key=key) if key else real(items)


def min_(*args, key=None, default=_fold):
    return _fold(args, key, default, lambda a, b: a < b, B.min)


def max_(*args, key=None, default=_fold):
    return _fold(args, key, default, lambda a, b: a > b, B.max)


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def range_(*a):
    c = sym.ctx()
    h = c.tags.get("range") if c is not None else None
    r = h(*a) if h is not None else None
    return r if r is not None else B.range(*a)


def fstr_(parts):
    """an f-string: [text or (value, conversion, format)]"""
    if any(not isinstance(p, str) and isinstance(p[0], (SymInt, NumStr)) and p[1] == -1 and p[2] == "" for p in parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p[0], NumStr) and p[1] == -1 and p[2] == "":
                out += p[0].parts
            elif isinstance(p[0], SymInt) and p[1] == -1 and p[2] == "":
                out.append(p[0])
            else:
                out.append(_one(p))
        return NumStr.make(*out)
    return "".join(p if isinstance(p, str) else _one(p) for p in parts)


def _one(p):
    v, conv, spec = p
    if conv != -1:
        v = {"r": repr, "s": str, "a": ascii}[chr(conv)](v)
    return format(v, spec)


SHIMS = {"int": int_, "float": float_, "bool": bool_, "list": list_, "min": min_, "max": max_, "len": cut.len_,
         "enumerate": cut.enumerate_, "range": range_, "__pv_fstr__": fstr_, "__pv_while__": cut.while_}


class Transform(ast.NodeTransformer):
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.copy_location(ast.Name("Exception", ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            if v.format_spec is not None:
                spec = self.visit_JoinedStr(v.format_spec)
            else:
                spec = ast.Constant("")
            parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        call = ast.Call(ast.Name("__pv_fstr__", ast.Load()), [ast.List(parts, ast.Load())], [])
        return ast.fix_missing_locations(ast.copy_location(call, n))

    def visit_While(self, n):
        self.generic_visit(n)
        call = ast.Call(ast.Name("__pv_while__", ast.Load()), [], [])
        n.test = ast.copy_location(ast.BoolOp(ast.And(), [call, n.test]), n.test)
        return n


class Env:
    """What a unit's copy of the repository sees instead of third-party packages."""

    def __init__(self, repo, stubs=None, extra_transform=None, package="MahjongAI", loop_hooks=None):
        self.repo = repo
        self.stubs = stubs or {}
        self.package = package
        self.loop_hooks = loop_hooks
        self.sources = {}
        self.states = []
        self.builtins = dict(vars(B))
        self.builtins.update(SHIMS)
        self.builtins["__import__"] = self._import
        self.builtins["print"] = lambda *a, **k: None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            if name in self.stubs:
                m = self.stubs[name]
                if not fromlist and "." in name:
                    return self.stubs.get(root, m)
                return m
            if root in self.stubs:
                m = self.stubs[root]
                if not fromlist:
                    return m
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
        return B.__import__(name, globals, locals, fromlist, level)

    # --- finder / loader
    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        rel = fullname.split(".")
        base = os.path.join(self.repo, *rel)
        if os.path.isdir(base):
            spec = importlib.util.spec_from_loader(fullname, self, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_loader(fullname, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        rel = module.__name__.split(".")
        base = os.path.join(self.repo, *rel)
        p = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        src = open(p, encoding="utf-8").read() if os.path.exists(p) else ""
        self.sources[module.__name__] = src
        tree = ast.parse(src, p)
        tree = Transform().visit(tree)
        if self.loop_hooks:
            tree = self.loop_hooks(module.__name__, tree, p)
        ast.fix_missing_locations(tree)
        module.__file__ = p
        module.__dict__["__builtins__"] = self.builtins
        exec(compile(tree, p, "exec"), module.__dict__)
        self.states.append((module, state.of_module(module, self.package), state.save(module, self.package)))

    def state_changed(self):
        """names of module-level state that a call has changed; it is put back as it was"""
        r = []
        for m, old, saved in self.states:
            ch = state.changed(old, state.of_module(m, self.package))
            if ch:
                r += [f"{m.__name__}.{k}" for k in ch]
                state.restore(m, saved)
        return r

    def install(self):
        for k in [k for k in sys.modules if k == self.package or k.startswith(self.package + ".")]:
            del sys.modules[k]
        sys.meta_path.insert(0, self)
        return self

    def uninstall(self):
        if self in sys.meta_path:
            sys.meta_path.remove(self)
        for k in [k for k in sys.modules if k == self.package or k.startswith(self.package + ".")]:
            del sys.modules[k]
