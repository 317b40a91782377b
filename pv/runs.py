"""Lists and strings made of runs of equal items, where the length of a run is symbolic.

`[x] * n` with a symbolic n is a run; adding lists to runs, the position of an item, replacing the item at such a
position, `list(...)`, `map(str, ...)` and `"".join(...)` are understood.  Anything else is untranslatable.
The rewrite sends `list(E)` and `<string>.join(E)` through this module; on ordinary values they are Python's own."""
import ast

from . import sym
from .sym import SymInt, Unsupported


class Pos:
    """the position of the first item of a run"""

    def __init__(self, owner, i):
        self.owner, self.i = owner, i


class Runs:
    def __init__(self, runs):
        self.runs = [list(r) for r in runs]

    @staticmethod
    def of(x):
        if isinstance(x, Runs):
            return x.runs
        if isinstance(x, list) and not hasattr(x, "__symlen__"):
            return [[v, 1] for v in x]
        raise Unsupported("a run added to something else")

    def __add__(self, o):
        return Runs(self.runs + Runs.of(o))

    def __radd__(self, o):
        return Runs(Runs.of(o) + self.runs)

    def __iadd__(self, o):
        self.runs += [list(r) for r in Runs.of(o)]
        return self

    extend = __iadd__

    def append(self, x):
        self.runs.append([x, 1])

    def copy(self):
        return Runs(self.runs)

    def index(self, v):
        for i, (x, n) in enumerate(self.runs):
            if x == v and bool(n > 0):
                return Pos(self, i)
        raise ValueError(f"{v!r} is not in list")

    def __setitem__(self, p, v):
        if not isinstance(p, Pos) or p.owner is not self:
            raise Unsupported("assignment into a run")
        x, n = self.runs[p.i]
        self.runs[p.i:p.i + 1] = [[v, 1], [x, n - 1]]

    def _no(self, *a, **k):
        raise Unsupported("this operation on a run of symbolic length")
    __iter__ = __len__ = __getitem__ = __contains__ = __bool__ = __eq__ = __mul__ = __delitem__ = _no
    remove = pop = insert = sort = count = reverse = _no
    __hash__ = None


class RunText:
    def __init__(self, runs):
        self.runs = runs

    def __add__(self, o):
        return RunText(self.runs + text(o))

    def __radd__(self, o):
        return RunText(text(o) + self.runs)

    def _no(self, *a, **k):
        raise Unsupported("this operation on a text of symbolic length")
    __iter__ = __len__ = __getitem__ = __contains__ = __bool__ = __eq__ = __mul__ = _no
    __hash__ = None


def text(x):
    if isinstance(x, RunText):
        return x.runs
    if isinstance(x, str):
        return [[ch, 1] for ch in x]
    raise Unsupported("text of another kind")


def repeat(xs, n):
    if len(xs) != 1:
        raise Unsupported("a repeated list of several items")
    return Runs([[xs[0], n]])


def join(sep, x):
    if not isinstance(x, Runs):
        return sep.join(x)
    if sep != "":
        raise Unsupported("a run joined by a separator")
    out = []
    for v, n in x.runs:
        if not isinstance(v, str) or len(v) != 1:
            raise TypeError("sequence item: expected str instance")
        out.append([v, n])
    return RunText(out)


def map_(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], Runs):
        return Runs([[f(v), n] for v, n in xs[0].runs])
    return _map(f, *xs)


_map = map


def list_(*a):
    if len(a) == 1 and isinstance(a[0], Runs):
        return a[0].copy()
    return list(*a)


def counts(x):
    """how often each character occurs"""
    if isinstance(x, str):
        r = {}
        for ch in x:
            r[ch] = r.get(ch, 0) + 1
        return r
    if isinstance(x, RunText):
        r = {}
        for ch, n in x.runs:
            r[ch] = r.get(ch, 0) + n
        return r
    return None


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "list" and not n.keywords:
            n.func = ast.copy_location(ast.Name("__pv_list__", ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant) \
                and isinstance(n.func.value.value, str) and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("__pv_join__", ast.Load()), [n.func.value, n.args[0]], []), n)
        return n


def rewrite(tree):
    return Rewrite().visit(tree)


def shims(b):
    global _map
    _map = b["map"]
    return {"__pv_list__": list_, "__pv_join__": join, "map": map_}
