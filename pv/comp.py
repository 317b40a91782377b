"""List comprehensions over sequences of arbitrary length: `[f(x) for x in seq]` is the sequence of the f(x), in order.

A comprehension with one plain variable and no condition becomes a call of `__pv_mapcomp__(lambda x: f(x), seq)` when
f(x) is built from names, attributes, literals and calls rooted at `os` only; anything but a GhostSeq is listed as written."""
import ast

from . import cut
from .sym import Unsupported

SAFE = (ast.Constant, ast.Name, ast.Attribute, ast.Dict, ast.Tuple, ast.List, ast.Call, ast.expr_context, ast.JoinedStr, ast.FormattedValue)


def rooted_os(f):
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name) and f.id == "os"


class Rewrite(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) != 1 or g.is_async or g.ifs or not isinstance(g.target, ast.Name):
            return n
        for x in ast.walk(n.elt):
            if not isinstance(x, SAFE) or isinstance(x, ast.Call) and (not rooted_os(x.func) or x.keywords):
                return n
        lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
        return ast.copy_location(ast.Call(ast.Name("__pv_mapcomp__", ast.Load()), [lam, g.iter], []), n)


def rewrite(name, tree, file):
    return ast.fix_missing_locations(Rewrite().visit(tree))


def mapcomp(fn, it):
    if isinstance(it, cut.GhostSeq):
        m = getattr(it, "map", None)
        if m is None:
            raise Unsupported("comprehension over an arbitrary sequence")
        return m(fn)
    return [fn(x) for x in it]


def shims():
    return {"__pv_mapcomp__": mapcomp}
