"""Boolean connectives without forking.

`a and b`, `a or b`, `not a`, `a < b < c` on symbolic operands normally fork the path, because Python needs to
know whether to evaluate the next operand.  Where the next operand is a pure expression (names, constants,
arithmetic, comparisons, subscripts, min/max/int/len/sum/bool/abs of those) it can be evaluated in either case
and the value of the connective is a formula.  Rewriting, with E' the checked copy of E below:

    A and B   ->   (__pv_both__(B') if __pv_sym__(A) else __pv_top__() and B)      B pure
    A or B    ->   (__pv_either__(B') if __pv_sym__(A) else __pv_top__() or B)
    not A     ->   __pv_not__(A)
    a < b < c ->   a < b and b < c                                                 b a name or constant

Comprehensions over collections known only by their elements' properties are refused (pv.focus needs a loop
statement); zip, map, filter and iter refuse them too.

On concrete operands this is Python's own meaning.  In B' subscripts and calls are guarded: an exception there
(the operand would not have been evaluated) makes the unit undecided instead of being reported.
"""
import ast

from . import sym
from .sym import Sym, SymBool, SymInt, And, Or, Not, ite, is_num, is_boolish, Unsupported

PURE_CALLS = ("min", "max", "int", "len", "sum", "bool", "abs")
_stack = []


def _truth(x):
    return x if isinstance(x, SymBool) else x != 0


def is_sym(a):
    _stack.append(a)
    return isinstance(a, Sym)


def top():
    return _stack.pop()


def both(b):
    a = _stack.pop()
    if isinstance(a, SymBool) and is_boolish(b):
        return And(a, b)
    if is_num(b):
        return ite(_truth(a), b, 0)          # the value of a false number or bool is 0
    return b if bool(a) else a


def either(b):
    a = _stack.pop()
    if isinstance(a, SymBool) and is_boolish(b):
        return Or(a, b)
    if is_num(b):
        return ite(_truth(a), a, b)
    return a if bool(a) else b


def not_(a):
    return Not(_truth(a)) if isinstance(a, Sym) else not a


def get(o, i):
    try:
        return o[i]
    except Exception as e:
        raise Unsupported(f"an operand that may not be evaluated fails: {e}")


def call(f, *a):
    if f not in _known:
        raise Unsupported("a call in a condition")
    try:
        return f(*a)
    except Exception as e:
        raise Unsupported(f"an operand that may not be evaluated fails: {e}")


_known = []


def comp(x):
    """what a comprehension iterates over: never a collection known only by its elements' properties"""
    if _ghost(x):
        raise Unsupported("a comprehension over an arbitrary collection")
    return x


def _ghost(x):
    from . import cut, npshim
    return isinstance(x, (cut.GhostSeq, cut.GhostEnum, cut.GhostIter, npshim.GuardedWhere)) or (
        isinstance(x, cut.GhostList)) or type(x).__name__ == "generator" and x.__name__ in ("_enum_list", "focus_iter")


def _no_ghost(f):
    def g(*a, **k):
        if any(_ghost(x) for x in a):
            raise Unsupported(f"{f.__name__}() of an arbitrary collection")
        return f(*a, **k)
    return g


def shims(builtins):
    _known[:] = [builtins[n] for n in PURE_CALLS]
    return {"__pv_sym__": is_sym, "__pv_top__": top, "__pv_both__": both, "__pv_either__": either, "__pv_not__": not_,
            "__pv_get__": get, "__pv_call__": call, "__pv_comp__": comp,
            "zip": _no_ghost(zip), "map": _no_ghost(map), "filter": _no_ghost(filter), "iter": _no_ghost(iter)}


def pure(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and not isinstance(n.slice, (ast.Slice, ast.Tuple)) and pure(n.slice)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords and all(pure(a) for a in n.args)
    return False


def _name(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])


def _copy(n):
    import copy
    return copy.deepcopy(n)


class Guard(ast.NodeTransformer):
    """the checked copy of an already rewritten pure expression"""

    def visit_Subscript(self, n):
        self.generic_visit(n)
        return _name("__pv_get__", n.value, n.slice)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS:
            return _name("__pv_call__", n.func, *n.args)
        return n


class Merge(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return ast.copy_location(_name("__pv_not__", n.operand), n) if isinstance(n.op, ast.Not) else n

    def visit_Compare(self, n):
        if len(n.ops) > 1 and all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators[:-1]):
            parts, left = [], n.left
            for o, c in zip(n.ops, n.comparators):
                parts.append(ast.Compare(_copy(left), [o], [_copy(c)]))
                left = c
            return self.visit(ast.copy_location(ast.BoolOp(ast.And(), parts), n))
        self.generic_visit(n)
        return n

    def visit_BoolOp(self, n):
        vals = n.values
        r = self.visit(_copy(vals[0]))
        is_and = isinstance(n.op, ast.And)
        for v in vals[1:]:
            p = pure(v)
            w = self.visit(_copy(v))
            if p:
                r = ast.IfExp(_name("__pv_sym__", r), _name("__pv_both__" if is_and else "__pv_either__", Guard().visit(_copy(w))),
                              ast.BoolOp(n.op, [_name("__pv_top__"), w]))
            else:
                r = ast.BoolOp(n.op, [r, w])
        return ast.copy_location(r, n)


class Comp(ast.NodeTransformer):
    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = ast.copy_location(_name("__pv_comp__", n.iter), n.iter)
        return n


def rewrite(name, tree):
    return Comp().visit(Merge().visit(tree))
