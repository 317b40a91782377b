"""Specification operators usable on symbolic values (verification) and on plain values (replay)."""
try:
    from .sym import (And, Or, Not, Implies, Iff, ite, b2i, Sum, Sym, SymInt, SymBool, PathEnd,
                      Unsupported, Undecided, mk_bool, mk_int)
    HAVE_SYM = True
except ImportError:
    HAVE_SYM = False

    class Sym:
        pass

    class SymInt(Sym):
        pass

    class SymBool(Sym):
        pass

    class PathEnd(BaseException):
        pass

    class Unsupported(BaseException):
        pass

    class Undecided(BaseException):
        pass

    def _flat(xs):
        if len(xs) == 1 and hasattr(xs[0], "__iter__"):
            return list(xs[0])
        return xs

    def And(*xs):
        return all(bool(x) for x in _flat(xs))

    def Or(*xs):
        return any(bool(x) for x in _flat(xs))

    def Not(x):
        return not x

    def Implies(a, b):
        return (not a) or bool(b)

    def Iff(a, b):
        return bool(a) == bool(b)

    def ite(c, a, b):
        return a if c else b

    def b2i(x):
        return int(x)

    def Sum(xs):
        r = 0
        for x in xs:
            r = r + x
        return r


class Unit:
    """One group of obligations: a harness with its precondition, the functions it covers and its cases."""

    def __init__(self, name, fn, mode="int", cases=None, env="plain", covers=(), functions=(), search=400,
                 exhaustive=0, timeout_ms=20000, max_paths=400000, native_cases=None, bounded=None,
                 native=True, time_limit=600, native_fn=None, min_vcs=1, heavy=1, smoke=30, replayable=True, split=()):
        self.name, self.fn, self.mode = name, fn, mode
        self.cases = cases or [{}]
        self.env = env
        self.covers = covers
        self.functions = functions
        self.search = search
        self.exhaustive = exhaustive
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.native = native
        self.bounded = bounded
        self.time_limit = time_limit
        self.native_fn = native_fn
        self.min_vcs = min_vcs
        self.heavy = heavy
        self.smoke = smoke
        self.split = split                # parameters that split one arbitrary element into cases
        self.replayable = replayable      # the inputs of a counterexample replay on the real code
