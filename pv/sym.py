"""pv.sym - symbolic values and path-wise verification condition generation.

A *unit* is a Python callable `unit(ctx)` that builds arbitrary (symbolic) inputs
allowed by a precondition, runs functions of the real code on them and states
postconditions with `ctx.prove`.  `explore` executes the unit once per feasible
path (deterministic replay of branch decisions); every `prove` on every path is
one verification condition  path-condition => postcondition.
"""
import time
import builtins as _b
import z3

W = 28                     # bit-vector width used in "bv" mode; results are proved to fit
_LO, _HI = -(1 << (W - 1)), (1 << (W - 1)) - 1


class PathEnd(BaseException):
    """The current path is infeasible or deliberately stopped."""


class Unsupported(BaseException):
    """The code uses something the engine cannot translate."""


class Undecided(BaseException):
    pass


_ctx = None


def ctx():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


# --------------------------------------------------------------------------- values
class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _ctx.branch(self.t)

    def __and__(self, o):
        return mk_bool(z3.And(self.t, bterm(o))) if is_boolish(o) else as_num(self) & o
    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.t, bterm(o))) if is_boolish(o) else as_num(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.t, bterm(o))) if is_boolish(o) else as_num(self) ^ o
    __rxor__ = __xor__

    def __invert__(self):
        # numpy-style logical not; Python's ~True == -2 is not used on bools in this code base
        return mk_bool(z3.Not(self.t))

    def __eq__(self, o):
        if is_boolish(o):
            return mk_bool(self.t == bterm(o))
        if is_num(o):
            return as_num(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    # arithmetic: a bool is 0/1
    def _n(self):
        return as_num(self)
    def __add__(self, o): return as_num(self) + o
    def __radd__(self, o): return o + as_num(self)
    def __sub__(self, o): return as_num(self) - o
    def __rsub__(self, o): return o - as_num(self)
    def __mul__(self, o): return as_num(self) * o
    def __rmul__(self, o): return o * as_num(self)
    def __lshift__(self, o): return as_num(self) << o
    def __neg__(self): return -as_num(self)
    def __lt__(self, o): return as_num(self) < o
    def __le__(self, o): return as_num(self) <= o
    def __gt__(self, o): return as_num(self) > o
    def __ge__(self, o): return as_num(self) >= o
    def astype(self, *_a, **_k): return as_num(self)
    def __repr__(self):
        return "<?bool>"
    def __format__(self, spec): return "<?bool>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def is_boolish(x):
    return isinstance(x, (bool, SymBool)) or type(x).__name__ in ("bool_", "bool")


def is_num(x):
    if isinstance(x, (SymInt, int, SymBool)):
        return True
    if isinstance(x, float):
        return True
    return type(x).__module__ == "numpy" and type(x).__name__ in (
        "float32", "float64", "int64", "int32", "bool", "bool_", "int8", "uint8", "int16")


def to_exact(x):
    """Python number -> int; floats must be integral (counts are exact)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    f = float(x)
    if f == int(f):
        return int(f)
    raise Unsupported(f"non-integral number {x!r} mixed with a symbolic count")


# terms made before are not made again: (operation, ids of the arguments) -> result; the arguments are kept alive
# with the entry, so an id stands for one term as long as the entry exists
_MADE = {}


def made(key, build, *args):
    v = _MADE.get(key)
    if v is None:
        if len(_MADE) > 400000:
            _MADE.clear()
        v = _MADE[key] = build(*args), args
    return v[0]


def aid(t):
    return t.get_id()


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != x._c(0)
    return z3.BoolVal(bool(x))


def as_num(x):
    if isinstance(x, SymBool):
        return made(("num", aid(x.t), _ctx.mode), _bool_num, x.t)
    if isinstance(x, SymInt):
        return x
    return to_exact(x)


def _bool_num(t):
    return mk_int(z3.If(t, _ctx.const(1), _ctx.const(0)), 0, 1)


def _both(op):
    def f(ts):
        return mk_bool(op(ts))
    return lambda ts: made((op.__name__,) + tuple([aid(t) for t in ts]), f, ts)


def mk_int(t, lo, hi, factors=None):
    if lo is not None and lo == hi:
        return lo
    if z3.is_bv(t):
        if lo < _LO or hi > _HI:
            raise Unsupported("integer range exceeds the bit-vector width")
        if z3.is_bv_value(t):
            return t.as_signed_long()
    elif z3.is_int_value(t):
        return t.as_long()
    return SymInt(t, lo, hi, factors)


def _min(*a):
    return None if any(x is None for x in a) else min(a)


def _max(*a):
    return None if any(x is None for x in a) else max(a)


def _add(a, b):
    return None if a is None or b is None else a + b


class SymInt(Sym):
    """A mathematical integer: z3 Int, or a W-bit vector whose interval proves it does not wrap."""
    __slots__ = ("t", "lo", "hi", "factors")

    def __init__(self, t, lo, hi, factors=None):
        self.t, self.lo, self.hi, self.factors = t, lo, hi, factors

    def _c(self, v):
        return z3.BitVecVal(v, W) if z3.is_bv(self.t) else z3.IntVal(v)

    def _o(self, o):
        """operand -> (term, lo, hi) or None"""
        if isinstance(o, SymBool):
            o = as_num(o)
        if isinstance(o, SymInt):
            return o.t, o.lo, o.hi
        if is_num(o):
            v = to_exact(o)
            if z3.is_bv(self.t) and not (_LO <= v <= _HI):
                raise Unsupported("constant exceeds the bit-vector width")
            return self._c(v), v, v
        return None

    # ---- arithmetic
    def __add__(self, o):
        if not isinstance(o, Sym) and is_num(o) and o == 0:
            return self
        p = self._o(o)
        if p is None:
            return NotImplemented
        return mk_int(self.t + p[0], _add(self.lo, p[1]), _add(self.hi, p[2]))
    __radd__ = __add__

    def __neg__(self):
        return mk_int(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __sub__(self, o):
        if not isinstance(o, Sym) and is_num(o) and o == 0:
            return self
        p = self._o(o)
        if p is None:
            return NotImplemented
        return mk_int(self.t - p[0], None if self.lo is None or p[2] is None else self.lo - p[2],
                      None if self.hi is None or p[1] is None else self.hi - p[1])

    def __rsub__(self, o):
        p = self._o(o)
        if p is None:
            return NotImplemented
        return mk_int(p[0] - self.t, None if self.hi is None or p[1] is None else p[1] - self.hi,
                      None if self.lo is None or p[2] is None else p[2] - self.lo)

    def __mul__(self, o):
        if not isinstance(o, Sym) and is_num(o):
            if o == 1:
                return self
            if o == 0:
                return 0
        p = self._o(o)
        if p is None:
            if type(o) is list and _ctx.tags.get("runs"):
                from . import runs
                return runs.repeat(o, self)
            return NotImplemented
        if None in (self.lo, self.hi, p[1], p[2]):
            lo = hi = None
        else:
            c = [self.lo * p[1], self.lo * p[2], self.hi * p[1], self.hi * p[2]]
            lo, hi = min(c), max(c)
        f = None
        if isinstance(o, (SymInt, SymBool)):
            f = tuple(x for y in (self, as_num(o)) for x in (y.factors or (y,)))
        return mk_int(self.t * p[0], lo, hi, f)
    __rmul__ = __mul__

    def _divmod_const(self, o):
        if isinstance(o, Sym):
            o = _ctx.concretize(o)
        d = to_exact(o)
        if d <= 0:
            raise Unsupported("division by a non-positive constant")
        return d

    def __floordiv__(self, o):
        d = self._divmod_const(o)
        if d == 1:
            return self
        lo = None if self.lo is None else self.lo // d
        hi = None if self.hi is None else self.hi // d
        if z3.is_bv(self.t):
            c = self._c(d)
            if self.lo >= 0:
                if d & (d - 1) == 0:
                    return mk_int(z3.LShR(self.t, d.bit_length() - 1), lo, hi)
                return mk_int(z3.UDiv(self.t, c), lo, hi)
            return mk_int(z3.If(self.t >= 0, z3.UDiv(self.t, c), -1 - z3.UDiv(-1 - self.t, c)), lo, hi)
        return mk_int(self.t / d, lo, hi)       # z3 Int division is floor for positive divisors

    def __rfloordiv__(self, o):
        return o // _ctx.concretize(self)

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic integer")
    __rtruediv__ = __truediv__

    def __mod__(self, o):
        d = self._divmod_const(o)
        if self.lo is not None and self.hi is not None and self.lo >= 0 and self.hi < d:
            return self
        lo, hi = 0, d - 1
        if z3.is_bv(self.t):
            c = self._c(d)
            if self.lo >= 0:
                if d & (d - 1) == 0:
                    return mk_int(self.t & self._c(d - 1), lo, min(hi, self.hi))
                return mk_int(z3.URem(self.t, c), lo, min(hi, self.hi))
            return mk_int(z3.If(self.t >= 0, z3.URem(self.t, c), d - 1 - z3.URem(-1 - self.t, c)), lo, hi)
        return mk_int(self.t % d, lo, hi)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return o % _ctx.concretize(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power")

    # ---- bits
    def _bits(self, o, f, lohi):
        if not z3.is_bv(self.t):
            return self._int_bits(o, lohi)
        p = self._o(o)
        if p is None:
            return NotImplemented
        lo, hi = self._bit_range(p, lohi)
        return mk_int(f(self.t, p[0]), lo, hi)

    def _int_bits(self, o, op):
        """Bit operations in integer mode: constant masks on non-negative values only."""
        if isinstance(o, Sym):
            o = as_num(o)
            if isinstance(o, Sym):
                return self._disjoint_bits(o, op)
        c = to_exact(o)
        if self.lo is None or self.lo < 0 or c < 0 and op != "and":
            raise Unsupported("bit operation on possibly negative integer")
        n = self
        if c < 0:                       # x & ~m  ==  x - (x & m)
            return n - n._int_bits(~c, "and")
        acc = 0
        bit = 0
        m = c
        while m:
            while not m & 1:
                m >>= 1
                bit += 1
            ln = 0
            while m & 1:
                m >>= 1
                ln += 1
            acc = acc + ((n // (1 << bit)) % (1 << ln)) * (1 << bit)
            bit += ln
        if op == "and":
            return acc
        if op == "or":
            return n + c - acc
        return n + c - acc - acc

    def _disjoint_bits(self, o, op):
        """x | y (and ^, &) of two symbolic non-negative integers whose bits cannot overlap."""
        if op in ("or", "xor", "and") and None not in (self.lo, self.hi, o.lo, o.hi) and self.lo >= 0 and o.lo >= 0:
            big, small = (self, o) if self.hi >= o.hi else (o, self)
            for a, b in ((big, small), (small, big)):
                k = 1 << b.hi.bit_length()
                if _ctx._check(a.t % k != 0)[0] == z3.unsat:
                    return 0 if op == "and" else a + b
        raise Unsupported("bit operation between symbolic integers in integer mode")

    def _bit_range(self, p, op):
        lo, hi = p[1], p[2]
        if self.lo >= 0 and lo >= 0:
            if op == "and":
                return 0, min(self.hi, hi)
            m = (1 << max(self.hi.bit_length(), hi.bit_length())) - 1
            return (max(self.lo, lo) if op == "or" else 0), m
        if op == "and" and (self.lo >= 0 or lo >= 0):
            return 0, (self.hi if self.lo >= 0 else hi)
        n = max(self.lo.bit_length(), self.hi.bit_length(), lo.bit_length(), hi.bit_length())
        return -(1 << n), (1 << n) - 1

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, "xor")
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    def __lshift__(self, o):
        if isinstance(o, Sym):
            o = _ctx.concretize(o)
        return self * (1 << int(o))

    def __rlshift__(self, o):
        k = _ctx.concretize(self)
        return o << k

    def __rshift__(self, o):
        if isinstance(o, Sym):
            o = _ctx.concretize(o)
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> _ctx.concretize(self)

    # ---- comparisons
    def _cmp(self, o, f, quick, name):
        if type(o) is int:
            if self.lo is not None and self.hi is not None:
                q = quick(self.lo, self.hi, o, o)
                if q is not None:
                    return q
            return made((name, aid(self.t), o), lambda t: mk_bool(f(t, self._o(o)[0])), self.t)
        p = self._o(o)
        if p is None:
            return NotImplemented
        if None not in (self.lo, self.hi, p[1], p[2]):
            q = quick(self.lo, self.hi, p[1], p[2])
            if q is not None:
                return q
        return made((name, aid(self.t), aid(p[0]), 0), lambda t, u: mk_bool(f(t, u)), self.t, p[0])

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if self.factors and is_num(o) and not isinstance(o, Sym) and o == 0:
            return mk_bool(z3.Or([f.t == f._c(0) for f in self.factors]))
        return self._cmp(o, lambda a, b: a == b, lambda a, b, c, d: False if b < c or d < a else None, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b, c, d: True if b < c else False if a >= d else None, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b, c, d: True if b <= c else False if a > d else None, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b, c, d: True if a > d else False if b <= c else None, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b, c, d: True if a >= d else False if b < c else None, "ge")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(_ctx.concretize(self))

    def __index__(self):
        return _ctx.concretize(self)

    def __int__(self):
        return _ctx.concretize(self)

    def __float__(self):
        return float(_ctx.concretize(self))

    def __round__(self, *_a):
        return self

    # numpy scalar look-alikes
    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        return True

    def __repr__(self):
        return "<?int>"

    def __format__(self, spec):
        return "<?int>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# --------------------------------------------------------------------------- spec operators (symbolic or concrete)
def And(*xs):
    xs = [x for x in _flat(xs)]
    ts = []
    for x in xs:
        if isinstance(x, Sym):
            ts.append(bterm(x))
        elif not x:
            return False
    if not ts:
        return True
    return _and(ts)


def Or(*xs):
    ts = []
    for x in _flat(xs):
        if isinstance(x, Sym):
            ts.append(bterm(x))
        elif x:
            return True
    if not ts:
        return False
    return _or(ts)


_and, _or = _both(z3.And), _both(z3.Or)


def _flat(xs):
    if len(xs) == 1 and not isinstance(xs[0], Sym) and hasattr(xs[0], "__iter__"):
        return list(xs[0])
    return xs


def Not(x):
    if not isinstance(x, Sym):
        return not x
    t = bterm(x)
    return made(("not", aid(t)), lambda t: mk_bool(z3.Not(t)), t)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mk_bool(bterm(a) == bterm(b))
    return bool(a) == bool(b)


def ite(c, a, b):
    """If-then-else without forking."""
    if not isinstance(c, Sym):
        return a if c else b
    if a is b and type(a) in (SymInt, int, SymBool, bool):
        return a
    ka = id(a) if isinstance(a, Sym) else (a,) if type(a) is int else None
    kb = id(b) if isinstance(b, Sym) else (b,) if type(b) is int else None
    if ka is not None and kb is not None:
        return made(("obj", id(c), ka, kb, _ctx.mode), _ite, c, a, b)
    return _ite(c, a, b)


def _ite(c, a, b):
    ct = bterm(c)
    if is_boolish(a) and is_boolish(b):
        at, bt = bterm(a), bterm(b)
        return made(("if", aid(ct), aid(at), aid(bt)), lambda c, x, y: mk_bool(z3.If(c, x, y)), ct, at, bt)
    if a is b:
        return a
    an, bn = as_num(a), as_num(b)
    if not isinstance(an, Sym) and not isinstance(bn, Sym) and an == bn:
        return an
    at = an.t if isinstance(an, Sym) else made(("c", an, _ctx.mode), lambda: _ctx.const(an))
    bt = bn.t if isinstance(bn, Sym) else made(("c", bn, _ctx.mode), lambda: _ctx.const(bn))
    al, ah = (an.lo, an.hi) if isinstance(an, Sym) else (an, an)
    bl, bh = (bn.lo, bn.hi) if isinstance(bn, Sym) else (bn, bn)
    t = made(("ite", aid(ct), aid(at), aid(bt)), lambda c, x, y: z3.simplify(z3.If(c, x, y)), ct, at, bt)
    return mk_int(t, _min(al, bl), _max(ah, bh))


def b2i(x):
    return as_num(x) if isinstance(x, Sym) else int(x)


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# --------------------------------------------------------------------------- exploration
class Report:
    """Verification conditions of one unit."""

    def __init__(self, unit):
        self.unit = unit
        self.labels = {}         # label -> dict(n, ok, trivial)
        self.failed = []         # dict(label, kind, model, detail)
        self.paths = 0
        self.covers = {}
        self.solver_s = 0.0
        self.backends = {}
        self.unsupported = None
        self.kept = None         # state a call left behind
        self.wall = 0.0
        self.summary = []
        self.claims = {}         # what one iteration of a loop was shown to do, see pv.glist.like_loop


def _engine_gap(e, tb):
    """An exception that says the engine has no model of what the code asked for, rather than that the code fails."""
    import re
    if isinstance(e, NotImplementedError):
        return True
    if isinstance(e, (AttributeError, NameError, ImportError)):
        o = getattr(e, "obj", None)
        m = type(o).__module__ or ""
        if m.split(".")[0] in ("pv", "specs") or (getattr(o, "__file__", None) or "").startswith("/verif/"):
            return True
        return "/verif/" in tb[-1].filename
    if isinstance(e, TypeError):
        import sys
        names = {n for k, v in list(sys.modules.items()) if k.split(".")[0] in ("pv", "specs") and v is not None
                 for n, x in list(vars(v).items()) if isinstance(x, type) and x.__module__ == k}
        return any(w in names for w in re.findall(r"[A-Za-z_]\w*", str(e)))
    return False


class PathSolver:
    """One solver for all paths of a unit: a path that begins like the one before keeps what was asserted."""

    def __init__(self, timeout_ms):
        self.s, self.timeout_ms = z3.Solver(), timeout_ms
        self.s.set("timeout", timeout_ms)
        self.terms, self.marks, self.cur = [], [], 0

    def begin(self):
        self.cur = 0

    def _cut(self):
        if self.cur < len(self.terms):
            n = len(self.terms)
            while n > self.cur:
                if self.marks:
                    n = self.marks.pop()
                    self.s.pop()
                else:
                    self.s = z3.Solver()
                    self.s.set("timeout", self.timeout_ms)
                    n = 0
            again = self.terms[n:self.cur]
            del self.terms[n:]
            for t in again:
                self.s.add(t)
                self.terms.append(t)

    def add(self, t, decision=False):
        if self.cur < len(self.terms):
            if self.terms[self.cur].eq(t) and (not decision or self.cur in self.marks):
                self.cur += 1
                return
            self._cut()
        if decision:
            self.s.push()
            self.marks.append(self.cur)
        self.s.add(t)
        self.terms.append(t)
        self.cur += 1

    def push(self):
        self._cut()
        self.s.push()

    def pop(self):
        self.s.pop()

    def extra(self, t):
        self.s.add(t)

    def check(self):
        return self.s.check()

    def model(self):
        return self.s.model()


class Ctx:
    symbolic = True

    def __init__(self, unit, mode="int", timeout_ms=20000, max_paths=200000, max_fail=3, params=None):
        self.unit = unit
        self.mode = mode
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_fail = max_fail
        self.params = params or {}
        self.report = Report(unit)
        self.env = None
        self.t_end = None
        self.again = False
        self.restarts = 0
        self.learned = {}       # what loops over lists of arbitrary length do, see pv.glist
        self.loop_names = {}
        self.claims = {}

    # ---- terms
    def const(self, v):
        return z3.BitVecVal(v, W) if self.mode == "bv" else z3.IntVal(v)

    def int(self, name, lo, hi):
        if lo is not None and lo == hi:
            self.inputs[name] = (None, lo)
            return lo
        if name in self.inputs:
            raise AssertionError("duplicate input " + name)
        t = made(("var", name, self.mode), lambda: z3.BitVec(name, W) if self.mode == "bv" else z3.Int(name))
        self.inputs[name] = (t, None)
        if lo is not None or hi is not None:
            self._assert(made(("bounds", aid(t), lo, hi), lambda t: z3.And(([t >= lo] if lo is not None else []) +
                                                                           ([t <= hi] if hi is not None else [])), t))
        return SymInt(t, lo, hi)

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = (t, None)
        return SymBool(t)

    def memo(self, key, build):
        """build() makes inputs and assumptions only; it is run once, later paths assert what it asserted."""
        m = self.__dict__.setdefault("_memos", {})
        if key not in m:
            k, names, pos = len(self.pc), set(self.inputs), len(self.script)
            v = build()
            assert len(self.script) == pos, "a memo that forks"
            m[key] = v, z3.And(self.pc[k:]), {n: x for n, x in self.inputs.items() if n not in names}
            return v
        v, t, inp = m[key]
        self.inputs.update(inp)
        self._assert(t)
        return v

    def start_over(self):
        """What was learned so far was incomplete: explore again with what is known now."""
        self.again = True
        raise PathEnd

    def pick(self, name, options):
        """A symbolic choice among concrete options, decided by forking."""
        i = self.int(name, 0, len(options) - 1)
        return options[i if isinstance(i, int) else self.concretize(i)]

    def choose(self, n):
        """A fork in a fixed order: all paths under choice 0 are explored before those under choice 1, ..."""
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        for i in range(n - 1, 0, -1):
            self.work.append((self.script + [i], self.model))
        self.script.append(0)
        self.pos += 1
        return 0

    def conc(self, x):
        return self.concretize(x) if isinstance(x, Sym) else x

    # ---- path condition
    def _assert(self, t):
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def _check(self, *extra):
        t0 = time.time()
        self.solver.push()
        for e in extra:
            self.solver.extra(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.report.solver_s += time.time() - t0
        return r, m

    def _need_model(self):
        if self.model is None and self._given_model is not None:
            g, self._given_model = self._given_model, None
            if all(z3.is_true(g.eval(t, model_completion=True)) for t in self.pc):
                self.model = g
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd
            if r == z3.unknown:
                raise Undecided("path condition unknown")
            self.model = m
        return self.model

    def assume(self, c):
        if not isinstance(c, Sym):
            if not c:
                raise PathEnd
            return
        t = z3.simplify(bterm(c))
        if z3.is_false(t):
            raise PathEnd
        self._assert(t)
        if self.pos >= len(self.script):
            self._need_model()

    def define(self, c):
        """An assumption about something new that can always be met: no need to ask whether the path goes on."""
        if isinstance(c, Sym):
            self._assert(z3.simplify(bterm(c)))
        elif not c:
            raise PathEnd

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = t.get_id()
        if k in self.decided:
            return self.decided[k][1]
        nt = z3.simplify(z3.Not(t))
        if nt.get_id() in self.decided:
            return not self.decided[nt.get_id()][1]
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
        else:
            m = self._need_model()
            v = z3.is_true(m.eval(t, model_completion=True))
            r, m2 = self._check(nt if v else t)
            if r != z3.unsat:
                self.work.append((self.script + [not v], m2))
            self.script.append(v)
            self.pos += 1
        self.decided[k] = (t, v)
        keep = self.model
        self.pc.append(t if v else nt)
        self.solver.add(t if v else nt, True)
        if keep is not None:
            if not z3.is_true(keep.eval(t if v else nt, model_completion=True)):
                self.model = None
        if time.time() > self.t_end:
            raise Undecided("unit time limit")
        return v

    def concretize(self, x, limit=600):
        x = as_num(x)
        if not isinstance(x, Sym):
            return x
        t = z3.simplify(x.t)
        k = ("c", t.get_id())
        if k in self.decided:
            return self.decided[k][1]
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
        else:
            m = self._need_model()
            vals = []
            e = m.eval(t, model_completion=True)
            v = e.as_signed_long() if z3.is_bv(e) else e.as_long()
            vals.append((v, m))
            self.solver.push()
            self.solver.extra(t != v)
            t0 = time.time()
            while True:
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.solver.pop()
                    raise Undecided("value enumeration unknown")
                m2 = self.solver.model()
                e = m2.eval(t, model_completion=True)
                v2 = e.as_signed_long() if z3.is_bv(e) else e.as_long()
                vals.append((v2, m2))
                if len(vals) > limit:
                    self.solver.pop()
                    raise Unsupported("a symbolic value with too many possibilities is needed concretely")
                self.solver.extra(t != v2)
            self.solver.pop()
            self.report.solver_s += time.time() - t0
            for v2, m2 in vals[1:]:
                self.work.append((self.script + [v2], m2))
            self.script.append(v)
            self.pos += 1
        self.decided[k] = (t, v)
        c = t == v
        self.pc.append(c)
        self.solver.add(c, True)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        return v

    # ---- obligations
    def prove(self, label, cond, detail=None):
        L = self.report.labels.setdefault(label, {"n": 0, "ok": 0, "simp": 0})
        L["n"] += 1
        if not isinstance(cond, Sym):
            ok = bool(cond)
            if ok:
                L["ok"] += 1
                L["simp"] += 1
                return
            self._need_model_strict()
            self._fail(label, "refuted" if self.model is not None else "unknown", self.model, detail)
            return
        t = z3.simplify(bterm(cond))
        if z3.is_true(t):
            L["ok"] += 1
            L["simp"] += 1
            return
        if self.base is not None and self._from_base(t):
            L["ok"] += 1
            self.report.backends["z3"] = self.report.backends.get("z3", 0) + 1
            return
        r, m = self._check(z3.Not(t))
        be = "z3"
        if r == z3.unknown:
            r, m, be = self._second_opinion(z3.Not(t))
        if r == z3.unsat:
            L["ok"] += 1
            self.report.backends[be] = self.report.backends.get(be, 0) + 1
        elif r == z3.sat:
            self._fail(label, "refuted", m, detail)
        else:
            self._fail(label, "unknown", None, detail)

    def prove_inv(self, label, ok, detail=None):
        """An invariant that was guessed: if it is not kept, nothing is known (not a refutation)."""
        L = self.report.labels.setdefault(label if ok else "a loop keeps its invariant", {"n": 0, "ok": 0, "simp": 0})
        L["n"] += 1
        if ok:
            L["ok"] += 1
            self.report.backends["z3"] = self.report.backends.get("z3", 0) + 1
        else:
            self._fail(label, "invariant", None, detail)

    def mark_base(self):
        """Obligations from here on are first tried under the assumptions made so far only; one that holds under
        them holds on every path that makes the same assumptions, and is not sent to the solver again."""
        key = tuple(t.get_id() for t in self.pc)
        b = self.bases.get(key)
        if b is None:
            s = z3.Solver()
            s.set("timeout", min(self.timeout_ms, 10000))
            s.add(*self.pc)
            b = self.bases[key] = {"pc": list(self.pc), "solver": s, "done": {}}
        self.base = b

    def _from_base(self, t):
        d = self.base["done"]
        k = t.get_id()
        if k not in d:
            t0 = time.time()
            s = self.base["solver"]
            s.push()
            s.add(z3.Not(t))
            d[k] = (t, s.check() == z3.unsat)
            s.pop()
            self.report.solver_s += time.time() - t0
        return d[k][1]

    def prove_all(self, label, pairs):
        """Several clauses as one verification condition."""
        bad = [d for d, c in pairs if not isinstance(c, Sym) and not c]
        if bad:
            self.prove(label, False, bad[0])
            return
        syms = [c for d, c in pairs if isinstance(c, Sym)]
        self.prove(label, And(*syms) if len(syms) != 1 else syms[0], "; ".join(d for d, c in pairs if isinstance(c, Sym))[:300])

    def _need_model_strict(self):
        try:
            self._need_model()
        except Undecided:
            self.model = None

    def _second_opinion(self, extra):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.pc)
        s.add(extra)
        r = s.check()
        if r != z3.unknown:
            self.report.solver_s += time.time() - t0
            return r, (s.model() if r == z3.sat else None), "z3-fresh"
        import subprocess, tempfile, os
        txt = "(set-logic ALL)\n" + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix=".smt2")
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            out = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout_ms, p], capture_output=True, text=True,
                                 timeout=self.timeout_ms / 1000 + 10).stdout
        except Exception:
            out = ""
        os.unlink(p)
        self.report.solver_s += time.time() - t0
        if out.startswith("unsat"):
            return z3.unsat, None, "cvc5"
        return z3.unknown, None, "cvc5"

    def _fail(self, label, kind, model, detail):
        inp = self.model_inputs(model)
        self.report.failed.append({"label": label, "kind": kind, "inputs": inp,
                                   "detail": detail if detail is None or isinstance(detail, str) else str(detail)[:2000],
                                   "pc": [str(z3.simplify(t))[:160] for t in self.pc[-6:]]})

    def model_inputs(self, model):
        out = {}
        for n, (t, c) in self.inputs.items():
            if t is None:
                out[n] = c
            elif model is not None:
                e = model.eval(t, model_completion=True)
                if z3.is_bool(t):
                    out[n] = z3.is_true(e)
                elif z3.is_bv(t):
                    out[n] = e.as_signed_long()
                else:
                    out[n] = e.as_long()
        return out if model is not None else None

    def cover(self, label):
        """The current path is feasible (reachability / vacuity check)."""
        if label in self.report.covers and self.report.covers[label]:
            return
        try:
            self._need_model()
            self.report.covers[label] = True
        except PathEnd:
            self.report.covers.setdefault(label, False)
            raise

    # ---- running
    def run(self, fn, deadline):
        t0 = time.time()
        self.t_end = deadline
        rep = self.report
        self.work = [([], None)]
        self.bases = {}
        kept = []
        self.solver = PathSolver(self.timeout_ms)
        try:
            while self.work:
                script, model = self.work.pop()
                self.script = list(script)
                self.pos = 0
                self.pc = []
                self.decided = {}
                self.inputs = {}
                self.model = None
                self._given_model = model
                self.patches = []
                self.tags = {}
                self.persistent = []
                self.base = None
                self.solver.begin()
                set_ctx(self)
                rep.paths += 1
                if rep.paths > self.max_paths:
                    raise Undecided("path limit")
                try:
                    fn(self)
                    self._end = True
                except PathEnd:
                    if self.again:
                        self.again = False
                        self.restarts += 1
                        if self.restarts > 30:
                            raise Unsupported("the effect of a loop is not settled")
                        self.work = [([], None)]
                        self.bases = {}
                        self.learned = {}
                        rep.labels, rep.failed, rep.covers, rep.claims = {}, [], {}, {}
                        continue
                except (Unsupported, Undecided):
                    raise
                except RecursionError as e:
                    raise Unsupported("recursion: " + str(e)[:100])
                except UnboundLocalError as e:
                    raise Unsupported("unbound local: " + str(e)[:100])
                except Exception as e:      # unexpected exception of the code under contract
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if "/verif/" not in f.filename]
                    if isinstance(e, (AttributeError, ImportError, NameError)) and "/verif/specs/" in tb[-1].filename:
                        raise Unsupported(f"the interface differs from the one the contract is written for: {e}")
                    if _engine_gap(e, tb):
                        raise Unsupported(f"operation not modelled: {type(e).__name__}: {str(e)[:200]}")
                    try:
                        self._need_model()
                    except PathEnd:
                        continue
                    except Undecided:
                        self.model = None
                    if self.tags.get("guess"):
                        raise Unsupported(f"{type(e).__name__} that depends on items known only by learned facts: {str(e)[:150]}")
                    loc = (f"{where[-1].filename}:{where[-1].lineno} {where[-1].line}" if where
                           else f"{tb[-1].filename}:{tb[-1].lineno} {tb[-1].line}")
                    lab = "no unexpected exception"
                    L = rep.labels.setdefault(lab, {"n": 0, "ok": 0, "simp": 0})
                    L["n"] += 1
                    self._fail(lab, "refuted", self.model, f"{type(e).__name__}: {str(e)[:200]} at {loc}")
                finally:
                    for o, n, v in reversed(self.patches):
                        setattr(o, n, v)
                if self.env is not None:
                    from . import state
                    ch = self.env.state_changed()
                    for o, skip, old in self.persistent:
                        ch += [f"{type(o).__name__}.{k}" for k in state.changed(old, state.of_object(o, self.env.package, skip))]
                    if ch and not kept:
                        kept = rep.kept = ch
                if len(rep.failed) >= self.max_fail:
                    break
            if kept:
                raise Unsupported("state kept between calls: " + ", ".join(kept[:4]))
        except Unsupported as e:
            rep.unsupported = "unsupported: " + str(e)
        except Undecided as e:
            rep.unsupported = "undecided: " + str(e)
        finally:
            set_ctx(None)
        if not rep.failed and not rep.unsupported:
            L = rep.labels.setdefault("no unexpected exception", {"n": 0, "ok": 0, "simp": 0})
            L["n"] += rep.paths
            L["ok"] += rep.paths
            L["simp"] += rep.paths
        rep.wall = time.time() - t0
        return rep

    def persist(self, o, may_change=()):
        """o outlives the call: apart from `may_change`, the call must leave its attributes as they are"""
        from . import state
        self.persistent.append((o, may_change, state.of_object(o, self.env.package, may_change)))
        return o

    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    # functional summaries: inside a unit collect (pc, value) for lemma units
    def note(self, key, value):
        self.report.summary.append((key, z3.And(list(self.pc)) if self.pc else z3.BoolVal(True), value))
