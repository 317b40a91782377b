"""Tensors whose first axis has arbitrary length: blocks of rows.  A block is (n, t): with an ordinary n, t has n
rows; with a symbolic n, t has one row, the arbitrary row of the block.  Operations that treat rows alike are
applied block by block; anything else is untranslatable."""
import operator

import numpy as np
import z3

from . import sym
from .sym import Sym, SymInt, SymBool, And, Or, Not, Unsupported, as_num, bterm

TS = None       # torchshim, set when it is imported


def same_n(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return z3.simplify(a.t).eq(z3.simplify(b.t))
    return not isinstance(a, Sym) and not isinstance(b, Sym) and a == b


def holds(cond):
    if not isinstance(cond, Sym):
        return bool(cond)
    return sym.ctx()._check(z3.Not(bterm(cond)))[0] == z3.unsat


class BTensor:
    __array_priority__ = 2000
    requires_grad = False

    def __init__(self, blocks, summed=False):
        self.blocks = list(blocks)
        self.summed = summed
        d = [t.dtype for _, t in self.blocks]
        self.dtype = d[0] if len(d) == 1 else TS.promote(*d)

    # ---- shape
    def total(self):
        r = 0
        for n, _ in self.blocks:
            r = r + n
        return r

    def rest(self):
        return tuple(self.blocks[0][1].shape[1:])

    @property
    def shape(self):
        return TS.Size((self.total(),) + self.rest())

    @property
    def ndim(self):
        return 1 + len(self.rest())

    @property
    def device(self):
        return TS.Device()

    @property
    def data(self):
        return self

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    def numel(self):
        k = 1
        for x in self.rest():
            k *= x
        return self.total() * k
    nelement = numel

    def __symlen__(self):
        return self.total()

    def __len__(self):
        raise Unsupported("length of a tensor of arbitrary length as a machine integer")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<tensor>"

    def __format__(self, spec):
        return "<tensor>"

    # ---- lifting
    def lift(self, f, *others):
        return lift(f, self, *others)

    def _axis(self, d):
        if isinstance(d, (tuple, list)):
            return tuple(self._axis(x) for x in d)
        if d < 0:
            d += self.ndim
        if d == 0:
            raise Unsupported("an operation along an axis of arbitrary length")
        return d

    def unsqueeze(self, d):
        if d < 0:
            d += self.ndim + 1
        if d == 0:
            raise Unsupported("new axis before one of arbitrary length")
        return self.lift(lambda t: t.unsqueeze(d))

    def squeeze(self, d=None):
        if d is None:
            raise Unsupported("squeeze of a tensor of arbitrary length")
        d = self._axis(d)
        return self.lift(lambda t: t.squeeze(d))

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        rest = list(s[1:])
        if any(isinstance(x, Sym) for x in rest):
            raise Unsupported("reshape with a symbolic inner size")
        k = 1
        for x in self.rest():
            k *= x
        known = 1
        for x in rest:
            if x != -1:
                known *= x
        if isinstance(s[0], Sym) or s[0] != -1:
            if not holds(as_num(s[0]) == self.total()):
                raise Unsupported("reshape of an axis of arbitrary length")
            if -1 in rest:
                if known == 0 or k % known:
                    raise RuntimeError("shape is invalid for input")
                rest[rest.index(-1)] = k // known
            elif known != k:
                raise RuntimeError("shape is invalid for input")
        elif -1 in rest:
            raise RuntimeError("only one dimension can be inferred")
        elif known != k:
            raise Unsupported("reshape across an axis of arbitrary length")
        return self.lift(lambda t: t.view(*([t.shape[0]] + rest)))
    reshape = view

    def flatten(self, start_dim=0, end_dim=-1):
        self._axis(start_dim)
        return self.lift(lambda t: t.flatten(start_dim, end_dim))

    def transpose(self, i, j):
        i, j = self._axis(i), self._axis(j)
        return self.lift(lambda t: t.transpose(i, j))

    def permute(self, *d):
        d = tuple(d[0]) if len(d) == 1 and isinstance(d[0], (tuple, list)) else d
        if d[0] != 0:
            raise Unsupported("an axis of arbitrary length moved")
        return self.lift(lambda t: t.permute(*d))

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if len(s) != self.ndim or not (not isinstance(s[0], Sym) and s[0] == -1 or holds(as_num(s[0]) == self.total())):
            raise Unsupported("expand of an axis of arbitrary length")
        return self.lift(lambda t: t.expand(*((-1,) + tuple(s[1:]))))

    # ---- reductions
    def _red(self, name, dim, keepdim, final):
        if dim is not None:
            d = self._axis(dim)
            return self.lift(lambda t: getattr(t, name)(d, keepdim) if keepdim else getattr(t, name)(d))
        return final()

    def any(self, dim=None, keepdim=False):
        return self._red("any", dim, keepdim, lambda: self._flag(True))

    def all(self, dim=None, keepdim=False):
        return self._red("all", dim, keepdim, lambda: self._flag(False))

    def _flag(self, want):
        """any(): want = True; all(): want = False, then negated"""
        c = sym.ctx()
        out = []
        for n, t in self.blocks:
            v = t.any() if want else t.all()
            v = TS.cell_bool(v.item())
            if isinstance(n, Sym):
                some = v if want else Not(v)               # holds of the arbitrary row
                if holds(Not(some)):
                    v = not want
                elif holds(some):
                    v = (n > 0) if want else Not(n > 0)
                else:
                    # unknown: if the outcome is that no row is like that, the arbitrary row is not either
                    k = c.tags["fresh"] = c.tags.get("fresh", 0) + 1
                    b = c.bool(f"flag~{k}")
                    c.assume(Or(b, Not(some)))
                    c.assume(Or(n > 0, Not(b)))
                    c.tags["guess"] = c.tags.get("learned_rows")
                    v = b if want else Not(b)
            out.append(v)
        r = Or(*out) if want else And(*out)
        return scalar(r, TS.bool_)

    def sum(self, dim=None, keepdim=False, dtype=None):
        def fin():
            raise Unsupported("sum over an axis of arbitrary length")
        return self._red("sum", dim, keepdim, fin)

    def _ext(self, big):
        c = sym.ctx()
        from .glist import fresh
        if holds(self.total() == 0):
            raise RuntimeError("reduction of an empty tensor")
        vals, gaps = [], []
        for n, t in self.blocks:
            if isinstance(n, Sym) or n:
                v = TS.num((t.amax() if big else t.amin()).item())
                (gaps if isinstance(n, Sym) else vals).append((n, v))
        bounds = [(v.lo, v.hi) if isinstance(v, SymInt) else (v, v) for _, v in vals + gaps]
        m = fresh("ext", None if any(b[0] is None for b in bounds) else min(b[0] for b in bounds),
                  None if any(b[1] is None for b in bounds) else max(b[1] for b in bounds))
        pick = [m == v for _, v in vals] + [And(n > 0, m == v) for n, v in gaps]
        c.define(Or(*pick))
        for _, v in vals:
            c.define(m >= v if big else m <= v)
        if gaps:
            if c.tags.get("ext"):
                raise Unsupported("two extrema over an axis of arbitrary length")
            c.tags["ext"] = True
            c.tags["guess"] = c.tags.get("learned_rows")
        return m

    def min(self, dim=None, keepdim=False):
        if dim is not None:
            d = self._axis(dim)
            return TS._MM(self.lift(lambda t: t.amin(d, keepdim)))
        return scalar(self._ext(False), self.dtype)

    def max(self, dim=None, keepdim=False):
        if dim is not None:
            d = self._axis(dim)
            return TS._MM(self.lift(lambda t: t.amax(d, keepdim)))
        return scalar(self._ext(True), self.dtype)

    def amin(self, dim=None, keepdim=False):
        return self.min() if dim is None else self.lift(lambda t, d=self._axis(dim): t.amin(d, keepdim))

    def amax(self, dim=None, keepdim=False):
        return self.max() if dim is None else self.lift(lambda t, d=self._axis(dim): t.amax(d, keepdim))

    def __getitem__(self, i):
        j = i if isinstance(i, tuple) else (i,)
        if isinstance(j[0], slice) and j[0] == slice(None) and not any(isinstance(x, (BTensor, TS.Tensor)) for x in j):
            return self.lift(lambda t: t[j])
        if j[0] is Ellipsis:
            return self.lift(lambda t: t[j])
        raise Unsupported("indexing an axis of arbitrary length")

    def __setitem__(self, i, v):
        raise Unsupported("assignment into a tensor of arbitrary length")

    def __iter__(self):
        raise Unsupported("iteration over a tensor of arbitrary length")

    def tolist(self):
        raise Unsupported("a tensor of arbitrary length as a list")
    numpy = item = __bool__ = __int__ = __float__ = tolist

    def to(self, *x, **k):
        return self.lift(lambda t: t.to(*x, **k))


def scalar(v, dt):
    b = np.empty((), dtype=object)
    b[()] = v
    return TS.Tensor(b.view(TS.SArr), dt)


def lift(f, *xs):
    """f applied to the blocks of the BTensors among xs, the others passed to every block"""
    bs = [x for x in xs if isinstance(x, BTensor)]
    ref = bs[0]
    for b in bs[1:]:
        if len(b.blocks) != len(ref.blocks) or not all(same_n(p[0], q[0]) for p, q in zip(b.blocks, ref.blocks)):
            raise Unsupported("tensors of different make-up combined")
        if b.ndim != ref.ndim:
            raise Unsupported("tensors of arbitrary length broadcast against each other")
    for x in xs:
        if isinstance(x, TS.Tensor) and (x.ndim > ref.ndim or x.ndim == ref.ndim and x.shape[0] != 1):
            raise Unsupported("a tensor of fixed length combined with one of arbitrary length")
    out = []
    for k, (n, t) in enumerate(ref.blocks):
        if not isinstance(n, Sym) and n == 0 and len(ref.blocks) > 1:
            pass
        r = f(*[x.blocks[k][1] if isinstance(x, BTensor) else x for x in xs])
        if not isinstance(r, TS.Tensor) or r.ndim == 0 or r.shape[0] != t.shape[0]:
            raise Unsupported(f"an operation that changes an axis of arbitrary length {type(r)} {getattr(r,'shape',None)} {t.shape}")
        out.append((n, r))
    return BTensor(out)


def _binop(name):
    op = getattr(operator, name)

    def g(self, o):
        if isinstance(o, (BTensor, TS.Tensor, Sym, int, float, bool, np.generic)):
            return lift(op, self, o)
        return NotImplemented

    def rg(self, o):
        if isinstance(o, (TS.Tensor, Sym, int, float, bool, np.generic)):
            return lift(lambda b, a: op(a, b), self, o)
        return NotImplemented
    return g, rg


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "rshift", "lshift"):
    _g, _r = _binop(f"__{_n}__")
    setattr(BTensor, f"__{_n}__", _g)
    setattr(BTensor, f"__r{_n}__", _r)
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    _g, _ = _binop(f"__{_n}__")
    setattr(BTensor, f"__{_n}__", _g)
    setattr(BTensor, _n, _g)
for _n in ("add", "sub", "mul", "minimum", "maximum", "logical_and", "logical_or"):
    setattr(BTensor, _n, (lambda n: lambda self, o: lift(lambda a, b: getattr(a, n)(b), self, o))(_n))
for _n in ("float", "long", "int", "bool", "clone", "abs", "logical_not", "__neg__", "__invert__", "clamp", "type"):
    setattr(BTensor, _n, (lambda n: lambda self, *a, **k: lift(lambda t: getattr(t, n)(*a, **k), self))(_n))
for _n in ("cpu", "cuda", "detach", "contiguous", "requires_grad_"):
    setattr(BTensor, _n, lambda self, *a, **k: self)
BTensor.masked_fill = lambda self, m, v: lift(lambda t, q: t.masked_fill(q, v), self, m)


def blocks_of(x):
    if isinstance(x, BTensor):
        return list(x.blocks)
    return [(x.shape[0], x)]


def cat0(parts):
    """rows of all parts, in order; a part is a Tensor, a BTensor or (n, item) for n items like `item`"""
    out, rest, dt = [], None, []
    for p in parts:
        if isinstance(p, tuple):
            n, item = p
            if isinstance(item, BTensor):
                if not item.summed:
                    raise Unsupported("repeated tensors of arbitrary length")
                bl = list(item.blocks)
            else:
                k = item.shape[0]
                if k != 1:
                    raise Unsupported("items of several rows in a list of arbitrary length")
                bl = [(n, item)]
        else:
            if p.ndim == 1 and not isinstance(p, BTensor) and p.numel() == 0 and len(parts) > 1:
                continue
            bl = blocks_of(p)
        for n, t in bl:
            if rest is None:
                rest = t.shape[1:]
            if t.shape[1:] != rest:
                raise RuntimeError("Sizes of tensors must match except in dimension 0")
            dt.append(t.dtype)
            out.append((n, t))
    if not out:
        raise RuntimeError("expected a non-empty list of Tensors")
    d = TS.promote(*dt)
    return BTensor([(n, t.to(d)) for n, t in out])


# ------------------------------------------------------------------ vectors of symbolic length
class VTensor:
    """one axis, length n (symbolic); `cell(j)` is what is at position j < n"""
    __array_priority__ = 2000

    def __init__(self, n, cap, cell, dtype, uniform=False):
        self.n, self.cap, self.cell, self.dtype, self.uniform = n, cap, cell, dtype, uniform

    ndim = 1

    @property
    def shape(self):
        return TS.Size((self.n,))

    def size(self, d=None):
        return self.shape if d is None else self.n

    def numel(self):
        return self.n

    def __symlen__(self):
        return self.n

    def dim(self):
        return 1

    def to(self, *x, **k):
        for v in list(x) + list(k.values()):
            if isinstance(v, TS.dtype_):
                return VTensor(self.n, self.cap, self.cell, v, self.uniform)
        return self

    def long(self):
        return self.to(TS.int64)

    def float(self):
        return self.to(TS.float32)

    def clone(self):
        return self
    detach = contiguous = cpu = clone

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1) and i.start in (None, 0) and i.stop is not None:
            return prefix(self, i.stop)
        raise Unsupported("indexing a vector of symbolic length")

    def _no(self, *a, **k):
        raise Unsupported("this operation on a vector of symbolic length")
    __iter__ = __len__ = __bool__ = __setitem__ = tolist = item = unsqueeze = _no


def const(n):
    """the value of a length, or None"""
    if not isinstance(n, Sym):
        return n
    t = z3.simplify(n.t)
    return t.as_long() if z3.is_int_value(t) else t.as_signed_long() if z3.is_bv_value(t) else None


def prefix(v, e):
    """v[:e]"""
    if isinstance(e, Sym) and bool(e < 0):
        raise Unsupported("a slice counted from the end of a vector")
    n = v.n if isinstance(v, VTensor) else v.shape[0]
    if not bool(as_num(e) <= n):
        e = n
    if isinstance(v, VTensor):
        return VTensor(e, v.cap, v.cell, v.dtype, v.uniform)
    a = np.asarray(v.a)
    return VTensor(e, v.shape[0], lambda j: a[j], v.dtype)


def concat(ts, dt=None):
    """one-axis vectors one after the other"""
    dt = dt or TS.promote(*[t.dtype for t in ts])
    cur = None
    for t in ts:
        if isinstance(t, TS.Tensor):
            a = np.asarray(t.a)
            t = VTensor(t.shape[0], t.shape[0], lambda j, a=a: a[j], t.dtype,
                        bool(len(a)) and all(not isinstance(x, Sym) and not isinstance(a[0], Sym) and x == a[0] for x in a))
        if isinstance(t.n, Sym) and not holds(t.n >= 0):
            if bool(t.n < 0):
                raise RuntimeError("negative dimension")
        if cur is None:
            cur = t
            continue
        k = const(cur.n)
        if k is None and not t.uniform:
            raise Unsupported("vectors of symbolic length one after the other")
        cur = VTensor(cur.n + t.n, cur.cap + t.cap, _joined(cur, t, k), dt, False)
    n = const(cur.n)
    if n is None:
        return cur
    from .npshim import sarr
    b = np.empty((n,), dtype=object)
    for j in range(n):
        b[j] = cur.cell(j)
    return TS.Tensor(TS.conv(b.view(TS.SArr), dt.kind), dt)


def _joined(x, y, k):
    from .sym import ite
    if k is not None:
        return lambda j: x.cell(j) if j < k else y.cell(j - k)
    u = y.cell(0)

    def cell(j):
        if j >= x.cap:
            return u
        return ite(j < x.n, x.cell(j), u)
    return cell


# ------------------------------------------------------------------ columns known only by which rows they hold
class Perm:
    """torch.randperm(n), or the first k entries of it"""

    def __init__(self, n, k=None):
        self.n, self.k = n, n if k is None else k

    def __symlen__(self):
        return self.k

    def size(self, d=None):
        return TS.Size((self.k,)) if d is None else self.k

    @property
    def shape(self):
        return TS.Size((self.k,))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and i.step in (None, 1):
            if i.stop is None:
                return self
            e = as_num(i.stop)
            if bool(e < 0) if isinstance(e, Sym) else e < 0:
                raise Unsupported("a slice counted from the end")
            k = e if (bool(e <= self.k) if isinstance(e <= self.k, Sym) else e <= self.k) else self.k
            return Perm(self.n, k)
        raise Unsupported("indexing a random order")

    def to(self, *a, **k):
        return self
    cpu = cuda = long = detach = to

    def _no(self, *a, **k):
        raise Unsupported("this operation on a random order")
    __iter__ = __len__ = __bool__ = __setitem__ = __eq__ = __ne__ = __lt__ = tolist = _no
    __hash__ = None


class Col:
    """The column `name` of the samples of one kind: all n of them (idx None), or those picked by idx in that order."""

    def __init__(self, name, n, idx=None, inner=None):
        self.name, self.n, self.idx = name, n, idx
        self.inner = inner                                  # how many numbers one sample has in this column (None: not needed)

    @property
    def shape(self):
        raise Unsupported("the inner shape of a column")

    @property
    def device(self):
        return TS.Device()

    def __symlen__(self):
        return self.n

    def size(self, d=None):
        if d != 0:
            raise Unsupported("the inner shape of a column")
        return self.n

    def numel(self):
        if self.inner is None:
            raise Unsupported("the inner shape of a column")
        return self.n * self.inner

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self
        if isinstance(i, Perm) and self.idx is None:
            if not holds(as_num(i.n) == self.n):
                raise Unsupported("rows picked by the order of something else")
            return Col(self.name, i.k, i, self.inner)
        raise Unsupported("indexing a column")

    def to(self, *a, **k):
        return self
    cpu = cuda = detach = contiguous = clone = to

    def _no(self, *a, **k):
        raise Unsupported("this operation on a column")
    __iter__ = __len__ = __bool__ = __setitem__ = __eq__ = __ne__ = __lt__ = tolist = long = float = _no
    __hash__ = None
