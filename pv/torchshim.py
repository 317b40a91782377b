"""torch as seen by the code under verification.

Tensors are numpy object arrays whose cells are Python numbers or symbolic values; indexing, slicing and
broadcasting are numpy's own.  Embedding tables are uninterpreted: a lookup yields the formal row
(table, row number), and the last (feature) axis stays virtual, so that sums of embeddings are formal
linear combinations (class Emb).  Layers whose output is irrelevant to the properties are opaque.
The shim is compared with the real torch by the CPython cross-checks of every unit that uses it.
"""
import math
import sys
import types
import numpy as np

from .npshim import SArr, sarr, full, exact
from .sym import (Sym, SymInt, SymBool, And, Or, Not, ite, as_num, Sum, Unsupported, is_num)
from . import sym
from . import btensor as BT
from .btensor import BTensor, VTensor, lift


class dtype_:
    def __init__(self, n, kind):
        self.n, self.kind = n, kind

    def __repr__(self):
        return "torch." + self.n

    @property
    def is_floating_point(self):
        return self.kind == "f"


float32 = dtype_("float32", "f")
float64 = dtype_("float64", "f")
int64 = dtype_("int64", "i")
int32 = dtype_("int32", "i")
bool_ = dtype_("bool", "b")


class Device:
    def __init__(self, n="cpu", *a):
        self.type = n

    def __eq__(self, o):
        return isinstance(o, Device)

    def __hash__(self):
        return 1

    def __repr__(self):
        return "cpu"


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r *= x
        return r


class Opq:
    """A value nothing is known about."""
    def _o(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = _o

    def _bad(self, *a):
        raise Unsupported("opaque network value inspected")
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __int__ = __float__ = __index__ = _bad
    __hash__ = object.__hash__


class Atom(Opq):
    """A value nothing is known about but which one it is."""

    def __init__(self, name):
        self.name = name


OPQ = Opq()


def opq2(f):
    """a cell-wise relation: nothing is known about it where nothing is known about one side"""
    return lambda x, y: OPQ if isinstance(x, Opq) or isinstance(y, Opq) else f(x, y)


def cell_bool(x):
    if isinstance(x, (bool, SymBool)):
        return x
    return x != 0


def to_cells(x):
    if isinstance(x, Tensor):
        return x.a
    return sarr(x)


def conv(a, kind):
    """cells of an array converted to a dtype kind"""
    out = np.empty(a.shape, dtype=object)
    s, d = np.asarray(a).reshape(-1), out.reshape(-1)
    for k in range(s.shape[0]):
        v = s[k]
        if isinstance(v, Opq):
            d[k] = v
        elif kind == "b":
            d[k] = cell_bool(v)
        else:
            if isinstance(v, (bool, SymBool)):
                v = as_num(v)
            elif not isinstance(v, Sym):
                v = exact(v)
                if kind == "i" and isinstance(v, float):
                    v = math.trunc(v)
            d[k] = v
    return out.reshape(a.shape).view(SArr)


def promote(*dts):
    for d in dts:
        if d.kind == "f":
            return d
    for d in dts:
        if d.kind == "i":
            return d
    return bool_


def infer(a):
    ks = [x for x in np.asarray(a).reshape(-1)]
    if not ks:
        return float32
    if any(isinstance(x, (float, np.floating)) for x in ks):
        return float32
    if all(isinstance(x, (bool, SymBool)) for x in ks):
        return bool_
    return int64


def norm_idx(i):
    """index -> numpy-compatible index or ('fancy', ...)"""
    if isinstance(i, Tensor):
        return i
    if isinstance(i, tuple):
        return tuple(norm_idx(x) for x in i)
    if isinstance(i, SymInt):
        return sym.ctx().concretize(i)
    if isinstance(i, slice):
        c = lambda v: sym.ctx().concretize(v) if isinstance(v, Sym) else v
        return slice(c(i.start), c(i.stop), c(i.step))
    return i


def _total(xs):
    xs = [num(x) for x in xs]
    if any(isinstance(x, Opq) for x in xs):
        return OPQ
    r = Sum(xs)
    syms = [x for x in xs if isinstance(x, Sym)]
    if len(syms) < 20 or not all(isinstance(x, SymInt) and x.lo is not None and x.lo >= 0 for x in syms):
        return r
    if BT.holds(Or(*[x >= 1 for x in syms])):
        return SymInt(r.t, r.lo + 1, r.hi)
    return r


class Tensor:
    __array_priority__ = 1000
    requires_grad = False

    def __init__(self, a, dt):
        self.a = a if isinstance(a, SArr) else np.asarray(a, dtype=object).view(SArr)
        self.dtype = dt

    # ---- shape
    @property
    def shape(self):
        return Size(self.a.shape)

    @property
    def device(self):
        return Device()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def data(self):
        return self

    @property
    def T(self):
        return self._n(np.asarray(self.a).T)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    def numel(self):
        return self.shape.numel()

    nelement = numel

    def __len__(self):
        if not self.ndim:
            raise TypeError("len() of a 0-d tensor")
        return self.shape[0]

    def _n(self, a, dt=None):
        return Tensor(a, dt or self.dtype)

    def unsqueeze(self, d):
        if d < 0:
            d += self.ndim + 1
        return self._n(np.expand_dims(np.asarray(self.a), d))

    def squeeze(self, d=None):
        a = np.asarray(self.a)
        if d is None:
            return self._n(np.squeeze(a))
        return self._n(np.squeeze(a, d)) if a.shape[d] == 1 else self

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if len(s) == 1 and isinstance(s[0], dtype_):
            raise Unsupported("view(dtype)")
        return self._n(np.asarray(self.a).reshape(s))

    reshape = view

    def flatten(self, start_dim=0, end_dim=-1):
        sh = self.a.shape
        e = end_dim % len(sh)
        n = 1
        for x in sh[start_dim:e + 1]:
            n *= x
        return self._n(np.asarray(self.a).reshape(sh[:start_dim] + (n,) + sh[e + 1:]))

    def transpose(self, i, j):
        return self._n(np.swapaxes(np.asarray(self.a), i, j))

    def permute(self, *d):
        return self._n(np.transpose(np.asarray(self.a), d[0] if len(d) == 1 else d))

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = list(s)
        off = len(s) - self.ndim
        for k in range(len(s)):
            if s[k] == -1:
                s[k] = self.a.shape[k - off]
        return self._n(np.broadcast_to(np.asarray(self.a), s))

    def repeat(self, *s):
        return self._n(np.tile(np.asarray(self.a), s))

    # ---- conversion
    def to(self, *x, **k):
        for v in list(x) + list(k.values()):
            if isinstance(v, dtype_):
                return Tensor(conv(self.a, v.kind), v)
            if isinstance(v, Tensor):
                return self.to(v.dtype)
        return self

    def type(self, dt=None):
        return self if dt is None else self.to(dt)

    def float(self):
        return self.to(float32)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    def cpu(self):
        return self
    cuda = detach = contiguous = requires_grad_ = lambda self, *a, **k: self

    def clone(self):
        return self._n(self.a.copy())

    def numpy(self):
        return self.a

    def tolist(self):
        return np.asarray(self.a).tolist()

    def item(self):
        return np.asarray(self.a).reshape(-1)[0] if self.a.size == 1 else self._bad()

    def _bad(self):
        raise ValueError("only one element tensors can be converted to Python scalars")

    def __bool__(self):
        return bool(cell_bool(self.item()))

    def __int__(self):
        return int(self.item())

    def __symint__(self):
        return as_num(self.item())

    def __index__(self):
        v = self.item()
        return v.__index__()

    def __float__(self):
        return float(self.item())

    def __iter__(self):
        for k in range(self.shape[0]):
            yield self[k]

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        return "<tensor>"
    __repr__ = lambda self: "<tensor>"

    # ---- indexing
    def __getitem__(self, i):
        if isinstance(i, SymInt) and self.ndim == 1 and not isinstance(self, Emb):
            b = np.empty((), dtype=object)
            b[()] = self.a[i]
            return self._n(b.view(SArr))
        if isinstance(i, slice) and isinstance(i.stop, SymInt) and i.start in (None, 0) and i.step in (None, 1) \
                and self.ndim == 1 and not isinstance(self, Emb):
            return BT.prefix(self, i.stop)
        i = norm_idx(i)
        if isinstance(i, Tensor):
            if i.dtype.kind == "b":
                if i.a.shape != self.a.shape[:i.a.ndim]:
                    raise IndexError("mask shape")
                keep = [bool(x) for x in np.asarray(i.a).reshape(-1)]
                src = np.asarray(self.a).reshape((-1,) + self.a.shape[i.a.ndim:])
                return self._n(src[np.array(keep, dtype=bool)])
            out = np.empty(i.a.shape + self.a.shape[1:], dtype=object)
            fl = out.reshape((-1,) + self.a.shape[1:])
            for k, x in enumerate(np.asarray(i.a).reshape(-1)):
                fl[k] = self.a[x]
            return self._n(fl.reshape(out.shape))
        if isinstance(i, tuple) and any(isinstance(x, Tensor) for x in i):
            lead = [x for x in i if isinstance(x, Tensor)]
            if len(lead) == len(i) and all(x.a.shape == lead[0].a.shape for x in lead):
                out = np.empty(lead[0].a.shape, dtype=object)
                fl = out.reshape(-1)
                cols = [np.asarray(x.a).reshape(-1) for x in lead]
                for k in range(fl.shape[0]):
                    fl[k] = self.a[tuple(c[k] for c in cols)]
                return self._n(out)
            raise Unsupported("tensor index form")
        r = np.asarray(self.a)[i] if not isinstance(i, list) else np.asarray(self.a)[i]
        if not isinstance(r, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = r
            r = b
        return self._n(r)

    def __setitem__(self, i, v):
        if isinstance(i, SymInt) and self.ndim == 1 and not isinstance(self, Emb):
            if isinstance(v, Tensor):
                v = v.item()
            b = np.empty((), dtype=object)
            b[()] = v
            self.a[i] = conv(b.view(SArr), self.dtype.kind)[()]
            return
        if isinstance(i, slice) and i.step in (None, 1) and (isinstance(i.start, SymInt) or isinstance(i.stop, SymInt)) \
                and self.ndim == 1 and not isinstance(self, Emb) and isinstance(v, (int, float)):
            n = self.shape[0]
            lo, hi = (0 if i.start is None else i.start), (n if i.stop is None else i.stop)
            if bool(Or(lo < 0, hi < 0)):
                raise Unsupported("a slice counted from the end")
            for k in range(n):
                self.a[k] = ite(And(k >= lo, k < hi), exact(v), self.a[k])
            return
        from . import btensor
        if isinstance(v, btensor.VTensor):
            self._prefix_set(i, v)
            return
        if not isinstance(v, (Tensor, np.ndarray, list, tuple, np.generic, int, float, Sym)):
            raise Unsupported(f"{type(v).__name__} assigned into a tensor")
        i = norm_idx(i)
        if isinstance(i, Tensor) and i.dtype.kind == "b":
            self._mask_set(i, v)
            return
        if isinstance(v, Tensor):
            v = conv(v.a, self.dtype.kind)
            v = np.asarray(v) if v.ndim else v[()]
        elif not isinstance(v, (np.ndarray, list, tuple)):
            b = np.empty((), dtype=object)
            b[()] = v
            v = conv(b.view(SArr), self.dtype.kind)[()]
        if isinstance(i, Tensor):
            vs = np.broadcast_to(np.asarray(v, dtype=object), i.a.shape + self.a.shape[1:]).reshape((-1,) + self.a.shape[1:])
            for k, x in enumerate(np.asarray(i.a).reshape(-1)):
                self.a[x] = vs[k]
            return
        if isinstance(i, (list, tuple)) and any(isinstance(x, (Tensor,)) for x in i):
            raise Unsupported("tensor index form in assignment")
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            np.asarray(self.a)[i] = v
        else:
            self.a[i] = v

    def _prefix_set(self, i, v):
        """t[:e] = vector of symbolic length (or t[0, :e] = ..., the one row of a matrix)"""
        from .btensor import holds
        a = self.a
        if isinstance(i, tuple) and len(i) == self.ndim and self.ndim > 1 and all(isinstance(x, int) for x in i[:-1]):
            a, i = a[i[:-1]], i[-1]
        if isinstance(self, Emb) or a.ndim != 1 or not isinstance(i, slice) or i.step not in (None, 1) or i.start not in (None, 0):
            raise Unsupported("a vector of symbolic length assigned into a tensor")
        n = a.shape[0]
        hi = n if i.stop is None else i.stop
        if bool(as_num(hi) < 0):
            raise Unsupported("a slice counted from the end")
        if not bool(as_num(hi) <= n):
            hi = n
        if not bool(as_num(v.n) == hi):
            if bool(as_num(v.n) == 1):
                raise Unsupported("a vector of one element spread over a slice")
            raise RuntimeError("expanded size does not match the existing size")
        for k in range(min(n, v.cap)):
            c = np.empty((), dtype=object)
            c[()] = v.cell(k)
            a[k] = ite(k < as_num(hi), conv(c.view(SArr), self.dtype.kind)[()], a[k])

    def _mask_set(self, m, v):
        self.a[...] = np.asarray(where(_lift(m, self.ndim), v, self).a)

    # ---- element-wise
    def _bin(self, o, f, dt=None):
        if isinstance(o, Emb):
            return NotImplemented
        if not isinstance(o, (Tensor, Sym, int, float, bool, np.ndarray, np.generic, list)):
            return NotImplemented
        ob = to_cells(o)
        odt = o.dtype if isinstance(o, Tensor) else infer(ob)
        x, y = np.broadcast_arrays(np.asarray(self.a), np.asarray(ob))
        out = np.empty(x.shape, dtype=object)
        xf, yf, of = x.reshape(-1), y.reshape(-1), out.reshape(-1)
        for k in range(of.shape[0]):
            of[k] = f(xf[k], yf[k])
        # a Python scalar does not promote int tensors unless it is a float
        return Tensor(of.reshape(x.shape).view(SArr), dt or promote(self.dtype, odt))

    def __add__(self, o): return self._bin(o, lambda x, y: num(x) + num(y))
    def __radd__(self, o): return self._bin(o, lambda x, y: num(y) + num(x))
    def __sub__(self, o): return self._bin(o, lambda x, y: num(x) - num(y))
    def __rsub__(self, o): return self._bin(o, lambda x, y: num(y) - num(x))
    def __mul__(self, o): return self._bin(o, lambda x, y: mul(x, y))
    def __rmul__(self, o): return self._bin(o, lambda x, y: mul(x, y))
    def __mod__(self, o): return self._bin(o, lambda x, y: num(x) % num(y))
    def __floordiv__(self, o): return self._bin(o, lambda x, y: num(x) // num(y))
    def __truediv__(self, o): return self._bin(o, lambda x, y: div(x, y), float32)
    def __rtruediv__(self, o): return self._bin(o, lambda x, y: div(y, x), float32)
    def __pow__(self, o): return self._bin(o, lambda x, y: x ** y)
    def __neg__(self): return self._un(lambda x: -num(x))
    def __rshift__(self, o): return self._bin(o, lambda x, y: x >> y)
    def __lshift__(self, o): return self._bin(o, lambda x, y: x << y)
    def __and__(self, o): return self._bin(o, opq2(lambda x, y: x & y))
    def __or__(self, o): return self._bin(o, opq2(lambda x, y: x | y))
    def __xor__(self, o): return self._bin(o, opq2(lambda x, y: x ^ y))
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return self._un(lambda x: OPQ if isinstance(x, Opq) else Not(x) if isinstance(x, (bool, SymBool)) else ~x)

    def _un(self, f, dt=None):
        out = np.empty(self.a.shape, dtype=object)
        s, d = np.asarray(self.a).reshape(-1), out.reshape(-1)
        for k in range(d.shape[0]):
            d[k] = f(s[k])
        return Tensor(d.reshape(self.a.shape).view(SArr), dt or self.dtype)

    def __eq__(self, o): return self._bin(o, opq2(lambda x, y: x == y), bool_)
    def __ne__(self, o): return self._bin(o, opq2(lambda x, y: x != y), bool_)
    def __lt__(self, o): return self._bin(o, opq2(lambda x, y: x < y), bool_)
    def __le__(self, o): return self._bin(o, opq2(lambda x, y: x <= y), bool_)
    def __gt__(self, o): return self._bin(o, opq2(lambda x, y: x > y), bool_)
    def __ge__(self, o): return self._bin(o, opq2(lambda x, y: x >= y), bool_)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    add, sub, mul, div = __add__, __sub__, __mul__, __truediv__

    def logical_not(self):
        return self.bool().__invert__()

    def logical_and(self, o):
        return self.bool() & o.bool()

    def logical_or(self, o):
        return self.bool() | o.bool()

    def abs(self):
        return self._un(abs)

    def clamp(self, min=None, max=None):
        def f(x):
            if min is not None:
                x = ite(num(x) < min, min, num(x))
            if max is not None:
                x = ite(num(x) > max, max, num(x))
            return x
        return self._un(f)

    def clamp_(self, min=None, max=None):
        self.a[...] = np.asarray(self.clamp(min, max).a)
        return self

    def minimum(self, o):
        return self._bin(o, lambda x, y: ite(num(x) < num(y), x, y))

    def maximum(self, o):
        return self._bin(o, lambda x, y: ite(num(x) > num(y), x, y))

    def masked_fill(self, m, v):
        return where(m, v, self)

    def masked_fill_(self, m, v):
        self.a[...] = np.asarray(where(m, v, self).a)
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def fill_(self, v):
        self.a[...] = v
        return self

    def copy_(self, o):
        self.a[...] = np.asarray(o.a)
        return self

    # ---- reductions
    def _red(self, dim, f, dt, keepdim=False):
        a = np.asarray(self.a)
        if dim is None:
            b = np.empty((), dtype=object)
            b[()] = f(list(a.reshape(-1)))
            return Tensor(b.view(SArr), dt)
        a = np.moveaxis(a, dim, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        fo = out.reshape(-1)
        fa = a.reshape((-1, a.shape[-1])) if a.size else np.empty((fo.shape[0], a.shape[-1]), dtype=object)
        for k in range(fo.shape[0]):
            fo[k] = f(list(fa[k]))
        r = fo.reshape(out.shape)
        if keepdim:
            r = np.expand_dims(r, dim)
        return Tensor(r.view(SArr), dt)

    def sum(self, dim=None, keepdim=False, dtype=None):
        return self._red(dim, _total, int64 if self.dtype.kind == "b" else self.dtype, keepdim)

    def any(self, dim=None, keepdim=False):
        return self._red(dim, lambda xs: Or(*[cell_bool(x) for x in xs]) if xs else False, bool_, keepdim)

    def all(self, dim=None, keepdim=False):
        return self._red(dim, lambda xs: And(*[cell_bool(x) for x in xs]) if xs else True, bool_, keepdim)

    def _ext(self, dim, lt, keepdim=False):
        def f(xs):
            if not xs:
                raise RuntimeError("reduction of an empty tensor")
            r = xs[0]
            for x in xs[1:]:
                r = ite(lt(num(x), num(r)), x, r)
            return r
        return self._red(dim, f, self.dtype, keepdim)

    def min(self, dim=None, keepdim=False):
        r = self._ext(dim, lambda x, y: x < y, keepdim)
        return r if dim is None else _MM(r)

    def max(self, dim=None, keepdim=False):
        r = self._ext(dim, lambda x, y: x > y, keepdim)
        return r if dim is None else _MM(r)

    def amin(self, dim=None, keepdim=False):
        return self._ext(dim, lambda x, y: x < y, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._ext(dim, lambda x, y: x > y, keepdim)

    def count_nonzero(self, dim=None):
        return self._red(dim, lambda xs: Sum([as_num(cell_bool(x)) for x in xs]), int64)

    def backward(self):
        pass


class _MM:
    def __init__(self, v):
        self.values = v

    @property
    def indices(self):
        raise Unsupported("argmin/argmax")

    def __getitem__(self, i):
        return self.values if i == 0 else self.indices

    def __iter__(self):
        yield self.values
        yield self.indices


def num(x):
    if isinstance(x, Opq):
        return x
    if isinstance(x, (bool, SymBool)):
        return as_num(x)
    return x


def mul(x, y):
    x0, y0 = x, y
    if isinstance(x0, SymBool):
        return ite(x0, num(y0), 0)
    if isinstance(y0, SymBool):
        return ite(y0, num(x0), 0)
    return num(x) * num(y)


def div(x, y):
    x, y = num(x), num(y)
    if isinstance(x, Opq) or isinstance(y, Opq):
        return OPQ
    return exact(x / y)


def _lift(m, nd):
    while m.ndim < nd:
        m = m.unsqueeze(-1)
    return m


# ------------------------------------------------------------------ formal embeddings
class LC:
    """formal linear combination of embedding rows: list of (coefficient, table, row)"""
    __slots__ = ("t",)

    def __init__(self, t=()):
        self.t = list(t)

    def scale(self, c):
        if not isinstance(c, Sym) and c == 0:
            return LC()
        return LC([(mul(k, c), n, i) for k, n, i in self.t])

    def add(self, o):
        return LC(self.t + o.t)


class Emb(Tensor):
    """tensor whose last axis (features) is virtual; cells are LC"""

    def __init__(self, a, width, table=None):
        super().__init__(a, float32)
        self.width = width
        self.table = table         # (name, rows) if this is a whole table

    @property
    def shape(self):
        return Size(self.a.shape + (self.width,))

    def _n(self, a, dt=None):
        return Emb(np.asarray(a, dtype=object).view(SArr) if isinstance(a, np.ndarray) else a, self.width)

    def unsqueeze(self, d):
        nd = self.ndim
        if d < 0:
            d += nd + 1
        if d >= nd:
            raise Unsupported("new axis after the feature axis")
        return self._n(np.expand_dims(np.asarray(self.a), d))

    def squeeze(self, d=None):
        if d is None:
            return self._n(np.squeeze(np.asarray(self.a)))
        if d < 0:
            d += self.ndim
        return self._n(np.squeeze(np.asarray(self.a), d)) if self.a.shape[d] == 1 else self

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = list(s)[:-1]
        off = len(s) - self.a.ndim
        for k in range(len(s)):
            if s[k] == -1:
                s[k] = self.a.shape[k - off]
        return self._n(np.broadcast_to(np.asarray(self.a), s))

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        if s[-1] not in (self.width, -1):
            raise Unsupported("reshape across the feature axis")
        return self._n(np.asarray(self.a).reshape(s[:-1]))
    reshape = view

    def _red(self, dim, f, dt, keepdim=False):
        raise Unsupported("reduction of formal embeddings")

    def sum(self, dim=None, keepdim=False, dtype=None):
        if dim is None or dim in (-1, self.ndim - 1):
            raise Unsupported("sum over the feature axis")
        if dim < 0:
            dim += self.ndim
        a = np.moveaxis(np.asarray(self.a), dim, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        fo, fa = out.reshape(-1), a.reshape((-1, a.shape[-1]))
        for k in range(fo.shape[0]):
            r = LC()
            for x in fa[k]:
                r = r.add(x)
            fo[k] = r
        r = fo.reshape(out.shape)
        return self._n(np.expand_dims(r, dim) if keepdim else r)

    def __getitem__(self, i):
        if isinstance(i, BTensor):
            return lift(lambda t: self[t], i)
        if isinstance(i, Tensor) and i.dtype.kind != "b":
            if self.table is not None:
                return lookup(self.table[0], self.table[1], self.width, i, wrap=True)
        if isinstance(i, tuple) and len(i) > self.a.ndim and not any(x is Ellipsis or x is None for x in i):
            if isinstance(i[-1], slice) and i[-1] == slice(None):
                i = i[:-1]
            else:
                raise Unsupported("feature axis indexed")
        r = super().__getitem__(i)
        return r

    def _mask_set(self, m, v):
        if m.ndim == self.ndim:
            raise Unsupported("mask over the feature axis")
        self.a[...] = np.asarray(where(m.unsqueeze(-1), v, self).a) if m.ndim == self.a.ndim else self._bad()

    def _coef(self, o):
        """other operand of a product -> cells broadcastable against ours"""
        if isinstance(o, Emb):
            raise Unsupported("product of embeddings")
        if isinstance(o, Tensor):
            if o.ndim == 0:
                return o.a
            if o.a.shape[-1] != 1:
                raise Unsupported("feature-wise factor")
            return np.asarray(o.a)[..., 0].view(SArr)
        return sarr(o)

    def __mul__(self, o):
        if isinstance(o, BTensor):
            return NotImplemented
        c = self._coef(o)
        x, y = np.broadcast_arrays(np.asarray(self.a), np.asarray(c))
        out = np.empty(x.shape, dtype=object)
        of, xf, yf = out.reshape(-1), x.reshape(-1), y.reshape(-1)
        for k in range(of.shape[0]):
            of[k] = xf[k].scale(yf[k])
        return self._n(of.reshape(x.shape))
    __rmul__ = mul = __mul__

    def __add__(self, o):
        if isinstance(o, BTensor):
            return NotImplemented
        o = as_emb(o, self.width)
        x, y = np.broadcast_arrays(np.asarray(self.a), np.asarray(o.a))
        out = np.empty(x.shape, dtype=object)
        of, xf, yf = out.reshape(-1), x.reshape(-1), y.reshape(-1)
        for k in range(of.shape[0]):
            of[k] = xf[k].add(yf[k])
        return self._n(of.reshape(x.shape))
    __radd__ = add = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, BTensor):
            return NotImplemented
        return self + as_emb(o, self.width) * -1

    def __rsub__(self, o):
        return as_emb(o, self.width) + self * -1

    def _bin(self, *a):
        raise Unsupported("operation on formal embeddings")
    _un = _bin

    def to(self, *a, **k):
        return self
    float = lambda self: self

    def clone(self):
        return self._n(self.a.copy())


def as_emb(o, width):
    if isinstance(o, Emb):
        return o
    if isinstance(o, Tensor):
        if o.ndim and o.a.shape[-1] in (width, 1) and all(not isinstance(x, (Opq, Sym)) and x == 0 for x in np.asarray(o.a).reshape(-1)):
            out = np.empty(o.a.shape[:-1], dtype=object)
            f = out.reshape(-1)
            for k in range(f.shape[0]):
                f[k] = LC()
            return Emb(f.reshape(out.shape).view(SArr), width)
        if o.ndim == 0 and o.item() == 0:
            return as_emb(0, width)
    elif not isinstance(o, Sym) and o == 0:
        b = np.empty((), dtype=object)
        b[()] = LC()
        return Emb(b.view(SArr), width)
    raise Unsupported("sum of an embedding and a plain tensor")


def lookup(name, rows, width, idx, wrap=False):
    c = sym.ctx()
    out = np.empty(idx.a.shape, dtype=object)
    f, s = out.reshape(-1), np.asarray(idx.a).reshape(-1)
    bad = []
    for k in range(f.shape[0]):
        i = num(s[k])
        lo = -rows if wrap else 0
        bad.append(And(i >= lo, i < rows))
        f[k] = LC([(1, name, i)])
    c.prove("only existing rows of the embedding tables are looked up", And(*bad) if bad else True, name)
    return Emb(f.reshape(out.shape).view(SArr), width)


def atom_table(name, rows, width):
    a = np.empty((rows,), dtype=object)
    for k in range(rows):
        a[k] = LC([(1, name, k)])
    return Emb(a.view(SArr), width, table=(name, rows))


def where(c, x, y):
    if any(isinstance(v, BTensor) for v in (c, x, y)):
        return lift(where, c, x, y)
    if isinstance(x, Emb) or isinstance(y, Emb):
        w = x.width if isinstance(x, Emb) else y.width
        if c.ndim and c.a.shape[-1] != 1:
            raise Unsupported("mask over the feature axis")
        cm = c.float()
        return as_emb(x, w) * cm + as_emb(y, w) * (1 - cm)
    xc, yc, cc = to_cells(x), to_cells(y), c.a
    X, Y, C = np.broadcast_arrays(np.asarray(xc), np.asarray(yc), np.asarray(cc))
    out = np.empty(C.shape, dtype=object)
    of, xf, yf, cf = out.reshape(-1), X.reshape(-1), Y.reshape(-1), C.reshape(-1)
    for k in range(of.shape[0]):
        cb = cell_bool(cf[k])
        if not isinstance(cb, Sym):
            of[k] = xf[k] if cb else yf[k]
        else:
            of[k] = ite(cb, xf[k], yf[k])
    dts = [v.dtype for v in (x, y) if isinstance(v, Tensor)]
    return Tensor(of.reshape(C.shape).view(SArr), promote(*dts) if dts else infer(out))


# ------------------------------------------------------------------ functions
def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return tuple(sym.ctx().concretize(x) if isinstance(x, Sym) else int(x) for x in s)


def zeros(*s, dtype=None, device=None, requires_grad=False, size=None):
    if size is not None:
        s = (size,)
    v = _symbolic(s, 0, dtype)
    if v is not None:
        return v
    sh = _shape(s)
    if any(x < 0 for x in sh):
        raise RuntimeError("negative dimension")
    return Tensor(full(sh, 0), dtype or float32)


def _symbolic(s, v, dtype):
    """a constant vector of symbolic length"""
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    if len(s) == 1 and isinstance(s[0], SymInt) and BT.const(s[0]) is None and s[0].hi is not None:
        return VTensor(s[0], max(1, s[0].hi), lambda j: v, dtype or float32, True)
    return None


def ones(*s, dtype=None, device=None, requires_grad=False):
    v = _symbolic(s, 1, dtype)
    return v if v is not None else Tensor(full(_shape(s), 1), dtype or float32)


def full_(size, v, dtype=None, device=None):
    return Tensor(full(_shape((size,)), v), dtype or infer(sarr([v])))


def empty(*s, dtype=None, device=None, requires_grad=False):
    return Tensor(full(_shape(s), 0), dtype or float32)


def tensor(x, dtype=None, device=None, requires_grad=False):
    from . import glist
    if isinstance(x, glist.GTokens):
        return VTensor(x.n, x.cap, x.cell, dtype or int64)
    if isinstance(x, glist.GList):
        return glist.to_tensor(x, dtype)
    if isinstance(x, (BTensor, VTensor)):
        return x.to(dtype) if dtype else x
    if isinstance(x, Tensor):
        a = x.a.copy()
    elif isinstance(x, (list, tuple)) and x and isinstance(x[0], Tensor):
        a = np.stack([np.asarray(t.a) for t in x]).view(SArr)
    else:
        a = sarr(x)
    dt = dtype or infer(a)
    return Tensor(conv(a, dt.kind), dt)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, (Tensor, BTensor, VTensor)):
        return x.to(dtype) if dtype else x
    return tensor(x, dtype)


def from_numpy(x):
    return Tensor(x if isinstance(x, SArr) else sarr(x), float32)


def arange(*a, dtype=None, device=None):
    r = np.arange(*a)
    return Tensor(sarr(r), dtype or (int64 if r.dtype.kind == "i" else float32))


def _axis(ts, dim):
    nd = ts[0].ndim
    return dim + nd if dim < 0 else dim


def cat(ts, dim=0, axis=None):
    from . import glist
    dim = dim if axis is None else axis
    if isinstance(ts, glist.GList):
        parts = glist.items(ts)
        if glist.has_gap(ts):
            if dim != 0:
                raise Unsupported("a list of arbitrary length joined along an inner axis")
            return glist.joined(ts)
        ts = parts
    ts = list(ts)
    if not ts:
        raise RuntimeError("expected a non-empty list of Tensors")
    if any(isinstance(t, VTensor) for t in ts):
        return BT.concat(ts)
    if any(isinstance(t, BTensor) for t in ts):
        if _axis(ts, dim) == 0:
            return BT.cat0(ts)
        return lift(lambda *xs: cat(xs, dim), *ts)
    dim = _axis(ts, dim)
    if any(isinstance(t, Emb) for t in ts):
        return ts[0]._n(np.concatenate([np.asarray(t.a) for t in ts], axis=dim))
    # torch skips 1-d empty tensors
    keep = [t for t in ts if not (t.ndim == 1 and t.numel() == 0)] or ts[:1]
    dt = promote(*[t.dtype for t in ts])
    try:
        r = np.concatenate([np.asarray(conv(t.a, dt.kind)) for t in keep], axis=dim)
    except ValueError as e:
        raise RuntimeError(str(e))
    return Tensor(r.view(SArr), dt)


def stack(ts, dim=0, axis=None):
    from . import glist
    dim = dim if axis is None else axis
    if isinstance(ts, glist.GList):
        if glist.has_gap(ts):
            if dim != 0:
                raise Unsupported("a list of arbitrary length stacked along an inner axis")
            return cat(glist.gmap(lambda t: t.unsqueeze(0), ts), 0)
        ts = glist.items(ts)
    ts = list(ts)
    if any(isinstance(t, BTensor) for t in ts):
        if (dim + ts[0].ndim + 1 if dim < 0 else dim) == 0:
            raise Unsupported("tensors of arbitrary length stacked")
        return lift(lambda *xs: stack(xs, dim), *ts)
    if any(isinstance(t, Emb) for t in ts):
        return ts[0]._n(np.stack([np.asarray(t.a) for t in ts], axis=dim))
    if dim < 0:
        dim += ts[0].ndim + 1
    dt = promote(*[t.dtype for t in ts])
    try:
        return Tensor(np.stack([np.asarray(conv(t.a, dt.kind)) for t in ts], axis=dim).view(SArr), dt)
    except ValueError as e:
        raise RuntimeError(str(e))


def vstack(ts):
    from . import glist
    if isinstance(ts, glist.GList):
        ts = glist.gmap(lambda t: t if t.ndim > 1 else t.unsqueeze(0), ts)
        return cat(ts, 0)
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def pad(t, p, mode="constant", value=0):
    if isinstance(t, VTensor) or (t.ndim == 1 and any(isinstance(x, Sym) and BT.const(x) is None for x in p)):
        if len(p) != 2 or p[0] != 0 or mode != "constant":
            raise Unsupported("padding of a vector of symbolic length")
        m = p[1]
        if isinstance(m, Sym):
            if bool(m < 0):
                raise Unsupported("padding that shortens a vector of symbolic length")
            return BT.concat([t, VTensor(m, 1 << 20, lambda j: value, t.dtype, True)], t.dtype)
        return BT.concat([t, Tensor(full((m,), value), t.dtype)], t.dtype)
    if isinstance(t, BTensor):
        if len(p) // 2 >= t.ndim:
            raise Unsupported("padding of an axis of arbitrary length")
        return lift(lambda x: pad(x, p, mode, value), t)
    p = [sym.ctx().concretize(x) if isinstance(x, Sym) else x for x in p]
    a = np.asarray(t.a)
    for k in range(len(p) // 2):
        ax = a.ndim - 1 - k
        lo, hi = p[2 * k], p[2 * k + 1]
        n = a.shape[ax]
        sl = [slice(None)] * a.ndim
        sl[ax] = slice(max(0, -lo), n - max(0, -hi))
        a = a[tuple(sl)]
        w = [(0, 0)] * a.ndim
        w[ax] = (max(0, lo), max(0, hi))
        a = np.pad(a, w, constant_values=value) if any(x for y in w for x in y) else a
    return Tensor(a.astype(object).view(SArr), t.dtype)


def mathfn(f):
    def g(t):
        return t._un(lambda x: OPQ if isinstance(x, Opq) else exact(f(x)), float32)
    return g


def cross_entropy(logits, y, *a, **k):
    c = sym.ctx()
    c.tags.setdefault("cross_entropy", []).append((logits, y, k))
    return Tensor(full((), OPQ), float32)


def softmax(t, dim=-1):
    if isinstance(t, BTensor):
        return lift(lambda x: softmax(x, dim), t)
    return t._un(lambda x: OPQ)


def bmm(a, b):
    if isinstance(a, BTensor) or isinstance(b, BTensor):
        return lift(bmm, a, b)
    if a.ndim != 3 or b.ndim != 3:
        raise Unsupported("matrix product of this form")
    if a.shape[2] != b.shape[1] or a.shape[0] != b.shape[0]:
        raise RuntimeError("batch matrix product of different sizes")
    return opaque((a.shape[0], a.shape[1], b.shape[2]))


def opaque(shape):
    return Tensor(full(tuple(shape), OPQ), float32)


# ------------------------------------------------------------------ nn
class Module:
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def forward(self, x, *a, **k):
        return x

    def children(self):
        return [v for v in vars(self).values() if isinstance(v, Module)]

    def modules(self):
        yield self
        for c in self.children():
            yield from c.modules()

    def apply(self, f):
        for c in self.children():
            c.apply(f)
        f(self)
        return self

    def parameters(self):
        return iter(())

    def to(self, *a, **k):
        return self

    def train(self, mode=True):
        return self

    def eval(self):
        return self

    def state_dict(self):
        return {}

    def load_state_dict(self, *a, **k):
        pass

    def register_buffer(self, name, t, persistent=True):
        setattr(self, name, t)


_count = [0]


class Embedding(Module):
    def __init__(self, num_embeddings, embedding_dim, padding_idx=None, **k):
        self.num_embeddings, self.embedding_dim = num_embeddings, embedding_dim
        self.weight = atom_table(f"table{_count[0]}", num_embeddings, embedding_dim)
        _count[0] += 1
        self.name = None

    def forward(self, idx):
        if isinstance(idx, BTensor):
            return lift(self.forward, idx)
        return lookup(self.name or self.weight.table[0], self.num_embeddings, self.embedding_dim, idx)


class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        self.in_features, self.out_features = i, o
        self.weight, self.bias = opaque((o, i)), (opaque((o,)) if bias else None)

    def forward(self, x):
        if isinstance(x, BTensor):
            return lift(self.forward, x)
        if x.shape[-1] != self.in_features:
            raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({x.shape} and {self.in_features})")
        c = sym.ctx()
        h = c.tags.get("linear") if c else None
        if h is not None:
            return h(self, x)
        return opaque(x.shape[:-1] + (self.out_features,))


class Identity(Module):
    def __init__(self, *a, **k):
        pass


class ReLU(Identity):
    def forward(self, x):
        if isinstance(x, BTensor):
            return lift(self.forward, x)
        return x._un(lambda v: OPQ if isinstance(v, Opq) else ite(v > 0, v, 0))


class LayerNorm(Identity):
    def forward(self, x):
        if isinstance(x, BTensor):
            return lift(self.forward, x)
        return opaque(x.shape)


class Dropout(Identity):
    def forward(self, x):
        if isinstance(x, BTensor):
            return lift(self.forward, x)
        return opaque(x.shape)


GELU = LayerNorm


class Conv(Module):
    def __init__(self, in_channels, out_channels, kernel_size, padding=0, **k):
        self.ic, self.oc = in_channels, out_channels

    def forward(self, x):
        if isinstance(x, BTensor):
            return lift(self.forward, x)
        if x.shape[1] != self.ic:
            raise RuntimeError("channel mismatch")
        return opaque((x.shape[0], self.oc) + tuple(x.shape[2:]))


class Sequential(Module):
    def __init__(self, *m):
        self.m = list(m)

    def children(self):
        return self.m

    def __iter__(self):
        return iter(self.m)

    def __len__(self):
        return len(self.m)

    def forward(self, x):
        for k in self.m:
            x = k(x)
        return x


class ModuleList(Sequential):
    def __init__(self, m=()):
        self.m = list(m)

    def __getitem__(self, i):
        return self.m[i]


class ModuleDict(Module):
    def __init__(self, m=None):
        self.d = dict(m or {})

    def __getitem__(self, i):
        return self.d[i]

    def children(self):
        return list(self.d.values())


class _NoGrad:
    def __call__(self, f=None):
        return f if f is not None else self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make():
    def mod(name, **k):
        m = types.ModuleType(name)
        for a, b in k.items():
            setattr(m, a, b)
        return m
    nop = lambda t, *a, **k: t
    F = mod("torch.nn.functional", pad=pad, cross_entropy=cross_entropy, softmax=softmax,
            relu=lambda x: ReLU()(x))
    init = mod("torch.nn.init", normal_=nop, zeros_=nop, xavier_uniform_=nop)
    nn = mod("torch.nn", Module=Module, Embedding=Embedding, Linear=Linear, ReLU=ReLU, LayerNorm=LayerNorm,
             Dropout=Dropout, GELU=GELU, Conv1d=Conv, Conv2d=Conv, Sequential=Sequential, ModuleList=ModuleList,
             ModuleDict=ModuleDict, Identity=Identity, functional=F, init=init,
             Parameter=lambda t, requires_grad=True: t)
    cuda = mod("torch.cuda", is_available=lambda: False)
    optim = mod("torch.optim", AdamW=Module, lr_scheduler=mod("torch.optim.lr_scheduler", LambdaLR=Module))

    def meth(n):
        return lambda t, *a, **k: getattr(t, n)(*a, **k)
    t = mod("torch", Tensor=Tensor, Size=Size, device=Device, float=float32, float32=float32, float64=float64,
            long=int64, int64=int64, int=int32, int32=int32, bool=bool_, dtype=dtype_, nn=nn, cuda=cuda, optim=optim,
            zeros=zeros, ones=ones, full=full_, empty=empty, tensor=tensor, as_tensor=as_tensor, from_numpy=from_numpy,
            arange=arange, cat=cat, concat=cat, stack=stack, vstack=vstack, where=where, no_grad=_NoGrad(),
            zeros_like=lambda x, dtype=None, device=None: Tensor(full(x.a.shape, 0), dtype or x.dtype),
            ones_like=lambda x, dtype=None, device=None: Tensor(full(x.a.shape, 1), dtype or x.dtype),
            sin=mathfn(math.sin), cos=mathfn(math.cos), exp=mathfn(math.exp),
            pow=lambda b, e: e._un(lambda x: exact(b ** x), float32) if not isinstance(b, Tensor) else b ** e,
            bmm=bmm, matmul=bmm, softmax=softmax,
            randperm=_randperm, load=lambda *a, **k: {}, save=lambda *a, **k: None)
    for n in ("clamp", "any", "all", "sum", "min", "max", "amin", "amax", "unsqueeze", "squeeze", "reshape", "flatten",
              "transpose", "permute", "minimum", "maximum", "logical_and", "logical_or", "logical_not", "masked_fill",
              "eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "abs", "count_nonzero"):
        setattr(t, n, meth(n))
    BT.TS = sys.modules[__name__]
    return {"torch": t, "torch.nn": nn, "torch.nn.functional": F, "torch.cuda": cuda, "torch.optim": optim,
            "torch.nn.init": init}


def _randperm(n, **k):
    c = sym.ctx()
    h = c.tags.get("randperm")
    if h:
        return h(n)
    return arange(n)
