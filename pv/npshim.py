"""numpy as seen by the code under verification: real numpy arrays (views, aliasing, slicing,
broadcasting are numpy's own) whose cells are Python objects, so that cells can be symbolic.
float32 count arrays are therefore exact; see DESIGN.md for the assumption."""
import types
import numpy as np

from .sym import (Sym, SymInt, SymBool, ite, And, Or, Not, Iff, as_num, is_num, mk_bool, to_exact, bterm,
                  Unsupported, Sum)
from . import sym


class GuardedIdx:
    """A list of indices of which index j is present under guard[j] (e.g. TILE2IDX[t] for a symbolic t)."""

    def __init__(self, guards, first):
        self.guards = guards      # dict j -> bool term (SymBool/bool)
        self.first = first        # symbolic value of element 0

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return self.first
        raise Unsupported("element of a symbolic index list")

    def __len__(self):
        # exactly one or two entries: fork on it
        n = Sum(as_num(g) for g in self.guards.values())
        return sym.ctx().concretize(n) if isinstance(n, Sym) else n

    def __iter__(self):
        n = len(self)
        yield self.first
        if n > 1:
            js = [j for j, g in self.guards.items()]
            c = sym.ctx()
            f = self.first if not isinstance(self.first, Sym) else c.concretize(self.first)
            for j in js:
                if j != f and bool(self.guards[j]):
                    yield j


class GuardedRead:
    """cells of arr selected by guards, plus a constant (for `arr[idx] += k`)."""

    def __init__(self, arr, idx, delta=0):
        self.arr, self.idx, self.delta = arr, idx, delta

    def __add__(self, k):
        return GuardedRead(self.arr, self.idx, self.delta + to_exact(k))

    def __sub__(self, k):
        return GuardedRead(self.arr, self.idx, self.delta - to_exact(k))
    __iadd__ = __add__
    __isub__ = __sub__


def _has_sym(i):
    if isinstance(i, (Sym, GuardedIdx)):
        return True
    if isinstance(i, (tuple, list)):
        return any(_has_sym(x) for x in i)
    return False


def _raw(*a, **k):
    raise Unsupported("the raw memory of an array")


class SArr(np.ndarray):
    def __array_finalize__(self, obj):
        pass

    # the elements are terms, not machine numbers: nothing may look at their bytes
    tobytes = tostring = tofile = dump = dumps = byteswap = getfield = setfield = _raw
    data = nbytes = itemsize = ctypes = property(_raw)

    # ---- reading
    def __getitem__(self, i):
        if type(i) is tuple:
            for x in i:
                if isinstance(x, (Sym, GuardedIdx, list)):
                    break
            else:
                return super().__getitem__(i)
        elif not isinstance(i, (Sym, GuardedIdx, list)):
            return super().__getitem__(i)
        if not _has_sym(i):
            return super().__getitem__(i)
        if isinstance(i, list):
            return [self[x] for x in i]
        if isinstance(i, GuardedIdx):
            return GuardedRead(self, i)
        if isinstance(i, SymInt) or isinstance(i, SymBool):
            return self._sel(as_num(i))
        if isinstance(i, tuple):
            if len(i) == 1:
                return self[i[0]]
            if isinstance(i[-1], (SymInt, GuardedIdx)) and not _has_sym(i[:-1]):
                sub = super().__getitem__(i[:-1])
                return sub[i[-1]]
            if isinstance(i[0], SymInt) and all(isinstance(x, (int, np.integer)) for x in i[1:]):
                return super().__getitem__((slice(None),) + tuple(i[1:]))[i[0]]
            i = tuple(sym.ctx().concretize(x) if isinstance(x, SymInt) else x for x in i)
            return self[i]
        raise Unsupported("symbolic index form")

    def _range(self, i):
        n = self.shape[0]
        if isinstance(i, Sym):
            if bool(i < 0):
                i = i + n
        if isinstance(i, Sym) and bool(Or(i < 0, i >= n)):
            raise IndexError("index out of bounds")
        return i

    def _sel(self, i):
        i = self._range(i)
        if not isinstance(i, Sym):
            return super().__getitem__(i)
        lo = max(0, i.lo if i.lo is not None else 0)
        hi = min(self.shape[0] - 1, i.hi if i.hi is not None else self.shape[0] - 1)
        cells = [super(SArr, self).__getitem__(j) for j in range(lo, hi + 1)]
        if all(isinstance(c, list) for c in cells):
            return self._table(i, cells, lo)
        if self.ndim > 1:
            f = np.asarray(self).reshape(-1)
            if all(v is f[0] for v in f):
                return super().__getitem__(lo)
            return super().__getitem__(sym.ctx().concretize(i))
        r = cells[-1]
        for j in range(len(cells) - 2, -1, -1):
            r = ite(i == lo + j, cells[j], r)
        return r

    def _table(self, i, cells, lo):
        guards = {}
        for j, c in enumerate(cells):
            for x in c:
                guards.setdefault(x, []).append((j, c))
        g2 = {}
        # contiguous runs keep the guards small
        for x, js in guards.items():
            idx = sorted(j for j, _ in js)
            runs = []
            for j in idx:
                if runs and runs[-1][1] == j - 1:
                    runs[-1][1] = j
                else:
                    runs.append([j, j])
            g2[x] = Or(*[And(i >= lo + a, i <= lo + b) if a != b else i == lo + a for a, b in runs])
        firsts = [c[0] for c in cells]
        # first element: piecewise constant -> use i//k when it is one
        k = 4
        if all(f == (lo + j) // k for j, f in enumerate(firsts)):
            first = i // k
        else:
            first = firsts[-1]
            for j in range(len(firsts) - 2, -1, -1):
                first = ite(i == lo + j, firsts[j], first)
        return GuardedIdx(g2, first)

    # ---- writing
    def __setitem__(self, i, v):
        if isinstance(v, GuardedRead):
            base = self if not isinstance(i, tuple) else super().__getitem__(i[:-1])
            gi = i if not isinstance(i, tuple) else i[-1]
            if gi is not v.idx:
                raise Unsupported("guarded update of another index")
            for j, g in gi.guards.items():
                old = np.ndarray.__getitem__(base, j)
                np.ndarray.__setitem__(base, j, old + v.delta * as_num(g) if isinstance(g, Sym) else
                                       (old + v.delta if g else old))
            return
        if not _has_sym(i):
            if isinstance(v, Sym):
                b = np.empty((), dtype=object)
                b[()] = v
                v = b
            elif isinstance(v, (float, np.floating)) and float(v).is_integer():
                v = int(v)
            return super().__setitem__(i, v)
        if isinstance(i, GuardedIdx):
            for j, g in i.guards.items():
                old = np.ndarray.__getitem__(self, j)
                np.ndarray.__setitem__(self, j, ite(g, v, old))
            return
        if isinstance(i, SymInt):
            if self.ndim > 1:
                return super().__setitem__(sym.ctx().concretize(i), v)
            i = self._range(i)
            if not isinstance(i, Sym):
                return super().__setitem__(i, v)
            for j in range(self.shape[0]):
                c = i == j
                if c is False:
                    continue
                np.ndarray.__setitem__(self, j, ite(c, v, np.ndarray.__getitem__(self, j)))
            return
        if isinstance(i, tuple):
            if not _has_sym(i[:-1]) and isinstance(i[-1], (SymInt, GuardedIdx)):
                sub = super().__getitem__(i[:-1])
                sub[i[-1]] = v
                return
            # fancy: (column of row numbers, list of lists of columns)
            if len(i) == 2 and isinstance(i[1], (list, tuple)):
                rows = np.asarray(i[0]).reshape(-1)
                cols = list(i[1])
                if len(rows) == len(cols) and all(isinstance(c, (list, tuple)) for c in cols):
                    for r, cs in zip(rows, cols):
                        row = super().__getitem__(int(r))
                        for c in cs:
                            row[c] = v
                    return
            i = tuple(sym.ctx().concretize(x) if isinstance(x, SymInt) else x for x in i)
            if not _has_sym(i):
                self[i] = v
                return
        raise Unsupported("symbolic index form in assignment")

    # ---- element-wise comparisons without forking
    def _cmp(self, o, f):
        ob = np.broadcast_to(np.asarray(o, dtype=object), self.shape) if not isinstance(o, Sym) else None
        out = np.empty(self.shape, dtype=object)
        flat_o = ob.reshape(-1) if ob is not None else None
        src = np.asarray(self).reshape(-1)
        fo = out.reshape(-1)
        for k in range(src.shape[0]):
            fo[k] = f(src[k], o if flat_o is None else flat_o[k])
        return out.reshape(self.shape).view(SArr)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None

    def astype(self, *a, **k):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def max(self, *a, **k):
        return max_(self, *a, **k)

    def min(self, *a, **k):
        return min_(self, *a, **k)

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported("all(axis)")
        return And(*[x if isinstance(x, (bool, SymBool)) else x != 0 for x in np.asarray(self).reshape(-1)])

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported("any(axis)")
        return Or(*[x if isinstance(x, (bool, SymBool)) else x != 0 for x in np.asarray(self).reshape(-1)])

    def item(self, *a):
        return np.asarray(self).reshape(-1)[a[0] if a else 0]

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar or arr.ndim == 0:
            return arr[()]
        return arr.view(SArr)


def exact(x):
    if isinstance(x, (float, np.floating)):
        return int(x) if float(x).is_integer() else float(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return x


def sarr(x):
    """anything -> object array"""
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        f, g = a.reshape(-1), x.reshape(-1)
        for k in range(f.shape[0]):
            f[k] = exact(g[k])
        return a.reshape(x.shape).view(SArr)
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(e, (list, tuple, np.ndarray)) for e in x):
            ls = {len(e) for e in x}
            if len(ls) == 1:
                subs = [sarr(e) for e in x]
                if len({s.shape for s in subs}) == 1:
                    a = np.empty((len(subs),) + subs[0].shape, dtype=object)
                    for k, s in enumerate(subs):
                        a[k] = np.asarray(s)
                    return a.view(SArr)
        a = np.empty(len(x), dtype=object)
        for k, e in enumerate(x):
            a[k] = exact(e)
        return a.view(SArr)
    a = np.empty((), dtype=object)
    a[()] = exact(x)
    return a.view(SArr)


def full(shape, v):
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = v
    return a.view(SArr)


def zeros(shape, dtype=None):
    return full(shape, 0)


def ones(shape, dtype=None):
    return full(shape, 1)


def zeros_like(a, dtype=None):
    return full(np.shape(a), 0)


def array(x, dtype=None, copy=True):
    return sarr(x)


def asarray(x, dtype=None):
    return x if isinstance(x, SArr) else sarr(x)


def copy_(a):
    return sarr(a)


def arange(*a, **k):
    return np.arange(*a)


def _fold(a, pick):
    xs = list(np.asarray(a, dtype=object).reshape(-1))
    r = xs[0]
    for x in xs[1:]:
        r = ite(pick(x, r), x, r)
    return r


def max_(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("max(axis)")
    return _fold(a, lambda x, r: x > r)


def min_(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("min(axis)")
    return _fold(a, lambda x, r: x < r)


def sum_(a, axis=None, dtype=None):
    return sarr(a).sum(axis=axis) if axis is not None else Sum(np.asarray(a, dtype=object).reshape(-1))


def allclose(a, b, *r, **k):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    return And(*[x == y for x, y in zip(a.reshape(-1), b.reshape(-1))])


def array_equal(a, b):
    if np.shape(a) != np.shape(b):
        return False
    return allclose(a, b)


def roll(a, shift, axis=None):
    f = np.asarray(a).reshape(-1)
    if isinstance(shift, Sym) and len(f) and all(v is f[0] for v in f):
        return np.array(a, copy=True).view(SArr)
    s = sym.ctx().concretize(shift) if isinstance(shift, Sym) else shift
    return np.roll(np.asarray(a), s, axis=axis).view(SArr)


class GuardedWhere:
    """np.where(cond)[0] for a symbolic condition: the increasing list of indices whose guard holds.

    Iterating it is a loop over a symbolic-length sequence.  The loop rule used: one arbitrary
    element is executed from an arbitrary point of the iteration (the engine picks the element by a
    symbolic choice, or stops); the harness states its postcondition per element."""

    def __init__(self, guards):
        self.guards = guards

    def __iter__(self):
        c = sym.ctx()
        hook = c.tags.get("where")
        if hook is not None:
            yield from hook(self.guards)
            return
        for j, g in enumerate(self.guards):
            if bool(g):
                yield j

    def __len__(self):
        return sym.ctx().concretize(Sum(as_num(g) for g in self.guards))

    def tolist(self):
        return self


def where(cond, *ab):
    if ab:
        c = np.asarray(cond, dtype=object)
        a = np.broadcast_to(np.asarray(ab[0], dtype=object), c.shape).reshape(-1)
        b = np.broadcast_to(np.asarray(ab[1], dtype=object), c.shape).reshape(-1)
        out = np.empty(c.shape, dtype=object)
        f = out.reshape(-1)
        for k, x in enumerate(c.reshape(-1)):
            f[k] = ite(x, a[k], b[k])
        return out.reshape(c.shape).view(SArr)
    c = np.asarray(cond, dtype=object)
    if not any(isinstance(x, Sym) for x in c.reshape(-1)):
        return np.where(c.astype(bool))
    if c.ndim != 1:
        raise Unsupported("where on a symbolic 2-d array")
    return (GuardedWhere(list(c)),)


def nonzero(a):
    return where(a)


def flatnonzero(a):
    return where(a)[0]


def make():
    m = types.ModuleType("numpy")
    m.__getattr__ = lambda n: getattr(np, n)
    for k, v in dict(zeros=zeros, ones=ones, array=array, asarray=asarray, copy=copy_, arange=arange, max=max_,
                     amax=max_, min=min_, amin=min_, sum=sum_, allclose=allclose, array_equal=array_equal, roll=roll,
                     where=where, nonzero=nonzero, flatnonzero=flatnonzero, zeros_like=zeros_like,
                     full=lambda s, v, dtype=None: full(s, v),
                     all=lambda a: asarray(a).all(), any=lambda a: asarray(a).any(),
                     float32=lambda x=0: as_num(x) if isinstance(x, Sym) else exact(np.float32(x)),
                     ndarray=np.ndarray, newaxis=None).items():
        setattr(m, k, v)
    return m
