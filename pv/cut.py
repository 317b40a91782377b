"""Loop contracts: a loop of the code under contract is cut at its invariant.

The code itself is not rewritten for this.  A `for` loop over a GhostSeq asks the sequence for its next
element; that request is the loop head.  (`while` loops announce their head through a call that the loader
adds to every loop condition.)  At a loop head the rule is applied to the frame of the running function:

  base   the invariant must hold at the first head                       (obligation, path ends)
  step   the locals are replaced by arbitrary values satisfying the invariant, one arbitrary element is
         delivered, and the invariant must hold at the next head          (obligation, path ends)
  exit   the locals are replaced by arbitrary values satisfying the invariant for the whole sequence and
         the loop is left

Which local plays which role in the invariant is found by running the same code on concrete samples
(`infer`): a local is matched to a role when it has that role's value at every loop head of every sample.
The match is only a guess - the obligations are what decides - so a wrong guess can only fail or be
reported as untranslatable.  Locals without a role become Poison: any use of one is an error.
"""
import ctypes
import os
import sys

from . import sym
from .sym import Unsupported, PathEnd, Sym, SymInt, as_num

PVDIR = os.path.dirname(os.path.abspath(__file__))


def code_frame():
    f = sys._getframe(1)
    while f is not None and os.path.dirname(os.path.abspath(f.f_code.co_filename)) in (PVDIR,):
        f = f.f_back
    return f


def get_locals(frame):
    return dict(frame.f_locals)


def set_locals(frame, d):
    loc = frame.f_locals
    loc.update(d)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class Poison:
    """The value of a local that the loop invariant says nothing about."""
    __slots__ = ("_n",)

    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def _bad(self, *a, **k):
        raise Unsupported(f"the loop invariant says nothing about local {object.__getattribute__(self, '_n')!r}")

    def __getattribute__(self, a):
        if a in ("__class__", "__deepcopy__", "__reduce_ex__"):
            return object.__getattribute__(self, a)
        object.__getattribute__(self, "_bad")()

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __iter__ = __len__ = _bad
    __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __call__ = _bad
    __iadd__ = __isub__ = __contains__ = __index__ = __int__ = __str__ = __or__ = __and__ = __neg__ = _bad


class GhostSeq:
    """A sequence of arbitrary length; `head(frame, it)` is the loop rule."""

    def __init__(self, head, length=None):
        self.head = head
        self.length = length

    def __iter__(self):
        return GhostIter(self)

    def __len__(self):
        raise Unsupported("length of an arbitrary sequence")

    def __symlen__(self):
        if self.length is None:
            raise Unsupported("length of an arbitrary sequence")
        return self.length

    def __getitem__(self, i):
        raise Unsupported("random access to an arbitrary sequence")

    def __bool__(self):
        if self.length is None:
            raise Unsupported("emptiness of an arbitrary sequence")
        return bool(self.length > 0)


class GhostIter:
    def __init__(self, seq):
        self.seq = seq
        self.n = 0
        self.frame = None

    def __iter__(self):
        return self

    def __next__(self):
        f = code_frame()
        k = self.n
        self.n += 1
        return self.seq.head(f, k)


class GhostList(list):
    """A list whose first `base` items (arbitrarily many) are known only through the invariant; items
    appended since then are ordinary.  It is append-only: anything else is untranslatable."""

    def __init__(self, tag, base, tail=()):
        list.__init__(self)
        self.tag, self.base, self.tail = tag, base, list(tail)

    def append(self, x):
        self.tail.append(x)

    def extend(self, xs):
        for x in xs:
            self.tail.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        return GhostList(self.tag, self.base, self.tail + list(xs))

    def copy(self):
        return GhostList(self.tag, self.base, self.tail)

    def __copy__(self):
        return self.copy()

    def __symlen__(self):
        return self.base + len(self.tail)

    def __len__(self):
        raise Unsupported("length of a symbolic list as a machine integer")

    def __bool__(self):
        return bool(self.base + len(self.tail) > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        if isinstance(i, int) and i < 0 and -i <= len(self.tail):
            return self.tail[i]
        raise Unsupported("random access to a symbolic list")

    def _no(self, *a, **k):
        raise Unsupported("this operation on a symbolic list")
    __setitem__ = __delitem__ = pop = insert = remove = clear = sort = reverse = index = count = _no
    __contains__ = __mul__ = __rmul__ = __imul__ = __eq__ = __ne__ = __lt__ = __reversed__ = _no
    __hash__ = None
    _iter = None

    def position_of(self, x):
        raise Unsupported("position in a symbolic list")

    def __iter__(self):
        if self._iter is not None:
            return iter(self._iter)
        raise Unsupported("iteration over a symbolic list")


def enumerate_(it, start=0):
    if isinstance(it, GhostList):
        return _enum_list(it, start)
    if isinstance(it, GhostSeq):
        return GhostEnum(it, start)
    return enumerate(it, start)


def _enum_list(it, start):
    for x in it:
        yield it.position_of(x) + start, x


class GhostEnum:
    def __init__(self, seq, start):
        self.seq, self.start = seq, start
        self.it = iter(seq)

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        k = getattr(self.seq, "position", None)
        if k is None:
            raise Unsupported("index of an arbitrary sequence")
        return k + self.start, x


def len_(x):
    f = getattr(type(x), "__symlen__", None)
    if f is not None:
        return f(x)
    return len(x)


def while_():
    c = sym.ctx()
    if c is None:
        return True
    h = c.tags.get("while")
    if h is None:
        return True
    return h(code_frame())


# ------------------------------------------------------------------ role inference
def same(a, b):
    if a is b:
        return True
    if isinstance(a, (GhostList, GhostSeq, Poison)) or isinstance(b, (GhostList, GhostSeq, Poison)):
        return False
    try:
        import numpy as np
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            x, y = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            return x.shape == y.shape and all(p == q for p, q in zip(x.reshape(-1), y.reshape(-1)))
        if isinstance(a, bool) != isinstance(b, bool) and (isinstance(a, str) or isinstance(b, str)):
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return bool(a == b) and (type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float))))
    except Exception:
        return False


def infer(samples, roles):
    """samples: list over loop heads of (locals, {role: value});  roles: role names in order of preference.
    -> {local: role}; locals whose value never changes between heads of one run are left alone."""
    names = set(samples[0][0])
    for loc, _ in samples[1:]:
        names &= set(loc)
    out = {}
    for n in sorted(names):
        for r in roles:
            if all(r in g and same(loc[n], g[r]) for loc, g in samples):
                out[n] = r
                break
    return out
