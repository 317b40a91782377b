"""Loops over arbitrary collections inside a loop body, by the generic-element rule.

The collection is known only by a predicate on its elements.  The rule, applied when the code starts to
iterate over it, forks the path:

  element   one arbitrary element is delivered (earlier iterations are arbitrary other elements); when the
            code comes back to the loop head the effect of the body is compared with the state before, the
            harness proves its obligation about that element, and the path ends.  The body may rebind loop
            temporaries, change the element itself and append to local lists; any other effect is
            untranslatable (it would be carried from one iteration to the next).
  exit      the loop is over: every local list the body appends to becomes an OptList that records "whatever
            this loop appends", temporaries become Poison, everything else is as before the loop.

What the body appends to / rebinds is learned on the element paths, which are explored first; an exit path
that turns out to have assumed too little makes the unit undecided.
"""
import dis

import numpy as np

from . import sym, cut
from .cut import GhostList, Poison, code_frame, set_locals, get_locals
from .sym import Unsupported, PathEnd, Sym, SymInt, And, ite


# ------------------------------------------------------------------ snapshots
def _own(o):
    return type(o).__module__.startswith("MahjongAI")


def snap(o, depth=7):
    if o is None or isinstance(o, (Sym, int, float, str, bool)):
        return o
    if isinstance(o, Poison):
        return ("P", id(o))
    if depth == 0:
        return ("?", id(o))
    if isinstance(o, GhostList):
        return ("G", o, o.state(), [snap(x, depth - 1) for x in o.tail])
    if isinstance(o, (list, tuple)):
        return ("L", o, [snap(x, depth - 1) for x in o])
    if isinstance(o, np.ndarray):
        return ("A", o, list(o.reshape(-1)))
    if isinstance(o, dict):
        return ("D", o, {k: snap(v, depth - 1) for k, v in o.items()})
    if _own(o) and hasattr(o, "__dict__") and not isinstance(o, type):
        return ("O", o, {k: snap(v, depth - 1) for k, v in o.__dict__.items()})
    return ("X", o)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return False
        if a[0] in ("P", "?"):
            return a[1] == b[1]
        if a[1] is not b[1]:
            return False
        if a[0] == "G":
            return a[2] == b[2] and len(a[3]) == len(b[3]) and all(same(x, y) for x, y in zip(a[3], b[3]))
        if a[0] == "L":
            return len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == "A":
            return len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ("D", "O"):
            return a[2].keys() == b[2].keys() and all(same(a[2][k], b[2][k]) for k in a[2])
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        return isinstance(a, SymInt) and isinstance(b, SymInt) and a.t.eq(b.t)
    return type(a) is type(b) and a == b


def grown(a, b):
    """a, b snapshots of the same list object: items appended, or None"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[1] is b[1]:
        if a[0] == "L" and isinstance(a[1], list):
            x, y = a[2], b[2]
        elif a[0] == "G" and a[2] == b[2]:
            x, y = a[3], b[3]
        else:
            return None
        if len(y) > len(x) and all(same(p, q) for p, q in zip(x, y)):
            return (list(a[1].tail) if a[0] == "G" else list(a[1]))[len(x):]
    return None


class OptList(GhostList):
    """A local list after a loop that may have appended to it: `trail` says what went in, in order."""

    def __init__(self, trail, tail=()):
        c = sym.ctx()
        n = c.tags["fresh"] = c.tags.get("fresh", 0) + 1
        GhostList.__init__(self, "opt", c.int(f"len_opt{n}", 0, None), tail)
        self.trail = trail

    def copy(self):
        r = OptList.__new__(OptList)
        GhostList.__init__(r, self.tag, self.base, self.tail)
        r.trail = list(self.trail)
        return r

    def full_trail(self):
        return self.trail + [("item", x) for x in self.tail]


def loop_frame():
    """the frame that runs the loop; anything but a loop statement asking for elements is untranslatable"""
    f = code_frame()
    i, code = f.f_lasti, f.f_code.co_code
    while i > 0 and dis.opname[code[i]] == "CACHE":
        i -= 2
    if dis.opname[code[i]] != "FOR_ITER":
        raise Unsupported("an arbitrary collection is used other than in a loop statement")
    return f


def _memo(key):
    c = sym.ctx()
    m = c.__dict__.setdefault("memo", {})
    return m.setdefault(key, {"changed": set(), "grown": set(), "exit": None, "delivered": False})


def focus_iter(key, element, after=None, tail=(), learn=True, inside=None):
    """Generator implementing the rule.  element() makes the arbitrary element; after(x, appended, frame)
    states the obligations about it, appended = {local: [items]}."""
    c = sym.ctx()
    f = loop_frame()
    key = (key, f.f_code.co_filename, f.f_lineno)
    m = _memo(key)
    if c.choose(2) == 0:
        loc0 = get_locals(f)
        before = {n: snap(v) for n, v in loc0.items()}
        x = element()
        if inside is not None and not inside(x):
            if after is not None:
                after(x, {}, f)                   # an element the loop does not meet
            raise PathEnd
        c.tags.setdefault("open_loops", []).append(key)
        yield x
        c.tags["open_loops"].remove(key)
        loc1 = get_locals(f)
        changed, app = set(), {}
        for n, v in loc1.items():
            s = snap(v)
            if n not in before:
                changed.add(n)
                continue
            if same(before[n], s):
                continue
            g = grown(before[n], s)
            if g is not None:
                app[n] = g
            elif v is not loc0[n]:
                changed.add(n)
            else:
                hit = [a for a in app]
                raise Unsupported(f"a loop over an arbitrary collection changes {n!r} in place {hit}")
        # a list reachable through several locals: the nested views changed too
        if learn:
            m["delivered"] = True
            m["changed"] |= changed
            m["grown"] |= set(app)
            if m["exit"] is not None and not (changed <= m["exit"][0] and set(app) <= m["exit"][1]):
                raise Unsupported("the effect of a loop over an arbitrary collection was learned too late")
        if after is not None:
            after(x, app, f)
        elif app:
            raise Unsupported("a loop over an arbitrary collection builds a list")
        raise PathEnd
    m["exit"] = (set(m["changed"]), set(m["grown"]))
    loc = get_locals(f)
    upd = {n: Poison(n) for n in m["changed"]}
    swap = {}
    for n in m["grown"]:
        old = loc[n]
        if isinstance(old, OptList):
            new = OptList(old.full_trail() + [("loop", key[0])])
        elif isinstance(old, GhostList):
            raise Unsupported("a loop over an arbitrary collection extends a recorded list")
        else:
            new = OptList([("item", x) for x in old] + [("loop", key[0])])
        swap[id(old)] = (old, new)
    for n, v in loc.items():
        if id(v) in swap:
            upd[n] = swap[id(v)][1]
        elif isinstance(v, list) and not isinstance(v, GhostList):
            for i, y in enumerate(v):
                if id(y) in swap:
                    v[i] = swap[id(y)][1]
    if upd:
        set_locals(f, upd)
    yield from tail


class AnyList(GhostList):
    """A list of arbitrary elements from an earlier point, iterated by the rule above."""

    def __init__(self, tag, base, tail=(), key=None, element=None, after=None, removed=(), popper=None):
        GhostList.__init__(self, tag, base, tail)
        self.key, self.element, self.after, self.removed, self.popper = key, element, after, tuple(removed), popper

    def state(self):
        return (self.tag, self.removed)

    def copy(self):
        return AnyList(self.tag, self.base, self.tail, self.key, self.element, self.after, self.removed, self.popper)

    def __add__(self, xs):
        r = self.copy()
        r.tail += list(xs)
        return r

    def __symlen__(self):
        return self.base + len(self.tail) - len(self.removed)

    def __iter__(self):
        if self.key is None:
            raise Unsupported("iteration over a symbolic list")
        return focus_iter(self.key, self.element, self.after, self.tail)

    def __getitem__(self, i):
        if isinstance(i, slice) and i != slice(None) and type(self) is AnyList and self.key is not None and not self.tail \
                and not self.removed and i.step in (None, 1):
            return Window(self, i.start, i.stop)
        return GhostList.__getitem__(self, i)

    def position_of(self, x):
        c = sym.ctx()
        ps = c.tags.setdefault("positions", {})
        k = (id(self), id(x))
        if k not in ps:
            for j, y in enumerate(self.tail):
                if y is x:
                    ps[k] = (self.base + j, self, x)
                    break
            else:
                n = c.tags["fresh"] = c.tags.get("fresh", 0) + 1
                v = c.int(f"pos{n}", 0, None)
                c.assume(v < self.base)
                ps[k] = (v, self, x)
        return ps[k][0]

    def pop(self, i=-1):
        if self.popper is None:
            raise Unsupported("pop on a symbolic list")
        return self.popper(self, i)


class Window(AnyList):
    """A slice of a list of arbitrary elements: an element is met only if its position is inside."""

    def __init__(self, of, start, stop):
        n = of.base
        lo = 0 if start is None else ite(start < 0, ite(n + start < 0, 0, n + start), start)
        hi = n if stop is None else ite(stop < 0, n + stop, stop)
        self.of, self.lo, self.hi = of, lo, hi
        a, b = ite(lo > n, n, lo), ite(hi > n, n, hi)
        size = ite(b > a, b - a, 0)
        AnyList.__init__(self, (of.tag, "window"), size, (), of.key, of.element, of.after)

    def copy(self):
        raise Unsupported("a copy of a slice of a symbolic list")

    def __add__(self, xs):
        raise Unsupported("a list made from a slice of a symbolic list")

    def __iter__(self):
        return focus_iter(self.key, self.element, self.after, (), inside=self._inside)

    def _inside(self, x):
        p = self.of.position_of(x)
        return bool(And(p >= self.lo, p < self.hi))

    def position_of(self, x):
        p = self.of.position_of(x)
        return p - self.lo


GhostList.state = lambda self: (self.tag,)


class MarkList(GhostList):
    """Options recorded at the current decision point: any number, of which one arbitrary one is looked at.
    The others are handled alike: the body may change only the option it is given (checked)."""

    def __init__(self, tag, focus=None):
        c = sym.ctx()
        n = c.tags["fresh"] = c.tags.get("fresh", 0) + 1
        GhostList.__init__(self, tag, c.int(f"len_mark{n}", 1 if focus is not None else 0, None))
        self.focus = focus

    def copy(self):
        r = MarkList(self.tag, self.focus)
        r.tail = list(self.tail)
        return r

    def __iter__(self):
        if self.tail:
            raise Unsupported("iteration over options added later")
        if self.focus is None:
            return
        f = loop_frame()
        loc0 = get_locals(f)
        before = {n: snap(v) for n, v in loc0.items()}
        keep = snap(self.focus)
        yield self.focus
        # the code came back for the next option
        now = self.focus.executed
        self.focus.executed = before_exec = keep[2]["executed"]
        for n, v in get_locals(f).items():
            if v is self.focus:
                continue
            if n not in before or not same(before[n], snap(v)):
                raise Unsupported(f"marking options carries {n!r} from one option to the next")
        self.focus.executed = now


class SearchList(AnyList):
    """Arbitrary elements plus one known element at an arbitrary position, that the others differ from."""

    def __init__(self, tag, base, tail=(), key=None, other=None, target=None, position=None, removed=()):
        AnyList.__init__(self, tag, base, tail, key=key, removed=removed)
        self.other, self.target, self.position = other, target, position

    def copy(self):
        return SearchList(self.tag, self.base, self.tail, self.key, self.other, self.target, self.position, self.removed)

    def __iter__(self):
        c = sym.ctx()
        if self.removed:
            raise Unsupported("iteration after an element was removed")
        f = loop_frame()
        m = _memo((self.key, f.f_code.co_filename, f.f_lineno))
        if c.choose(2) == 0:
            yield from self._others(f, m)
        if m["changed"]:
            set_locals(f, {n: Poison(n) for n in m["changed"]})
        m["exit"] = set(m["changed"])
        yield self.target
        if self.removed:
            raise Unsupported("iteration goes on after an element was removed")
        yield from self.tail

    def _others(self, f, m):
        loc0 = get_locals(f)
        before = {n: snap(v) for n, v in loc0.items()}
        x = self.other()
        lst = snap(self)
        c = sym.ctx()
        c.tags.setdefault("open_loops", []).append(self.key)
        yield x
        for n, v in get_locals(f).items():
            if n in before and same(before[n], snap(v)):
                continue
            if n in before and v is loc0[n]:
                raise Unsupported(f"a search changes {n!r} for an element it is not looking for")
            m["changed"].add(n)
        if m["exit"] is not None and not m["changed"] <= m["exit"]:
            raise Unsupported("the effect of a search was learned too late")
        if not same(lst, snap(self)):
            raise Unsupported("a search changes the list for an element it is not looking for")
        raise PathEnd

    def position_of(self, x):
        if x is self.target:
            return self.position
        return AnyList.position_of(self, x)

    def pop(self, i=-1):
        c = sym.ctx()
        if not (isinstance(i, SymInt) and i.t.eq(self.position.t)) or self.removed:
            raise Unsupported("pop of another element of a symbolic list")
        self.removed = (("target", id(self.target)),)
        return self.target

    def remove(self, x):
        if x is not self.target or self.removed:
            raise Unsupported("removal of another element of a symbolic list")
        self.removed = (("target", id(self.target)),)

    def __delitem__(self, i):
        self.pop(i)
