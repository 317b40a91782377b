"""Lists of arbitrary length, and the loops, comprehensions and tensors made from them.

A GList is a sequence of parts: ordinary items, and gaps standing for any number of further items.  A property of
every item is decided on  [gap, item, gap]: an arbitrary item with any number of others before and after it.

Loop over a gap (the generic-element rule):
  any      an arbitrary element from an arbitrary state: lists have grown by some gap, rebound locals are Poison.
           The body may only append to lists and rebind temporaries: which ones is found on the way, and
           the exploration starts over when a path does more than was known
  exit     the loop (over this gap) is over: every list has grown by a gap, temporaries are Poison
Two lists whose growth is the same on every path have gaps of the same length.  Facts about the items of a gap
(0/1 cells, at least one / two non-zero cells, integer ranges) are those proved for every item appended on every
`any` path.

Option lists (OptList) are looped over with an invariant instead: the body may set cells of one tensor and
rebind scalars whose role was found on sample runs (pv.cut.infer's idea); see OptList.
"""
import ast
import dis

import numpy as np
import z3

from . import sym, cut
from .cut import Poison, get_locals, set_locals, code_frame
from .focus import snap, same, _own
from .btensor import BTensor, VTensor
from .sym import Sym, SymInt, SymBool, Unsupported, PathEnd, And, Or, Not, ite, as_num, bterm

FOR_POS = {}            # file -> positions of its `for` statements


def fresh(tag, lo=0, hi=None):
    c = sym.ctx()
    n = c.tags["fresh"] = c.tags.get("fresh", 0) + 1
    return c.int(f"{tag}~{n}", lo, hi)


def loop_frame():
    f = code_frame()
    i, code = f.f_lasti, f.f_code.co_code
    while i > 0 and dis.opname[code[i]] == "CACHE":
        i -= 2
    if dis.opname[code[i]] != "FOR_ITER":
        raise Unsupported("a list of arbitrary length is used other than in a loop statement")
    p = list(f.f_code.co_positions())[i // 2]
    if (p[0], p[2]) not in FOR_POS.get(f.f_code.co_filename, ()):
        raise Unsupported("a list of arbitrary length in a comprehension")
    return f, (f.f_code.co_filename, p[0], p[2])


# ------------------------------------------------------------------ snapshots (as pv.focus, plus GList and tensors)
def gsnap(o, depth=7):
    from . import torchshim as TS
    if isinstance(o, GList):
        return ("GL", o, tuple(id(p) for p in o.parts))
    if isinstance(o, (BTensor, VTensor, Sample, GTokens, Maybe)):
        return ("X", o)
    if isinstance(o, TS.Tensor):
        return ("T", o, list(np.asarray(o.a).reshape(-1)))
    if depth and isinstance(o, (list, tuple)) and not hasattr(o, "state"):
        return ("L", o, [gsnap(x, depth - 1) for x in o])
    if depth and isinstance(o, dict):
        return ("D", o, {k: gsnap(v, depth - 1) for k, v in o.items()})
    if depth and _own(o) and hasattr(o, "__dict__") and not isinstance(o, type):
        return ("O", o, {k: gsnap(v, depth - 1) for k, v in o.__dict__.items()})
    return snap(o, depth)


def gsame(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and a[0] == b[0]:
        if a[0] == "GL":
            return a[1] is b[1] and a[2] == b[2]
        if a[0] in ("T", "L") and a[1] is b[1]:
            return len(a[2]) == len(b[2]) and all(gsame(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ("D", "O") and a[1] is b[1]:
            return a[2].keys() == b[2].keys() and all(gsame(a[2][k], b[2][k]) for k in a[2])
    return same(a, b)


def ggrown(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[1] is b[1]:
        if a[0] == "GL":
            x, y = a[2], b[2]
            if len(y) > len(x) and y[:len(x)] == x:
                return list(a[1].parts[len(x):])
        elif a[0] == "L" and isinstance(a[1], list):
            x, y = a[2], b[2]
            if len(y) > len(x) and all(gsame(p, q) for p, q in zip(x, y)):
                return list(a[1][len(x):])
    return None


# ------------------------------------------------------------------ lists
class Gap:
    """Any number of items.  `n`: how many; `make()`: an arbitrary one (None: never asked for one by one);
    `kind`: elements of the same kind of gap share what is learned about a loop."""

    like = None

    def __init__(self, kind, n, make, origin=None, variants=None):
        self.kind, self.n, self.make = kind, n, make
        self.origin = origin
        self.variants = variants            # {kind of element: how to make one}
        self.tally = None                   # {kind of element: how often one of a loop's elements of this kind is in here}
        if variants:
            self.make = self._any

    def _any(self):
        ks = sorted(self.variants)
        k = ks[sym.ctx().choose(len(ks)) if len(ks) > 1 else 0]
        x = self.variants[k]()
        x._pv_kind, x._pv_make = k, self.variants[k]
        return x


class GList(list):
    grown_from = None

    def __init__(self, parts=()):
        list.__init__(self)
        self.parts = list(parts)

    @staticmethod
    def of(x):
        return list(x.parts) if isinstance(x, GList) else list(x)

    def append(self, x):
        self.parts.append(x)

    def extend(self, xs):
        self.parts.extend(GList.of(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        return GList(self.parts + GList.of(xs))

    def __radd__(self, xs):
        return GList(GList.of(xs) + self.parts)

    def copy(self):
        return GList(self.parts)

    __copy__ = copy

    def __symlen__(self):
        r = 0
        for p in self.parts:
            r = r + (p.n if isinstance(p, Gap) else 1)
        return r

    def __len__(self):
        n = self.__symlen__()
        if isinstance(n, Sym):
            raise Unsupported("length of a list of arbitrary length as a machine integer")
        return n

    def __bool__(self):
        return bool(self.__symlen__() > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        if isinstance(i, int):
            ps = self.parts if i >= 0 else self.parts[::-1]
            k = i if i >= 0 else -i - 1
            if k < len(ps) and not any(isinstance(p, Gap) for p in ps[:k + 1]):
                return ps[k]
        raise Unsupported("random access to a list of arbitrary length")

    def _no(self, *a, **k):
        raise Unsupported("this operation on a list of arbitrary length")
    __setitem__ = __delitem__ = pop = insert = remove = clear = sort = reverse = index = count = _no
    __contains__ = __mul__ = __rmul__ = __imul__ = __eq__ = __ne__ = __lt__ = __reversed__ = _no
    __hash__ = None

    def __iter__(self):
        if not any(isinstance(p, Gap) for p in self.parts):
            return iter(list(self.parts))
        return self._loop()

    def _loop(self):
        f, pos = loop_frame()
        if any(isinstance(p, Gap) and p.like is not None for p in self.parts):
            yield from like_loop(f, pos, self.parts)
            return
        seen = {}
        for p in list(self.parts):
            if isinstance(p, Gap):
                seen[p.kind] = yield from gap_loop(f, pos, p, seen.get(p.kind))
            else:
                yield p


class Learned:
    """What the body of a loop does to the state, found on its paths.  `names` is what it is allowed to do: locals it
    rebinds and lists it appends to; when a path does more, the exploration starts over with more allowed."""

    def __init__(self, names):
        self.changed, self.lists = names
        self.grown, self.paths, self.kinds, self.exit = {}, [], [], False


def _learned(key):
    """one per run of the loop (runs are told apart by the decisions that led to them); what the body is allowed to
    change is shared by all runs"""
    c = sym.ctx()
    k = (key, tuple(c.script[:c.pos]))
    if k not in c.learned:
        c.learned[k] = Learned(c.loop_names.setdefault(key, (set(), set())))
    return c.learned[k]


class Claim:
    """What one iteration of a loop does: which lists it appends to, items of which make-up, which lists always get
    equally many, which locals it rebinds."""

    def __init__(self):
        self.changed, self.grown, self.counts = set(), {}, []

    def digest(self):
        return repr((sorted(self.changed), sorted((n, self.sig(n), _tmpl(g.tmpl)) for n, g in self.grown.items())))

    def sig(self, n):
        return min(m for m in self.grown if self.equal(n, m))

    def equal(self, n, m):
        return all(c.get(n, 0) == c.get(m, 0) for c in self.counts)


def _tmpl(t):
    if t is None:
        return "the element"
    if t[0] == "tuple":
        return ("tuple", tuple(_tmpl(x) for x in t[1]))
    if t[0] == "tensor":
        return ("tensor", tuple(t[1]), t[2].n, None if t[3] is None else tuple(sorted(t[3])))
    if t[0] == "int":
        return ("int", None if t[1] is None else tuple(sorted(t[1])), t[2])
    return t[:1]


def like_loop(f, pos, parts):
    """A loop over  [gap] item [gap]  whose gaps hold items of the same sort as `item`.

    The iteration for `item` is an arbitrary iteration: it starts from an arbitrary state (the lists hold what any
    number of earlier iterations left, rebound locals are Poison) and handles an arbitrary item.  What it does is the
    claim that is assumed of the iterations in the gaps; the exploration starts over until the claim is kept by every path.
    Cases that split the arbitrary item have to agree on the claim (check.py compares the digests)."""
    c = sym.ctx()
    gaps = [p for p in parts if isinstance(p, Gap)]
    items = [p for p in parts if not isinstance(p, Gap)]
    if len(items) != 1 or any(p.like is not items[0] for p in gaps):
        raise Unsupported("a list of another make-up")
    key = (pos, gaps[0].kind)
    if key in c.tags.setdefault("like", set()):
        raise Unsupported("a second loop over the same decision points")
    c.tags["like"].add(key)
    C = c.claims.get(key)
    for p in parts:
        if isinstance(p, Gap):
            if C is not None:
                _claimed(f, pos, p, C)
            continue
        loc0 = get_locals(f)
        before = {n: gsnap(v) for n, v in loc0.items()}
        c.tags["open"] = c.tags.get("open", 0) + 1
        yield p
        c.tags["open"] -= 1
        new = Claim()
        if C is not None:
            new.changed, new.counts = set(C.changed), list(C.counts)
            new.grown = {n: g.copy() for n, g in C.grown.items()}
        changed, app = _effect(before, loc0, get_locals(f))
        new.changed |= changed
        if any(isinstance(y, Gap) for g in app.values() for y in g):
            raise Unsupported("a list of arbitrary length appended to another in a loop")
        cnt = {n: len(g) for n, g in app.items()}
        for n, g in app.items():
            G = new.grown.setdefault(n, Grown())
            G.coarse = True
            for y in g:
                G.learn(0, y, p)
        if cnt not in new.counts:
            new.counts.append(cnt)
        if any(g.tmpl is None and not g.sources for g in new.grown.values()):
            raise Unsupported("a list grows in an inner loop")
        if C is None or new.digest() != C.digest():
            c.claims[key] = new
            c.start_over()
        c.report.claims[repr(key)] = new.digest()


def _claimed(f, pos, gap, C):
    c = sym.ctx()
    loc = get_locals(f)
    upd = {n: Poison(n) for n in C.changed}
    ns = {}
    for n in sorted(C.grown):
        if n not in loc:
            raise Unsupported("a list that grows is not there yet")
        s = C.sig(n)
        if s not in ns:
            ns[s] = fresh("gap", 0)
            c.define(Or(gap.n > 0, ns[s] == 0))
        if C.grown[n].sources:
            g = Gap(gap.kind, ns[s], None, variants=gap.variants)
            g.like = gap.like
        else:
            g = C.grown[n].gap(ns[s], (pos, gap.kind, n), {}, ())
        old = loc[n]
        if isinstance(old, GList):
            old.parts.append(g)
        else:
            if any(v is old for k, v in loc.items() if k != n) or any(_holds_list(v, old) for k, v in loc.items() if k != n):
                raise Unsupported("a list that grows is reachable in two ways")
            upd[n] = GList(GList.of(old) + [g])
    if upd:
        set_locals(f, upd)


def _holds_list(v, x, depth=2):
    if isinstance(v, (list, tuple)) and not isinstance(v, (GTokens, Sample, OptList, Maybe)):
        return any(y is x or depth and _holds_list(y, x, depth - 1) for y in GList.of(v))
    if isinstance(v, dict):
        return any(y is x or depth and _holds_list(y, x, depth - 1) for y in v.values())
    return False


def _effect(before, loc0, loc1):
    """-> (rebound locals, {list: items appended})"""
    changed, app = set(), {}
    for n, v in loc1.items():
        s = gsnap(v)
        if n not in before:
            changed.add(n)
            continue
        if gsame(before[n], s):
            continue
        g = ggrown(before[n], s)
        if g is None and isinstance(v, GList) and v.grown_from is loc0[n]:
            g = []                      # an inner loop appended: start over with a list that may grow
        if g is not None:
            app[n] = g
        elif v is not loc0[n]:
            changed.add(n)
        else:
            raise Unsupported(f"a loop over a list of arbitrary length changes {n!r} in place")
    return changed, app


def settled():
    """no loop over a list of arbitrary length was left by break or return"""
    if sym.ctx().tags.get("open"):
        raise Unsupported("a loop over a list of arbitrary length is left early")


def _count(parts):
    n = 0
    for p in parts:
        n = n + (p.n if isinstance(p, Gap) else 1)
    return n if not isinstance(n, Sym) else ("s", dim_id(n))


def gap_loop(f, pos, gap, again):
    """`again`: what was learned about an earlier gap of this run of the loop, of the same kind: its paths cover this one"""
    c = sym.ctx()
    M = again or _learned((pos, gap.kind))
    if not again and c.choose(2) == 0:
        _grow(f, pos, gap, M, True)
        loc0 = get_locals(f)
        before = {n: gsnap(v) for n, v in loc0.items()}
        x = gap.make()
        yield x
        changed, app = _effect(before, loc0, get_locals(f))
        if not (changed <= M.changed and set(app) <= M.lists):
            M.changed |= changed
            M.lists |= set(app)
            c.start_over()
        if M.exit:
            raise Unsupported("the effect of a loop was learned too late")
        kp = len(M.paths)
        M.paths.append({n: _count(g) for n, g in app.items()})
        M.kinds.append(getattr(x, "_pv_kind", None))
        for n in M.lists:
            G = M.grown.setdefault(n, Grown())
            for y in app.get(n, ()):
                G.learn(kp, y, x)
        raise PathEnd
    M.exit = True
    _grow(f, pos, gap, M, False)
    return M


def _grow(f, pos, gap, M, inside):
    """the state after any number of elements"""
    c = sym.ctx()
    loc = get_locals(f)
    upd = {n: Poison(n) for n in M.changed}
    sig, rows = {}, {}
    swap = {}
    for n in sorted(M.lists):
        if n not in loc:
            continue
        old = loc[n]
        if id(old) in swap:
            continue
        if inside:
            g = RowGap((pos, gap.kind, n), fresh("gap", 0), None)
        else:
            cnt = tuple(p.get(n, 0) for p in M.paths)
            if not any(cnt):
                continue
            if cnt not in sig:
                # nothing came of no elements; as much as there were elements if each adds one
                sig[cnt] = gap.n if set(cnt) == {1} else fresh("gap", 0)
                c.define(Or(gap.n > 0, sig[cnt] == 0))
            g = M.grown[n].gap(sig[cnt], (pos, gap.kind, n), rows, cnt)
            g.tally = {k: {c_ for c_, k_ in _zip(cnt, M.kinds) if k_ == k} for k in set(M.kinds)}
            g.of = gap
        if isinstance(old, GList):
            old.parts.append(g)
            swap[id(old)] = (old, old)
            continue
        new = GList(GList.of(old) + [g])
        new.grown_from = old
        swap[id(old)] = (old, new)
    for n, v in loc.items():
        if id(v) in swap:
            upd[n] = swap[id(v)][1]
        elif isinstance(v, (tuple, dict)) and any(id(y) in swap for y in (v.values() if isinstance(v, dict) else v)):
            raise Unsupported("a list that grows is reachable in two ways")
        elif isinstance(v, list) and not isinstance(v, (GTokens, Sample, OptList, Maybe)):
            vs = v.parts if isinstance(v, GList) else v
            for i, y in enumerate(vs):
                if id(y) in swap:
                    vs[i] = swap[id(y)][1]
    if upd:
        set_locals(f, upd)


class Grown:
    """What one list receives from a loop: common structure of the items and facts about them."""

    coarse = False

    def __init__(self):
        self.items = 0
        self.tmpl = None
        self.facts = {}
        self.sources = None           # set of source kinds if only the elements themselves are appended
        self.dims = {}                # tensor leaf path -> list of leading-dimension expressions, in learning order

    def copy(self):
        g = Grown()
        g.coarse = self.coarse
        g.items, g.tmpl, g.sources = self.items, self.tmpl, self.sources
        g.facts, g.dims = dict(self.facts), {k: list(v) for k, v in self.dims.items()}
        return g

    def learn(self, path, y, x):
        self.items += 1
        if x is not None and y is x and self.sources is not False:
            self.sources = (self.sources or []) + [(getattr(x, "_pv_kind", None), getattr(x, "_pv_make", None))]
            return
        if self.sources:
            raise Unsupported("elements and other things appended to one list")
        self.sources = False
        if isinstance(y, Gap):
            if not isinstance(y, RowGap):
                raise Unsupported("a list of arbitrary length appended to another in a loop")
            y = y.item()                # what an inner loop left: n items like this one
        t = describe(y, (), self, path)
        self.tmpl = t if self.tmpl is None else merge_t(self.tmpl, t)

    def gap(self, n, kind, rows, cnt):
        if self.sources:
            var = dict(self.sources)
            if None in var or None in var.values():
                raise Unsupported("the elements appended cannot be made again")
            return Gap(kind, n, None, variants=var)
        return RowGap(kind, n, lambda: build(self.tmpl, (), self, rows, cnt, n))


class RowGap(Gap):
    """items with a known structure"""

    def __init__(self, kind, n, make):
        Gap.__init__(self, kind, n, make)
        self._item = None

    def item(self):
        if self.make is None:
            raise Unsupported("a loop looks at what earlier iterations made")
        if self._item is None:
            self._item = self.make()
        return self._item


# ---- structure of items: ("tuple", [..]) | ("tensor", shape, dtype, facts) | ("int", facts) | ("obj",)
SMALL = 200
CAND = ["binary", "first", "two", "one"]


def holds(cond):
    if not isinstance(cond, Sym):
        return bool(cond)
    c = sym.ctx()
    t = z3.simplify(bterm(cond))
    if z3.is_true(t):
        return True
    if z3.is_false(t) or c.model is not None and z3.is_false(c.model.eval(t, model_completion=True)):
        return False
    return c._check(z3.Not(t))[0] == z3.unsat


def fact(name, cells):
    from . import torchshim as TS
    cells = [TS.num(x) for x in cells]
    if any(isinstance(x, TS.Opq) for x in cells):
        return False
    if name == "binary":
        return And(*[Or(x == 0, x == 1) for x in cells if not (isinstance(x, SymInt) and x.lo is not None and x.lo >= 0
                                                               and x.hi is not None and x.hi <= 1)])
    if name == "first":
        return cells[0] == 1
    if name == "one":
        return Or(*[x != 0 for x in cells])
    if name == "two":
        return And(cells[0] == 1, Or(*[x == 1 for x in cells[1:]]))
    raise KeyError(name)


INT_HI = [2, 4, 37, 71, 154]


def describe(y, path, grown, kp):
    from . import torchshim as TS
    if isinstance(y, tuple):
        return ("tuple", [describe(v, path + (k,), grown, kp) for k, v in enumerate(y)])
    if isinstance(y, BTensor):
        grown.dims.setdefault(path, []).append(("s", dim_id(y.total())))
        return ("rows", tuple(y.rest()), y.dtype, None)
    if isinstance(y, TS.Emb):
        raise Unsupported("a list of embeddings of arbitrary length")
    if isinstance(y, TS.Tensor):
        cells = list(np.asarray(y.a).reshape(-1))
        facts = None
        if 0 < len(cells) <= SMALL:
            facts = grown.facts.get(path, set(CAND))
            if facts and not holds(And(*[fact(n, cells) for n in sorted(facts)])):
                facts = {n for n in facts if holds(fact(n, cells))}
            grown.facts[path] = facts
        sh = tuple(y.shape)
        grown.dims.setdefault(path, []).append(("c", sh[0] if sh else None))
        return ("tensor", sh, y.dtype, facts)
    if isinstance(y, (bool, SymBool)):
        return ("int", None, True)
    if isinstance(y, (int, SymInt, np.integer)):
        his = {h for h in (INT_HI[-1:] if grown.coarse else INT_HI) if holds(And(y >= 0, y < h))}
        return ("int", his, False)
    return ("obj",)


def dim_id(n):
    return n if not isinstance(n, Sym) else str(z3.simplify(n.t))


def merge_t(a, b):
    if a[0] != b[0]:
        raise Unsupported("items of different kinds in one list of arbitrary length")
    if a[0] == "tuple":
        if len(a[1]) != len(b[1]):
            raise Unsupported("tuples of different lengths in one list of arbitrary length")
        return ("tuple", [merge_t(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "tensor":
        if a[1] != b[1]:
            raise Unsupported("tensors of different shapes in one list of arbitrary length")
        return ("tensor", a[1], a[2] if a[2].kind == b[2].kind else _promote(a[2], b[2]),
                None if a[3] is None else a[3] & b[3])
    if a[0] == "rows":
        if a[1] != b[1]:
            raise Unsupported("tensors of different shapes in one list of arbitrary length")
        return ("rows", a[1], a[2] if a[2].kind == b[2].kind else _promote(a[2], b[2]), None)
    if a[0] == "int":
        return ("int", (a[1] or set()) & (b[1] or set()), a[2] and b[2])
    return a


def _promote(a, b):
    from . import torchshim as TS
    return TS.promote(a, b)


def cells_with(n, facts):
    from . import torchshim as TS
    c = sym.ctx()
    if facts is None:
        return [TS.OPQ] * n
    c.tags["learned_rows"] = True
    if "binary" in facts:
        cs = [fresh("g", 0, 1) for _ in range(n)]
    else:
        cs = [fresh("g", None, None) for _ in range(n)]
    if "first" in facts:
        cs[0] = 1
    for f in sorted(facts):
        if f not in ("binary", "first"):
            c.define(fact(f, cs))
    return cs


def build(t, path, grown, rows, cnt, n):
    """a generic item with this structure"""
    from . import torchshim as TS
    if t[0] == "tuple":
        return tuple(build(x, path + (k,), grown, rows, cnt, n) for k, x in enumerate(t[1]))
    if t[0] == "tensor":
        m = 1
        for s in t[1]:
            m *= s
        a = np.empty(m, dtype=object)
        for k, v in enumerate(cells_with(m, t[3])):
            a[k] = v
        return TS.Tensor(a.reshape(t[1]).view(TS.SArr), t[2])
    if t[0] == "rows":
        # n items with r_1 + ... + r_n rows together; lists whose items agree in their numbers of rows share the sum
        sig = (cnt, tuple(grown.dims[path]))
        if sig not in rows:
            rows[sig] = fresh("rows", 0)
            sym.ctx().assume(Or(n > 0, rows[sig] == 0))
        a = np.empty((1,) + t[1], dtype=object)
        a[...] = TS.OPQ
        return BTensor([(rows[sig], TS.Tensor(a.view(TS.SArr), t[2]))], summed=True)
    if t[0] == "int":
        if t[2]:
            return fresh("g", 0, 1) != 0
        hi = min(t[1]) if t[1] else None
        return fresh("g", 0 if t[1] else None, None if hi is None else hi - 1)
    raise Unsupported("an item of a list of arbitrary length is needed")


# ------------------------------------------------------------------ zip, map, comprehensions
def has_gap(x):
    return isinstance(x, GList) and any(isinstance(p, Gap) for p in x.parts)


class ZipGap(Gap):
    pass


def zip_(*its, strict=False):
    if not any(isinstance(x, GList) for x in its):
        return _zip(*its, strict=strict) if strict else _zip(*its)
    parts = []
    ls = [GList.of(x) for x in its]
    if len({len(l) for l in ls}) != 1:
        raise Unsupported("lists of different make-up zipped")
    for ps in _zip(*ls):
        g = [isinstance(p, Gap) for p in ps]
        if not any(g):
            parts.append(tuple(ps))
            continue
        if not all(g) or any(not same_len(ps[0].n, p.n) for p in ps[1:]):
            raise Unsupported("lists of different lengths zipped")
        if all(isinstance(p, RowGap) for p in ps):
            parts.append(ItemGap(("zip",) + tuple(p.kind for p in ps), ps[0].n, tuple(p.item() for p in ps)))
            continue
        mates = ps[0].origin if ps[0].origin is not None and all(p.origin is ps[0].origin for p in ps) else None
        if mates is None:
            raise Unsupported("unrelated lists of arbitrary length zipped")
        parts.append(Gap(("zip",) + tuple(p.kind for p in ps), ps[0].n, lambda ps=ps, m=mates: m.together(ps)))
    return GList(parts)


def same_len(a, b):
    return holds(a == b)


class ItemGap(RowGap):
    def __init__(self, kind, n, item):
        Gap.__init__(self, kind, n, lambda: item)
        self._item = item

    def item(self):
        return self._item


def unzip(x):
    """zip(*x)"""
    if not isinstance(x, GList):
        return _zip(*x)
    cols = None
    for p in x.parts:
        it = p
        if isinstance(p, Gap):
            if not isinstance(p, RowGap):
                raise Unsupported("zip(*) of elements")
            it = p.item()
        if not isinstance(it, (tuple, list)):
            raise Unsupported("zip(*) of something else")
        if cols is None:
            cols = [[] for _ in it]
        if len(it) != len(cols):
            raise Unsupported("zip(*) of tuples of different lengths")
        for k, v in enumerate(it):
            cols[k].append(ItemGap((p.kind, k), p.n, v) if isinstance(p, Gap) else v)
    return iter([GList(c) for c in cols or []])


def gmap(f, x):
    parts = []
    for p in x.parts:
        if isinstance(p, Gap):
            if not isinstance(p, RowGap):
                g = _same_elements(f, p)
                if g is None:
                    raise Unsupported("a comprehension over elements of arbitrary number")
                parts.append(g)
                continue
            c = sym.ctx()
            before = len(c.script)
            y = f(p.item())
            if len(c.script) != before:
                raise Unsupported("a comprehension that decides something about each item")
            parts.append(ItemGap((p.kind, "map"), p.n, y))
        else:
            parts.append(f(p))
    return GList(parts)


def _same_elements(f, p):
    """[x for x in p]"""
    c = sym.ctx()
    for k in sorted(p.variants or ()):
        x = p.variants[k]()
        before = len(c.script)
        if f(x) is not x or len(c.script) != before:
            return None
    return p if p.variants else None


def map_(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], GList):
        return gmap(f, xs[0])
    if any(isinstance(x, GList) for x in xs):
        return gmap(lambda t: f(*t), zip_(*xs))
    return _map(f, *xs)


def comp(f, x, conds):
    if not isinstance(x, GList):
        return [f(v) for v in x if conds(v)] if conds is not None else [f(v) for v in x]
    if conds is not None:
        return gmap(f, GList([q for p in x.parts for q in _filtered(p, conds)]))
    return gmap(f, x)


def _filtered(p, conds):
    """the items that satisfy the condition, which is decided by their kind"""
    if not isinstance(p, Gap):
        return [p] if conds(p) else []
    if not p.variants or p.tally:
        raise Unsupported("a filter over a list of arbitrary length")
    c = sym.ctx()
    keep = {}
    for k in sorted(p.variants):
        x = p.variants[k]()
        before = len(c.script)
        v = conds(x)
        if len(c.script) != before or isinstance(v, Sym):
            raise Unsupported("a filter that depends on the element")
        if v:
            keep[k] = p.variants[k]
    if not keep:
        return []
    n = p.n if len(keep) == len(p.variants) else fresh("gap", 0)
    g = Gap((p.kind, "filter"), n, None, variants=keep)
    g.tally = {k: {1 if k in keep else 0} for k in p.variants}
    g.of, g.like = p, p.like
    return [g]


def list_(*a):
    if len(a) == 1 and isinstance(a[0], GList):
        return a[0].copy()
    return list(*a)


def tuple_(*a):
    if len(a) == 1 and isinstance(a[0], GList):
        return a[0].copy()
    return tuple(*a)


def enumerate_(it, start=0):
    if isinstance(it, GList) and has_gap(it):
        raise Unsupported("positions in a list of arbitrary length")
    return cut.enumerate_(it, start)


_zip, _map = zip, map


class Rewrite(ast.NodeTransformer):
    """zip(*E) -> __pv_unzip__(E);  [E for v in L] -> __pv_lcomp__(lambda v: E, L, cond);  list/tuple(E)"""

    def __init__(self):
        self.cls = 0
        self.loops = set()

    def visit_For(self, n):
        self.loops.add((n.lineno, n.col_offset))
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.keywords:
            if n.func.id == "zip" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
                n.func = ast.copy_location(ast.Name("__pv_unzip__", ast.Load()), n.func)
                n.args = [n.args[0].value]
            elif n.func.id in ("list", "tuple"):
                n.func = ast.copy_location(ast.Name(f"__pv_{n.func.id}__", ast.Load()), n.func)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name) or n.generators[0].is_async:
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        g = n.generators[0]

        def lam(body):
            return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
        cond = ast.Constant(None)
        if g.ifs:
            b = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(b)
        # the lambda must not be made where names are looked up in a class body or where `v` leaks; both are checked
        call = ast.Call(ast.Name("__pv_lcomp__", ast.Load()), [lam(n.elt), g.iter, cond], [])
        return ast.copy_location(call, n)

    def visit_ClassDef(self, n):
        body = []
        for s in n.body:
            body.append(self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s)
        n.body = body
        return n


def rewrite(name, tree, file):
    r = Rewrite()
    tree = r.visit(tree)
    FOR_POS[file] = r.loops
    return tree


def shims(b):
    return {"__pv_unzip__": unzip, "__pv_lcomp__": comp, "__pv_list__": list_, "__pv_tuple__": tuple_,
            "zip": zip_, "map": map_, "enumerate": enumerate_}


# ------------------------------------------------------------------ tensors from lists
def items(x):
    return list(x.parts)


def joined(x):
    """torch.cat(x, 0)"""
    from . import btensor
    parts = []
    for p in x.parts:
        if isinstance(p, Gap):
            if not isinstance(p, RowGap):
                raise Unsupported("tensors of unknown make-up joined")
            parts.append((p.n, p.item()))
        else:
            parts.append(p)
    return btensor.cat0(parts)


def to_tensor(x, dtype):
    """torch.tensor(list of numbers of arbitrary length)"""
    from . import torchshim as TS
    if not has_gap(x):
        return TS.tensor(items(x), dtype)
    bl = []
    for p in x.parts:
        v, n = p, 1
        if isinstance(p, Gap):
            if not isinstance(p, RowGap):
                raise Unsupported("a tensor of unknown items")
            v, n = p.item(), p.n
        if not isinstance(v, (int, bool, Sym, np.integer, float)):
            raise Unsupported("a tensor of a list of such items")
        t = TS.tensor([v], dtype)
        bl.append((n, t))
    return BTensor(bl)


class GTokens(list):
    """Integers, symbolically many (at most cap)."""

    def __init__(self, n, cells, cap=None):
        list.__init__(self)
        self.n, self.cells, self.cap = n, list(cells), cap if cap is not None else len(cells)

    def cell(self, j):
        return self.cells[j] if j < len(self.cells) else 0

    def __symlen__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start in (None, 0) and i.step in (None, 1):
            if i.stop is None:
                return GTokens(self.n, self.cells, self.cap)
            if isinstance(i.stop, Sym) and bool(i.stop < 0) or not isinstance(i.stop, Sym) and i.stop < 0:
                raise Unsupported("a slice counted from the end of a list of symbolic length")
            if not isinstance(i.stop, Sym):
                cells = self.cells[:i.stop]
            else:
                cells = self.cells
            return GTokens(ite(as_num(i.stop) <= self.n, i.stop, self.n), cells)
        raise Unsupported("random access to a list of symbolic length")

    def copy(self):
        return self[:]

    def __add__(self, o):
        from . import runs, btensor
        if isinstance(o, runs.Runs) and len(o.runs) == 1:
            v, m = o.runs[0]
            t = btensor.const(self.n + m)
            if t is None:
                raise Unsupported("lists of symbolic length one after the other")
            return [ite(j < self.n, self.cell(j), v) for j in range(t)]
        raise Unsupported("lists of symbolic length one after the other")

    def _no(self, *a, **k):
        raise Unsupported("this operation on a list of symbolic length")
    __iter__ = __len__ = __setitem__ = __delitem__ = pop = insert = remove = clear = sort = reverse = index = _no
    append = extend = __iadd__ = __contains__ = __mul__ = __eq__ = __ne__ = __reversed__ = _no
    __hash__ = None


# ------------------------------------------------------------------ option lists
class Sample(list):
    """A concrete option list that records the locals of the loop over it."""

    def __init__(self, items, marks, log):
        list.__init__(self, items)
        self.marks, self.log = marks, log      # marks: (action, taken) per item

    def __iter__(self):
        try:
            f, pos = loop_frame()
        except Unsupported:
            yield from list.__iter__(self)
            return
        heads = []
        self.log.append((pos, self.marks, heads))
        for k in range(list.__len__(self)):
            heads.append(view(get_locals(f)))
            yield list.__getitem__(self, k)
        heads.append(view(get_locals(f)))


def view(loc):
    from . import torchshim as TS
    out = {}
    for n, v in loc.items():
        if isinstance(v, TS.Tensor):
            out[n] = ("T", id(v), [x for x in np.asarray(v.a).reshape(-1)])
        elif isinstance(v, (bool, int)) or v is None:
            out[n] = ("S", None, v)
        else:
            out[n] = ("O", id(v), gsnap(v, 3))
    return out


def roles(log):
    """{loop: {local: role}} with role in mask / label / taken / const / temp, from the recorded runs"""
    by = {}
    for pos, marks, heads in log:
        by.setdefault(pos, []).append((marks, heads))
    out = {}
    for pos, runs in by.items():
        names = set()
        for _, heads in runs:
            for h in heads:
                names |= set(h)
        r = {}
        for n in names:
            r[n] = next((role for role in ("const", "mask", "label", "taken") if all(_fits(role, n, m, h) for m, h in runs)), "temp")
        out[pos] = r
    return out


def _fits(role, n, marks, heads):
    if n not in heads[0]:
        return False
    k0, id0, v0 = heads[0][n]
    lab, tk, cells = v0, v0, list(v0) if k0 == "T" else None
    for k, h in enumerate(heads):
        if n not in h:
            return False
        kind, i, v = h[n]
        if k:
            a, t = marks[k - 1]
            if cells is not None and a < len(cells):
                cells[a] = 1
            if t:
                lab, tk = a, True
        if role == "const":
            if kind != k0 or i != id0 or not (gsame(v, v0) if kind == "O" else v == v0):
                return False
        elif role == "mask":
            if kind != "T" or i != id0 or list(v) != cells:
                return False
        elif role == "label":
            if kind != "S" or isinstance(v, bool) or v != lab:
                return False
        elif role == "taken":
            if kind != "S" or v is not tk and v != tk or not isinstance(v, bool):
                return False
    return True


class Maybe(list):
    """One item or none."""

    def __init__(self, cond, item):
        list.__init__(self)
        self.cond, self.item = cond, item

    def __symlen__(self):
        from .sym import b2i
        return b2i(self.cond)

    def __bool__(self):
        return bool(self.cond)

    def __len__(self):
        return int(bool(self.cond))

    def __iter__(self):
        return iter([self.item] if bool(self.cond) else [])

    def __getitem__(self, i):
        return ([self.item] if bool(self.cond) else [])[i]

    def copy(self):
        return self

    def _no(self, *a, **k):
        raise Unsupported("this operation on a list of one item or none")
    __setitem__ = __delitem__ = pop = insert = remove = clear = sort = reverse = index = _no
    append = extend = __iadd__ = __contains__ = __mul__ = __add__ = __eq__ = __ne__ = __reversed__ = _no
    __hash__ = None


def local_holds(assumptions, goal):
    """goal follows from these assumptions alone (remembered: it then holds on every path that makes them)"""
    if not isinstance(goal, Sym):
        return bool(goal)
    c = sym.ctx()
    m = c.__dict__.setdefault("local_proofs", {})
    key = (goal.t.get_id(),) + tuple(t.get_id() for t in assumptions)
    if key not in m:
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*assumptions)
        s.add(z3.Not(goal.t))
        m[key] = s.check() == z3.unsat, goal, assumptions
    return m[key][0]


class OptList(GList):
    """Any number of options.  acts[a]: action a is among them; tk: one of them is taken, namely `ta`.
    The loop over it is cut at the invariant
       mask  = mask at entry, with cell a set to 1 for every option seen so far
       label = the taken option's action if it was seen, else as at entry;  taken likewise
    """

    def __init__(self, tag, acts, n, tk, ta, make, roles):
        GList.__init__(self, [Gap("options", n, None)])
        self.tag, self.acts, self.n, self.tk, self.ta, self.make, self.roles = tag, acts, n, tk, ta, make, roles

    def __symlen__(self):
        return self.n

    def copy(self):
        return OptList(self.tag, self.acts, self.n, self.tk, self.ta, self.make, self.roles)

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        raise Unsupported("random access to a list of arbitrary length")

    def __add__(self, o):
        raise Unsupported("option lists joined")
    __radd__ = __iadd__ = append = extend = __add__

    def __iter__(self):
        return self._opts()

    def _opts(self):
        c = sym.ctx()
        f, pos = loop_frame()
        R = self.roles.get(pos)
        if R is None:
            raise Unsupported("a loop over options that the sample runs did not reach")
        loc = get_locals(f)
        for n in loc:
            if n not in R:
                raise Unsupported(f"local {n!r} of a loop over options is unknown")
        entry = {n: (list(np.asarray(v.a).reshape(-1)) if R[n] == "mask" else v) for n, v in loc.items()}
        if c.choose(2) == 0:
            seen, a, stk, local = c.memo((self.tag, "option"), self._arbitrary)
            self._set(f, R, entry, seen, stk)
            x = self.make(a, And(self.tk, self.ta == a))
            before = {n: gsnap(v) for n, v in get_locals(f).items()}
            k = len(c.pc)
            yield x
            local = local + c.pc[k:]
            now = {b: Or(v, a == b) for b, v in seen.items()}
            ntk = And(self.tk, Or(*[And(now[b], self.ta == b) for b in self.acts]))
            loc1 = get_locals(f)
            ok = []
            for n, v in loc1.items():
                r = R.get(n, "temp")
                if r == "mask":
                    ok += [(f"{n}[{k}]", p == q) for k, (p, q) in enumerate(zip(np.asarray(v.a).reshape(-1), self._mask(entry[n], now)))]
                elif r == "label":
                    ok.append((n, as_num(v) == ite(ntk, self.ta, entry[n])))
                elif r == "taken":
                    ok.append((n, bterm_eq(v, Or(ntk, entry[n]))))
                elif r == "const" and not gsame(before[n], gsnap(v)):
                    raise Unsupported(f"the invariant of a loop over options misses local {n!r}")
            ok = [(d, q) for d, q in ok if q is not True]
            bad = []
            goal = And(*[q for _, q in ok])
            if not local_holds(local, goal) and not holds(goal):
                bad = [d for d, q in ok if not holds(q)]
            c.prove_inv("the loop over the options keeps its invariant: " + ", ".join(sorted(bad))[:200] if bad else
                        "the loop over the options keeps its invariant", not bad)
            raise PathEnd
        self._set(f, R, entry, self.acts, self.tk)

    def _arbitrary(self):
        """the options seen so far and the next one"""
        c = sym.ctx()
        seen = {a: c.int(f"{self.tag}seen{a}", 0, 1) == 1 for a in self.acts}
        a = c.int(f"{self.tag}option", min(self.acts), max(self.acts))
        stk = And(self.tk, Or(*[And(seen[b], self.ta == b) for b in self.acts]))
        k = len(c.pc)
        c.assume(And(*[Or(Not(seen[b]), v) for b, v in self.acts.items()]))
        c.assume(Or(*[And(a == b, v, Not(seen[b])) for b, v in self.acts.items()]))
        return seen, a, stk, c.pc[k:]

    def _mask(self, cells, seen):
        return [ite(seen[k], 1, v) if k in seen else v for k, v in enumerate(cells)]

    def _set(self, f, R, entry, seen, tk):
        upd = {}
        for n, v in get_locals(f).items():
            r = R[n]
            if r == "mask":
                fl = np.asarray(v.a).reshape(-1)
                new = self._mask(entry[n], seen)
                a = np.asarray(v.a)
                for k, idx in enumerate(np.ndindex(*a.shape)):
                    a[idx] = new[k]
            elif r == "label":
                upd[n] = ite(tk, self.ta, entry[n])
            elif r == "taken":
                upd[n] = Or(tk, entry[n])
            elif r == "temp":
                upd[n] = Poison(n)
        for n, r in R.items():
            if r == "temp" and n not in upd:
                upd[n] = Poison(n)
        set_locals(f, upd)


def bterm_eq(a, b):
    from .sym import Iff
    return Iff(a, b)
