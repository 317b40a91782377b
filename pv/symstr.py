"""Strings with symbolic parts.

* SymStr: an arbitrary string (z3 String), for file names and element tags.
* NumStr: concrete text with symbolic integers in it ("T" + number, "250,250,..."), for log attributes.
"""
import re as _re
import types

import z3

from . import sym
from .sym import Sym, SymInt, SymBool, Unsupported, mk_bool, mk_int

try:
    from re import _parser as _sre
except ImportError:
    import sre_parse as _sre


def sterm(x):
    if isinstance(x, SymStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


_NUM = z3.Function("number_of", z3.StringSort(), z3.IntSort())


def number_of(t):
    """The non-negative integer written by a string of digits (only used as: equal text, equal number)."""
    n = _NUM(t)
    sym.ctx().assume(mk_bool(n >= 0))
    return mk_int(n, 0, None)


class SymStr:
    """An arbitrary string.  Comparison with constants forks; hashing forks over `consts`."""
    consts = ()

    def __init__(self, t, base=None, consts=()):
        self.t, self.base, self.consts = t, base, consts

    def __eq__(self, o):
        u = sterm(o)
        if u is None:
            return False
        return mk_bool(self.t == u)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        for c in self.consts:
            if bool(self == c):
                return hash(c)
        return hash("\0some other string")

    def __bool__(self):
        return bool(mk_bool(z3.Length(self.t) > 0))

    def startswith(self, p):
        if isinstance(p, tuple):
            return sym.Or(*[self.startswith(q) for q in p])
        return mk_bool(z3.PrefixOf(sterm(p), self.t))

    def endswith(self, p):
        if isinstance(p, tuple):
            return sym.Or(*[self.endswith(q) for q in p])
        return mk_bool(z3.SuffixOf(sterm(p), self.t))

    def __contains__(self, p):
        return bool(mk_bool(z3.Contains(self.t, sterm(p))))

    def __add__(self, o):
        return SymStr(z3.Concat(self.t, sterm(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(sterm(o), self.t))

    def __len__(self):
        raise Unsupported("length of a symbolic string")

    def __symlen__(self):
        return mk_int(z3.Length(self.t), 0, None)

    def __getitem__(self, i):
        n = z3.Length(self.t)
        if isinstance(i, slice) and i.step in (None, 1):
            def pos(v, d):
                if v is None:
                    return d
                if isinstance(v, SymInt):
                    raise Unsupported("symbolic slice of a symbolic string")
                return z3.IntVal(v) if v >= 0 else n + v
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return SymStr(z3.SubString(self.t, a, b - a))
        if isinstance(i, int):
            p = z3.IntVal(i) if i >= 0 else n + i
            if not bool(mk_bool(z3.And(p >= 0, p < n))):
                raise IndexError("string index out of range")
            return SymStr(z3.SubString(self.t, p, 1))
        raise Unsupported("index of a symbolic string")

    def isdigit(self):
        return mk_bool(z3.InRe(self.t, z3.Plus(z3.Range("0", "9"))))
    isdecimal = isnumeric = isdigit

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and bool(self.endswith(p)) else self

    def __symint__(self):
        if not bool(self.isdigit()):
            raise ValueError("invalid literal for int()")
        return number_of(self.t)

    def __str__(self):
        raise Unsupported("text of a symbolic string")
    __format__ = __str__

    def __repr__(self):
        return "<?str>"

    def __fspath__(self):
        raise Unsupported("symbolic path given to the operating system")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("str." + a + " of a symbolic string")


# ------------------------------------------------------------------ regular expressions
def _charset(items):
    rs = []
    neg = False
    for op, av in items:
        op = str(op)
        if op == "NEGATE":
            neg = True
        elif op == "LITERAL":
            rs.append(z3.Re(chr(av)))
        elif op == "RANGE":
            rs.append(z3.Range(chr(av[0]), chr(av[1])))
        elif op == "CATEGORY":
            c = str(av)
            if c == "CATEGORY_DIGIT":
                rs.append(z3.Range("0", "9"))
            elif c == "CATEGORY_WORD":
                rs += [z3.Range("0", "9"), z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")]
            else:
                raise Unsupported("regular expression category " + c)
        else:
            raise Unsupported("regular expression item " + op)
    r = rs[0] if len(rs) == 1 else z3.Union(*rs)
    if neg:
        return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r))
    return r


_EMPTY = lambda: z3.Re("")


def _seq(parsed):
    parts = [_node(op, av) for op, av in parsed]
    if not parts:
        return _EMPTY()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _node(op, av):
    op = str(op)
    if op == "LITERAL":
        return z3.Re(chr(av))
    if op == "ANY":
        return z3.AllChar(z3.ReSort(z3.StringSort()))
    if op == "IN":
        return _charset(av)
    if op in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        r = _seq(sub)
        if str(hi) == "MAXREPEAT":
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Loop(r, lo, hi)
    if op == "SUBPATTERN":
        return _seq(av[3])
    if op == "BRANCH":
        rs = [_seq(s) for s in av[1]]
        return z3.Union(*rs) if len(rs) > 1 else rs[0]
    raise Unsupported("regular expression construct " + op)


class Pattern:
    def __init__(self, text, flags=0):
        if flags:
            raise Unsupported("regular expression flags")
        self.pattern = text
        p = list(_sre.parse(text))
        self.begin = self.end = False
        while p and str(p[0][0]) == "AT" and str(p[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            p.pop(0)
            self.begin = True
        while p and str(p[-1][0]) == "AT" and str(p[-1][1]) in ("AT_END", "AT_END_STRING"):
            p.pop()
            self.end = True          # a trailing newline in a file name is outside the precondition
        self.items = p
        self.names = {k: v for k, v in _sre.parse(text).state.groupdict.items()}

    def lang(self):
        return _seq(self.items)

    def _match(self, s, kind):
        full = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
        pre = _EMPTY() if (kind in ("match", "fullmatch") or self.begin) else full
        post = _EMPTY() if (kind == "fullmatch" or self.end) else full
        if not isinstance(s, SymStr):
            if isinstance(s, str):
                return getattr(_re, kind)(self.pattern, s)
            raise TypeError("expected string or bytes-like object")
        if not bool(mk_bool(z3.InRe(s.t, z3.Concat(pre, self.lang(), post)))):
            return None
        return Match(self, s, pre, post)

    def match(self, s): return self._match(s, "match")
    def fullmatch(self, s): return self._match(s, "fullmatch")
    def search(self, s): return self._match(s, "search")


class Match:
    def __init__(self, pat, s, pre, post):
        self.pat, self.s, self.pre, self.post = pat, s, pre, post
        self.cache = {}

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) > 1:
            return tuple(self.group(k) for k in ks)
        k = self.pat.names.get(ks[0], ks[0])
        if k in self.cache:
            return self.cache[k]
        its = self.pat.items
        c = sym.ctx()
        n = len(c.tags.setdefault("strs", []))
        c.tags["strs"].append(None)
        a, g, b = (z3.String(f"re{n}_{x}") for x in "agb")
        if k == 0:
            A, G, B = self.pre, self.pat.lang(), self.post
        else:
            idx = [i for i, (op, av) in enumerate(its) if str(op) == "SUBPATTERN" and av[0] == k]
            if len(idx) != 1:
                raise Unsupported("nested or missing group in a regular expression")
            i = idx[0]
            A = z3.Concat(self.pre, _seq(its[:i]))
            G = _seq(its[i][1][3])
            B = z3.Concat(_seq(its[i + 1:]), self.post)
        # any decomposition (an over-approximation of the leftmost greedy one)
        c.assume(mk_bool(z3.And(self.s.t == z3.Concat(a, g, b), z3.InRe(a, A), z3.InRe(g, G), z3.InRe(b, B))))
        r = SymStr(g)
        self.cache[k] = r
        return r

    __getitem__ = group

    def groups(self):
        n = sum(1 for op, av in self.pat.items if str(op) == "SUBPATTERN" and av[0] is not None)
        return tuple(self.group(i + 1) for i in range(n))

    def __bool__(self):
        return True

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("match." + a)


def re_module():
    m = types.ModuleType("re")
    m.__getattr__ = lambda n: getattr(_re, n)
    m.compile = lambda p, flags=0: p if isinstance(p, Pattern) else Pattern(p, flags)
    for k in ("match", "fullmatch", "search"):
        setattr(m, k, (lambda k: lambda p, s, flags=0: getattr(m.compile(p, flags), k)(s))(k))

    def bad(n):
        def f(p, s, *a, **kw):
            if any(isinstance(x, SymStr) for x in (p, s)):
                raise Unsupported("re." + n)
            return getattr(_re, n)(p, s, *a, **kw)
        return f
    for k in ("findall", "finditer", "split", "sub", "subn"):
        setattr(m, k, bad(k))
    return m


def glob_lang(pattern):
    """language of a glob pattern without directory part"""
    out = []
    for ch in pattern:
        if ch == "*":
            out.append(z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(z3.Re("/")))))
        elif ch == "?":
            out.append(z3.AllChar(z3.ReSort(z3.StringSort())))
        elif ch == "[":
            raise Unsupported("character set in a glob pattern")
        else:
            out.append(z3.Re(ch))
    return z3.Concat(*out) if len(out) > 1 else (out[0] if out else _EMPTY())


# ------------------------------------------------------------------ text with numbers in it
class NumStr:
    """A string given as a list of pieces: str or SymInt (decimal text of that integer)."""

    def __init__(self, *parts):
        self.parts = []
        for p in parts:
            if isinstance(p, int) and not isinstance(p, bool):
                p = str(p)
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != "" or isinstance(p, Sym):
                self.parts.append(p)

    @staticmethod
    def make(*parts):
        r = NumStr(*parts)
        if not r.parts:
            return ""
        if len(r.parts) == 1 and isinstance(r.parts[0], str):
            return r.parts[0]
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1:
            raise Unsupported("split of symbolic text")
        out, cur = [], []
        for p in self.parts:
            if isinstance(p, str):
                xs = p.split(sep)
                cur.append(xs[0])
                for x in xs[1:]:
                    out.append(NumStr.make(*cur))
                    cur = [x]
            else:
                cur.append(p)
        out.append(NumStr.make(*cur))
        return out

    def __symint__(self):
        if len(self.parts) == 1:
            return self.parts[0]
        if all(isinstance(p, str) and p.strip() == "" for p in self.parts if not isinstance(p, Sym)):
            ps = [p for p in self.parts if isinstance(p, Sym)]
            if len(ps) == 1:
                return ps[0]
        raise ValueError("invalid literal for int()")

    def strip(self):
        return self

    def __getitem__(self, i):
        h = self.parts[0]
        if isinstance(h, str):
            if isinstance(i, int) and 0 <= i < len(h):
                return h[i]
            if isinstance(i, slice) and i.step is None:
                a, b = i.start or 0, i.stop
                if 0 <= a <= len(h) and b is None:
                    return NumStr.make(h[a:], *self.parts[1:])
                if 0 <= a and b is not None and 0 <= b <= len(h):
                    return h[a:b]
        raise Unsupported("index into the digits of a symbolic number")

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        h = self.parts[0]
        if isinstance(h, str):
            if len(p) <= len(h):
                return h.startswith(p)
            if not p.startswith(h):
                return False
            if not (p[len(h)].isdigit() or p[len(h)] == "-"):
                return False
        raise Unsupported("startswith on the digits of a symbolic number")

    def __eq__(self, o):
        if isinstance(o, NumStr):
            if len(o.parts) != len(self.parts):
                return False
            return sym.And(*[a == b for a, b in zip(self.parts, o.parts)])
        if isinstance(o, str):
            if len(self.parts) == 1:
                if _re.fullmatch(r"0|-?[1-9]\d*", o):
                    return self.parts[0] == int(o)
                return False
            if len(self.parts) == 2 and isinstance(self.parts[0], str):
                h = self.parts[0]
                if o.startswith(h) and _re.fullmatch(r"0|-?[1-9]\d*", o[len(h):]):
                    return self.parts[1] == int(o[len(h):])
                return False
            raise Unsupported("comparison of symbolic text")
        return False

    def __ne__(self, o):
        return sym.Not(self.__eq__(o))

    def __hash__(self):
        return hash("\0text with a symbolic number")

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported("length of symbolic text")

    def __repr__(self):
        return "<?text>"

    def __format__(self, s):
        return "<?text>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("str." + a + " of symbolic text")
