"""C06-C12, C14 inside process(): the loop over the events of a round, cut at its invariant.

Ghost state of a round (what a legal log means, the same definitions as gamelog.Tracker):
  loc[t]      where each of the 136 tiles is: 0..3 concealed with a player, 4..7 in that player's melds,
              8 face up (rivers, indicators), 9 in the wall
  rivers, scores, sticks, riichi / double riichi / ippatsu / closed-hand flags, draws, calls, phase of the turn
Every local of process() that carries state from one event to the next has a role: a function of the ghost
state.  The obligations: the roles hold before the first event; and for every kind of event, from an arbitrary
state allowed by the rules, the code leaves the roles equal to their functions of the new ghost state and
records exactly the point(s), token(s), options and marks the property asks for.
Which local has which role is found on sample logs (pv.cut.infer); the obligations decide whether it is right.
"""
import random

from pv.ops import *
from specs import gamelog as GL

PX = "MahjongAI.process_xml"
DRAW = "MahjongAI.draw"
DEC = "MahjongAI.decision"
TURN = "MahjongAI.turn"
STATE = "MahjongAI.state"
GI = "MahjongAI.gameinfo"
CONST = "MahjongAI.utils.constants"

WALL, OUT, MELD = 9, 8, 4
REDS = (16, 52, 88)


# --------------------------------------------------------------------------- sample logs
class FakeRules:
    """Sample logs only have to be structurally legal; nobody ever wins in them."""

    def __init__(self, rng):
        self.rng = rng

    def shanten(self, h):
        return 0 if sum(h) % 3 == 1 else self.rng.choice([0, 3])

    def tsumo(self, *a):
        return False

    def ron(self, *a):
        return set()


class SampleRound(GL.Round):
    def put(self, tag, **a):
        GL.Round.put(self, tag, **a)
        g = self.g
        if tag[0] in "TUVW" and tag[1:].isdigit():
            self.phase, self.turn, self.actor = "drawn", int(tag[1:]), "TUVW".index(tag[0])
        elif tag[0] in "DEFG" and tag[1:].isdigit():
            self.phase, self.turn = "post", None
        elif tag == "REACH":
            self.pending = a["who"] if str(a["step"]) == "1" else None
        elif tag == "N":
            m = g.melds[a["who"]][-1]
            self.actor = a["who"]
            if m["kind"] in ("chi", "pon"):
                self.phase, self.turn = "called", m["called"]
            else:
                self.phase, self.turn = "kan", None
        self.snaps.append(self.ghost())

    snaps = None
    pending = None

    def play(self):
        self.phase, self.turn, self.actor = "start", None, None
        self.snaps = [self.ghost()]
        GL.Round.play(self)

    def ghost(self):
        g = self.g
        n = [None] * 4
        return {"hands": [[int(g.loc[t] == p) for t in range(136)] for p in range(4)],
                "conc": [GL.counts(g.conc(p)) for p in range(4)], "full": [GL.counts(g.full(p)) for p in range(4)],
                "wall": GL.counts([t for t in range(136) if g.loc[t] == WALL]), "pov": [g.unseen(p) for p in range(4)],
                "river": [list(r) for r in g.river], "scores": list(g.scores), "kyotaku": g.kyotaku, "doras": list(g.doras),
                "dreach": list(g.dreach), "reach": list(g.reach), "ippatsu": list(g.ippatsu), "closed": list(g.closed),
                "ippatsu_early": [int(g.ippatsu[p] or self.pending == p) for p in range(4)],
                "left": 70 - g.draws, "draws": g.draws, "after_kan": g.after_kan, "turn_tile": self.turn,
                "drawn_tile": self.turn if self.phase == "drawn" else None, "phase": self.phase, "actor": self.actor, "calls": g.calls,
                "melds": [[m["code"] for m in ms] for ms in g.melds], "points": [e["type"] for e in g.points],
                "tokens": len(g.tokens)}


def sample_rounds(n=14, seed=5):
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        r = SampleRound(rng, 0xA9, rng.randrange(8), FakeRules(rng), rng.choice([8, 20, 40]))
        out.append(r)
    return out


FUNCTIONAL = ["hands", "conc", "full", "wall", "pov", "river", "scores", "kyotaku", "doras", "reach", "dreach", "ippatsu",
              "ippatsu_early", "closed", "left", "draws", "after_kan", "turn_tile", "drawn_tile"]
TILE_ROLES = ["hands", "conc", "full", "wall", "pov", "river"]
BOOK_ROLES = ["scores", "kyotaku", "doras", "reach", "dreach", "ippatsu", "ippatsu_early", "closed", "melds"]
_cache = {}


def plain(v):
    """containers of numbers -> nested lists, anything else -> None"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


class Roles:
    """local -> role, containers shared with recorded states"""

    def __init__(self):
        self.role = {}          # local -> role name
        self.kept = set()       # locals that never change inside the loop
        self.proto = {}         # local -> a sample value (container shape)
        self.shared = set()     # roles whose container a recorded state may share
        self.fields = {}        # state field -> role shared
        self.outer = set()      # locals that recorded states may share as a whole (else only what is inside them)
        self.dealt = set()      # kept locals that depend on the tiles dealt


def containers(v, depth=3):
    import numpy as np
    if isinstance(v, (list, np.ndarray)):
        out = [v]
        if isinstance(v, list) and depth and not hasattr(v, "__symlen__"):
            for x in v:
                out += containers(x, depth - 1)
        return out
    return []


def overlap(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.shares_memory(a, b)
    return a is b


def find_roles(ctx):
    """Run the code on sample logs and match its locals to roles."""
    from pv import cut, sym
    import hashlib
    px = ctx.mod(PX)
    if ctx.env in _cache:
        return _cache[ctx.env]
    key = hashlib.sha256("".join(v for k, v in sorted(ctx.env.sources.items())).encode()).hexdigest()
    if key in _cache:
        _cache[ctx.env] = _cache[key]
        return _cache[key]
    rounds = sample_rounds()
    names, runs = None, []

    class Tags:
        def __init__(self):
            self.tags = {"estimate_hand_value": lambda *a, **k: type("R", (), {"error": "no yaku"})(),
                         "calculate_shanten": lambda *a, **k: 0, "string_to_136_array": to_136}

        def __getattr__(self, a):
            raise Unsupported("symbolic operation on a sample log")
    keep = sym.ctx()
    R = Roles()
    heads = []              # (locals shallow, ghost, state containers)
    sym.set_ctx(Tags())
    try:
        for r in rounds:
            first = []

            def head(frame, k, r=r):
                loc = cut.get_locals(frame)
                g = r.snaps[k]
                h = {n: freeze(v) for n, v in loc.items()}
                pts = next((v for n, v in loc.items() if isinstance(v, list) and v and is_turn(v[-1])), [])
                obj = {n: ("turnstate", describe(v)) for n, v in loc.items() if type(v).__name__ == "StateObject"}
                cur = {n: (None if v is None else next((i for i, p in enumerate(pts) if p is v), -1)) for n, v in loc.items()
                       if v is None or is_turn(v)}
                states = [p.stateObj for p in pts] + [v for v in loc.values() if type(v).__name__ == "StateObject"]
                if k == 0:
                    first.append({n: v for n, v in loc.items()})
                same0 = {n for n, v in loc.items() if n in first[0] and v is first[0][n]}
                heads.append({"k": k, "loc": h, "g": g, "obj": obj, "cur": cur, "npts": len(pts), "same0": same0,
                              "ids": {n: v for n, v in loc.items() if isinstance(v, list)},
                              "share": shares(loc, states)})
                if k + 1 < len(r.xml):
                    seq.position = k
                    return {"event": r.xml[k + 1][0], "attr": {a: str(b) for a, b in r.xml[k + 1][1].items()}}
                raise Unsupported("sample log not ended by its result")
            seq = cut.GhostSeq(head)
            xml = r.xml
            ev = Events({"event": "INIT", "attr": xml[0][1]}, seq, [{"event": "RYUUKYOKU", "attr": {"sc": "0,0,0,0,0,0,0,0"}}])
            ctx.patch(px, "_get_rounds", lambda path, ev=ev: (px.GameInfo(0xA9), [ev]))
            px.process("sample.xml")
        # the same round start with other tiles: which locals depend on the deal
        starts = []
        for mul, add in ((1, 0), (37, 11)):
            deal = lambda t: str((int(t) * mul + add) % 136)
            at = dict(rounds[0].xml[0][1])
            seed = at["seed"].split(",")
            at["seed"] = ",".join(seed[:5] + [deal(seed[5])])
            for q in range(4):
                at[f"hai{q}"] = ",".join(map(deal, at[f"hai{q}"].split(",")))

            def first_head(frame, k):
                starts.append({n: freeze(v) for n, v in cut.get_locals(frame).items()})
                raise EndOfSample
            ev = Events({"event": "INIT", "attr": at}, cut.GhostSeq(first_head), [])
            ctx.patch(px, "_get_rounds", lambda path, ev=ev: (px.GameInfo(0xA9), [ev]))
            try:
                px.process("sample.xml")
            except EndOfSample:
                pass
    finally:
        sym.set_ctx(keep)
    # ---- match
    names = set()
    for h in heads:
        names |= set(h["loc"])
    seen = {}
    for n in sorted(names):
        hs = [h for h in heads if n in h["loc"]]
        everywhere = len(hs) == len(heads)
        role = None
        if everywhere:
            for r in FUNCTIONAL:
                if all(eq(h["loc"][n], h["g"][r]) for h in hs):
                    role = r
                    break
            if role is None and all(is_melds(h["loc"][n], h["g"]["melds"]) for h in hs):
                role = "melds"
            if role is None and all(is_points(h["loc"][n], h["g"]["points"]) for h in hs):
                role = "points"
            if role is None and all(is_tokens(h["loc"][n], h["g"]["tokens"]) for h in hs):
                role = "tokens"
            if role is None and all(n in h["cur"] and h["cur"][n] == (h["npts"] - 1 if h["g"]["phase"] in ("drawn", "post") else None) for h in hs):
                role = "curr"
            if role is None and all(isinstance(h["loc"][n], int) and first_go(h["loc"][n], h["g"]) for h in hs):
                role = "first_go"
        if role is None:
            hp = [h for h in heads if h["g"]["phase"] in ("drawn", "called")]
            if all(n in h["obj"] and h["obj"][n][1] == (h["g"]["actor"], 70 - h["g"]["draws"]) for h in hp):
                role = "turnstate"
        varies = role is not None and (role in ("points", "tokens", "melds", "curr", "turnstate", "first_go") or
                                       any(h["g"][role] != heads[0]["g"][role] for h in heads if h["k"] >= 0))
        if everywhere and all(n in h["same0"] for h in hs) and role not in ("points", "tokens", "melds") and role not in TILE_ROLES:
            # never rebound on any sample: part of the frame, if its contents do not change either
            runs_ = {}
            start = None
            ok = True
            for h in heads:
                if h["k"] == 0:
                    start = h["loc"][n]
                ok = ok and eq(h["loc"][n], start)
            if ok:
                R.kept.add(n)
                continue
        if role is not None:
            R.role[n] = role
    for n in R.kept:
        a, b = starts[0].get(n), starts[1].get(n)
        if not (opaque(a) and opaque(b)) and not eq(a, b):
            R.dealt.add(n)
    for h in heads:
        R.outer |= h["share"].pop(OUTER, set())
        for n, fs in h["share"].items():
            r = R.role.get(n) or ("kept:" + n if n in R.kept else None)
            if r:
                R.shared.add(r)
                for f in fs:
                    R.fields.setdefault(f, set()).add(n)
    _cache[key] = _cache[ctx.env] = R
    return R


class EndOfSample(BaseException):
    pass


def opaque(v):
    return isinstance(v, tuple) and v and v[0] == "obj"


def first_go(v, g):
    return v == g["draws"] if g["calls"] == 0 else v >= 5


def describe(s):
    try:
        return (int(s.player), int(s.remaining_tsumo))
    except Exception:
        return None


def is_turn(v):
    return type(v).__name__ in ("DuringTurn", "DiscardTurn", "PostTurn")


def freeze(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return ("nd",) + (v.tolist(),)
    if isinstance(v, list):
        if v and all(is_turn(x) for x in v):
            return ("turns", [{0: "during", 1: "discard", 2: "post"}.get(x.type_) for x in v])
        return [freeze(x) for x in v]
    if type(v).__name__ == "Naki":
        return ("naki", v.naki_code)
    if isinstance(v, (int, float, str)) or v is None:
        return v
    return ("obj", type(v).__name__)


def eq(a, b):
    if isinstance(a, tuple) and a and a[0] == "nd":
        a = a[1]
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, tuple) and b and b[0] == "nd":
        return eq(a, b[1])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return a == b
    if a is None or b is None:
        return a is b
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b or (type(a) is type(b) and a == b)


def is_melds(v, codes):
    if not (isinstance(v, list) and len(v) == 4):
        return False
    return all(isinstance(m, list) and [x[1] if isinstance(x, tuple) and x[0] == "naki" else None for x in m] == c for m, c in zip(v, codes))


def is_points(v, pts):
    return v == [] and not pts or isinstance(v, tuple) and v[0] == "turns" and v[1] == pts


def is_tokens(v, n):
    return isinstance(v, list) and len(v) == n and all(isinstance(x, int) for x in v)


OUTER = "(shared as a whole)"


def shares(loc, states):
    """locals whose containers are reachable from a recorded state -> the fields"""
    out = {}
    sc = []
    for s in states[-3:]:
        for f, v in vars(s).items():
            sc += [(f, c) for c in containers(v)]
    for n, v in loc.items():
        if type(v).__name__ == "StateObject":
            continue
        for c in containers(v):
            for f, d in sc:
                if overlap(c, d):
                    out.setdefault(n, set()).add(f)
                    if c is v:
                        out.setdefault(OUTER, set()).add(n)
    return out


def to_136(man="", pin="", sou="", honors="", has_aka_dora=False):
    out = []
    for base, s in ((0, man), (9, pin), (18, sou), (27, honors)):
        cnt = {}
        for ch in s:
            n = int(ch) if ch.isdigit() else 5
            if n == 0 and base < 27:
                out.append((base + 4) * 4)
                continue
            k = base + n - 1
            i = cnt.get(k, 1 if base < 27 and n == 5 and has_aka_dora else 0)
            out.append(4 * k + i)
            cnt[k] = i + 1
    return sorted(out)


class Events:
    """The events of a round: INIT, an arbitrary sequence, the results."""

    def __init__(self, init, seq, results):
        self.init, self.seq, self.results = init, seq, results

    def __getitem__(self, i):
        if isinstance(i, slice) and i.stop is None and i.step is None:
            if i.start == 1 and not isinstance(i.start, Sym):
                return self.seq
            pos = getattr(self.seq, "position", None)
            if i.start is not None and pos is not None and bool(i.start == pos + 1):
                return self.results
            raise Unsupported("another part of the events of a round")
        if isinstance(i, int) and i == 0:
            return self.init
        raise Unsupported("random access to the events of a round")


# --------------------------------------------------------------------------- ghost state
_T = {}


def terms():
    """z3 terms shared by all paths: locations, river flags, and the counts that are functions of them."""
    if _T:
        return _T
    import z3
    from pv.sym import SymInt
    _T["loc"] = [SymInt(z3.Int(f"loc{t}"), 0, 9) for t in range(136)]
    _T["river"] = [[SymInt(z3.Int(f"river{p}_{k}"), 0, 1) for k in range(37)] for p in range(4)]
    _T["count"] = {(n, p, k): SymInt(z3.Int(f"{n}{'' if p is None else p}_{k}"), 0, 4 if k < 34 else 1) for k in range(37)
                   for n, ps in (("conc", range(4)), ("full", range(4)), ("pov", range(4)), ("wall", (None,))) for p in ps}
    _T["range"] = z3.And(*[z3.And(x.t >= 0, x.t <= x.hi) for x in _T["count"].values()],
                         *[z3.And(x.t >= 0, x.t <= 1) for r in _T["river"] for x in r])
    _T["rows"] = [[b2i(_T["loc"][t] == p) for t in range(136)] for p in range(4)]
    return _T


def where_is(kind, p, x):
    """does a tile at location x count for this role"""
    if kind == "conc":
        return x == p
    if kind == "full":
        return Or(x == p, x == MELD + p)
    if kind == "wall":
        return x == WALL
    if kind == "pov":
        return Or(x == WALL, And(x < 4, x != p))
    raise KeyError(kind)


def tiles_of(k):
    return range(4 * k, 4 * k + 4) if k < 34 else (REDS[k - 34],)


def has(tile, k):
    """the tile counts in cell k: its kind, and for a red five also the red cell"""
    if k >= 34:
        return tile == REDS[k - 34]
    return And(tile >= 4 * k, tile <= 4 * k + 3)


def recount(loc, kind, p, k):
    return Sum(b2i(where_is(kind, p, loc[t])) for t in tiles_of(k))


class Ghost:
    """One state of the round; `values` gives what each role must be in it."""

    def __init__(self):
        pass

    def copy(self):
        g = Ghost()
        g.__dict__.update(self.__dict__)
        for n in ("scores", "reach", "dreach", "ippatsu", "closed", "melds"):
            setattr(g, n, list(getattr(self, n)))
        g.river = [list(r) for r in self.river]
        g.rows = [list(r) for r in self.rows]
        g.cells = dict(self.cells)
        return g

    def move(self, tile, src, dst):
        """one tile goes from one place to another (lemma `proc.moves`: this is what it does to the counts)"""
        for (n, p, k), c in self.cells.items():
            w = int(where_is(n, p, dst)) - int(where_is(n, p, src))
            if w:
                self.cells[(n, p, k)] = c + w * b2i(has(tile, k))
        for p in range(4):
            if src == p or dst == p:
                for t in range(136):
                    self.rows[p][t] = ite(tile == t, int(dst == p), self.rows[p][t])

    def count(self, n, p, k):
        return self.cells[(n, p, k)]

    def counts(self, n, p=None):
        return [self.cells[(n, p, k)] for k in range(37)]

    def at(self, tile):
        if not isinstance(tile, Sym):
            return self.loc[tile]
        r = self.loc[tile.hi]
        for j in range(tile.hi - 1, tile.lo - 1, -1):
            r = ite(tile == j, self.loc[j], r)
        return r

    def thrown(self, p, tile):
        """p's river gets this tile's kind"""
        for k in range(37):
            self.river[p][k] = ite(has(tile, k), 1, self.river[p][k])

    def value(self, role):
        g = self
        if role in ("conc", "full", "pov"):
            return [g.counts(role, p) for p in range(4)]
        if role == "wall":
            return g.counts("wall")
        if role == "hands":
            return g.rows
        if role == "river":
            return g.river
        if role == "left":
            return 70 - g.draws
        if role == "draws":
            return g.draws
        if role == "ippatsu_early":
            return [1 if g.pending == p else g.ippatsu[p] for p in range(4)]
        if role == "turn_tile":
            return g.turn if g.phase in ("drawn", "called") else None
        if role == "drawn_tile":
            return g.turn if g.phase == "drawn" else None
        if role == "after_kan":
            return g.phase == "kan"
        if role in ("scores", "reach", "dreach", "ippatsu", "closed", "kyotaku", "doras", "melds"):
            return getattr(g, role)
        raise KeyError(role)


def shape_like(proto, val):
    import numpy as np
    from pv import npshim
    if isinstance(proto, np.ndarray):
        return npshim.sarr(val)
    if isinstance(proto, list) and isinstance(val, list) and not hasattr(val, "__symlen__"):
        if len(proto) == len(val):
            return [shape_like(p, v) for p, v in zip(proto, val)]
        return list(val)
    return val


def flat(v):
    """nested lists / arrays -> (shape, cells)"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.shape, list(v.reshape(-1))
    if isinstance(v, (list, tuple)) and not hasattr(v, "__symlen__"):
        parts = [flat(x) for x in v]
        if parts and all(p[0] == parts[0][0] for p in parts):
            return (len(v),) + parts[0][0], [c for p in parts for c in p[1]]
        return (len(v), "ragged"), [c for p in parts for c in p[1]]
    return (), [v]


def cell_eq(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if hasattr(a, "__symlen__") or hasattr(b, "__symlen__"):
        return same_list(a, b)
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)) or (hasattr(a, "item") or hasattr(b, "item")):
        return a == b
    return a == b if type(a) is type(b) else False


def same_list(a, b):
    """a, b: lists known up to an arbitrary earlier part"""
    if not (hasattr(a, "__symlen__") and hasattr(b, "__symlen__")):
        return False
    if a.state() != b.state() or len(a.tail) != len(b.tail):
        return False
    return And(*[cell_eq(x, y) for x, y in zip(a.tail, b.tail)])


def equal_pairs(name, got, exp):
    (s1, c1), (s2, c2) = flat(got), flat(exp)
    if s1 != s2:
        return [(f"{name}: shape {s1} instead of {s2}", False)]
    return [(f"{name}[{i}]", cell_eq(a, b)) for i, (a, b) in enumerate(zip(c1, c2)) if a is not b]


class Cfg:
    """What one property asks of every event: roles that must be kept, fields of recorded states, further groups."""

    def __init__(self, roles="", fields="", groups=""):
        self.roles, self.fields, self.groups = set(roles.split()), fields.split(), set(groups.split())

    def without(self, roles):
        """the obligations about the locals only (for events that record nothing)"""
        return self


CFG = {
    "C06": Cfg("conc", groups="calls"),
    "C07": Cfg("conc hands closed reach melds", groups="options"),
    "C08": Cfg("curr", groups="marks"),
    "C09": Cfg(groups="snap"),
    "C10": Cfg("hands conc pov wall river", "hand_tensor remaining_tiles_pov sutehai_tensors player"),
    "C11": Cfg("scores kyotaku doras reach dreach ippatsu ippatsu_early closed melds first_go draws left",
               "is_menzen double_reaches reaches ippatsu melds scores kyotaku honba dora parent_tensor rounds_remaining "
               "parent_rounds_remaining"),
    "C12": Cfg("left draws turn_tile drawn_tile curr", "remaining_turns remaining_tsumo", groups="seq"),
    "C14": Cfg("full melds doras reach dreach ippatsu ippatsu_early closed river left draws after_kan first_go", groups="wins"),
}


class Harness:
    """Runs process() up to the head of the event loop, replaces the state by an arbitrary one, delivers one
    event and compares."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg, self.groups = ctx, cfg, cfg.groups
        self.px, self.dec, self.turnm = ctx.mod(PX), ctx.mod(DEC), ctx.mod(TURN)
        self.NakiReal = ctx.mod(DRAW).Naki
        self.R = find_roles(ctx)
        self.finished = False

    # ---- contracts of callees
    def install(self):
        ctx, px = self.ctx, self.px
        H = self
        H.ron_calls, H.tsumo_calls, H.mask_calls, H.shanten_calls, H.where_calls = [], [], [], [], []
        import inspect
        ron_sig, tsu_sig = inspect.signature(px.evaluate_ron), inspect.signature(px.evaluate_tsumo)
        mask_sig = inspect.signature(px.decision_mask)
        Agari = H.dec.AgariDecision
        wins = "wins" in H.groups

        def ron(*a, **k):
            b = ron_sig.bind(*a, **k)
            b.apply_defaults()
            H.ron_calls.append(H.capture(b.arguments))
            p0 = b.arguments["player"]
            out = [None] * 4
            n = 0
            others = [p for p in range(4) if p != p0]
            if wins:
                bits = [bool(ctx.bool(f"ron{p}")) for p in others]
            else:
                bits = [bool(ctx.bool("rons"))] * 3
            for p, b_ in zip(others, bits):
                if b_:
                    out[p] = Agari(p, False)
            H.rons = out
            return out

        def tsumo(*a, **k):
            b = tsu_sig.bind(*a, **k)
            b.apply_defaults()
            H.tsumo_calls.append(H.capture(b.arguments))
            from pv import focus
            if not wins:
                H.tsumos = focus.AnyList("tsumo", ctx.int("ntsumo", 0, 1))
            else:
                H.tsumos = [Agari(b.arguments["player"], False)] if bool(ctx.bool("tsumo")) else []
            return H.tsumos

        def mask(*a, **k):
            b = mask_sig.bind(*a, **k)
            b.apply_defaults()
            H.mask_calls.append(H.capture(b.arguments))
            from pv import focus
            H.masks = [[] if p == b.arguments["player"] else focus.AnyList(("mask", p), ctx.int(f"nmask{p}", 0, None)) for p in range(4)]
            return H.masks

        def shanten(tiles, *a, **k):
            if a or k:
                raise Unsupported("shanten call form")
            s = ctx.int(f"shanten{len(H.shanten_calls)}", -1, 6)
            H.shanten_calls.append((flat(tiles), s))
            return s
        ctx.patch(px, "evaluate_ron", ron)
        ctx.patch(px, "evaluate_tsumo", tsumo)
        ctx.patch(px, "decision_mask", mask)
        ctx.tags["calculate_shanten"] = shanten
        ctx.tags["where"] = self.where_hook
        H.naki_of = {}
        Real = self.NakiReal

        class Naki(Real):
            def __new__(cls, code, *a, **k):
                for c, obj in H.naki_of.values():
                    if code is c:
                        return obj
                return object.__new__(cls)

            def __init__(self, code, clean=True):
                if any(self is o for _, o in H.naki_of.values()):
                    return
                Real.__init__(self, code, clean)
        Naki.__module__ = Real.__module__
        H.Naki = Naki
        ctx.patch(px, "Naki", Naki)

    def capture(self, args):
        """arguments as they are at the time of the call"""
        return {n: (flat(v) if n in ("hand_tensors_full", "sutehai_tensor", "reaches", "ippatsu", "double_reaches", "is_renhou",
                                      "hand_tensors") else [m.copy() if hasattr(m, "copy") else m for m in v] if n == "naki_list"
                    else v.copy() if hasattr(v, "copy") and hasattr(v, "__symlen__") else v) for n, v in args.items()}

    # ---- running
    def run(self, kind):
        """kind: 'step' | 'base' | 'outer'"""
        from pv import cut
        ctx, px = self.ctx, self.px
        self.install()
        go = ctx.int("go", 0, 1023)
        for b, v in ((0, 1), (1, 0), (2, 0), (4, 0)):
            ctx.assume((go // (1 << b)) % 2 == v)
        self.n_rounds = ite((go // 8) % 2 == 1, 8, 4)
        r = self.round = ctx.int("round", 0, 7)
        ctx.assume(r < self.n_rounds)
        self.honba = ctx.int("honba", 0, None)
        self.kyo0 = ctx.int("kyotaku0", 0, None)
        self.scores0 = [ctx.int(f"start{p}", None, None) for p in range(4)]
        self.oya = r % 4
        hais = self.deal()
        self.init_doras = [self.dora0]
        S = self.NumStr

        def text(xs):
            out = []
            for x in xs:
                out += [",", x]
            return S.make(*out[1:])
        init = {"event": "INIT", "attr": {"seed": text([r, self.honba, self.kyo0, 3, 4, self.dora0]), "ten": text(self.scores0),
                                          "oya": text([self.oya]), **{f"hai{p}": text(hais[p]) for p in range(4)}}}
        seq = self.seq = cut.GhostSeq(self.inner_head)
        self.events = Events(init, seq, None)
        self.kind = kind
        rounds = cut.GhostSeq(self.outer_head)
        ctx.patch(px, "_get_rounds", lambda path, *a, **k: (px.GameInfo(go), rounds))
        self.result = px.process("log.xml")
        self.returned()

    @property
    def NumStr(self):
        from pv.symstr import NumStr
        return NumStr

    def deal(self):
        self.dora0 = 135
        return [[13 * p + i for i in range(13)] for p in range(4)]

    def returned(self):
        raise Unsupported("process() returned before the loops were left")

    def before_rounds(self, frame, loc):
        pass

    def outer_head(self, frame, k):
        from pv import cut
        if k == 0:
            loc = cut.get_locals(frame)
            self.before_rounds(frame, loc)
            cut.set_locals(frame, {n: cut.Poison(n) for n in frame.f_code.co_varnames[:frame.f_code.co_nlocals] if n not in loc})
            return self.events
        self.after_round(frame)
        raise PathEnd

    def after_round(self, frame):
        raise Unsupported("the round ended without its result event")

    def inner_head(self, frame, k):
        if k == 0:
            self.frame = frame
            self.start(frame)
            return self.event
        if frame is not self.frame:
            raise Unsupported("the event loop moved to another function")
        self.finish(frame)
        raise PathEnd

    def in_rules(self, g):
        """what the rules of the game keep true of the ghost state (assumed before an event, proved after it)"""
        out = [("hands are closed before the first call", Implies(g.calls == 0, And(*[x == 1 for x in g.closed]))),
               ("ippatsu and double riichi only after riichi", And(*[And(g.ippatsu[q] <= g.reach[q], g.dreach[q] <= g.reach[q]) for q in range(4)])),
               ("riichi only with a closed hand", And(*[g.reach[q] <= g.closed[q] for q in range(4)])),
               ("at most 70 draws", g.draws <= 70)]
        if g.phase in ("called", "kan"):
            out += [("no ippatsu after a call", And(*[x == 0 for x in g.ippatsu])), ("no call after the last draw", g.draws <= 69), ("a call is counted", g.calls >= 1)]
        return out

    # ---- an arbitrary state
    def arbitrary(self, frame, phases, actor=None):
        from pv import cut, focus
        ctx, T = self.ctx, terms()
        ctx._assert(T["range"])
        g = Ghost()
        g.loc, g.river = list(T["loc"]), [list(x) for x in T["river"]]
        g.cells, g.rows = dict(T["count"]), [list(x) for x in T["rows"]]
        g.phase = phases[0] if len(phases) == 1 else phases[ctx.choose(len(phases))]
        g.draws = 0 if g.phase == "start" else ctx.int("draws", 1, 70)
        g.calls = 0 if g.phase == "start" else ctx.int("calls", 1 if g.phase in ("called", "kan") else 0, None)
        for n, lo, hi in (("reach", 0, 1), ("dreach", 0, 1), ("ippatsu", 0, 1), ("closed", 0, 1), ("scores", None, None)):
            setattr(g, n, [ctx.int(f"{n}{p}", lo, hi) for p in range(4)])
        for what, c in self.in_rules(g):
            ctx.assume(c)
        g.kyotaku = ctx.int("kyotaku", 0, None)
        g.pending = None
        g.actor = actor
        g.turn = None
        g.doras = cut.GhostList("doras", ctx.int("ndora", 1, 5))
        g.melds = [self.old_melds(p) for p in range(4)]
        self.ntok, self.npts = ctx.int("ntok", 0, None), ctx.int("npts", 0, None)
        self.tokens, self.points = cut.GhostList("tokens", self.ntok), cut.GhostList("points", self.npts)
        self.g = g
        return g

    def old_melds(self, p):
        from pv import focus
        return focus.AnyList(("melds", p), self.ctx.int(f"nmelds{p}", 0, 4), key=("melds", p), element=lambda: self.any_meld(p),
                             after=lambda m, app, f: self.after_meld(p, m, app))

    def any_meld(self, p):
        """an arbitrary earlier meld of p (contract of Naki: C02)"""
        ctx = self.ctx
        n = ctx.tags["nmeld"] = ctx.tags.get("nmeld", 0) + 1
        k, typ = ctx.int(f"meld{n}_kind", 0, 33), ctx.int(f"meld{n}_type", 0, 4)
        if "options" in self.groups:
            self.meld_facts(p, k, typ)
        xs = [ctx.int(f"meld{n}_tile{j}", 0, 135) for j in range(4)]
        return self.stub(typ, k, xs[:2], xs[2], ctx.int(f"meld{n}_from", 0, 3), ctx.int(f"meld{n}_code", 0, 65535), None, None)

    def meld_facts(self, p, k, typ):
        pass

    def after_meld(self, p, m, app):
        pass

    def stub(self, typ, k, exposed, acquired, from_who, code, conv, filt):
        """A meld as its contract describes it (C01-C04): type, tiles, direction, canonical code, action number."""
        H = self

        def no(what):
            def f(s, *a, **kw):
                raise Unsupported(f"Naki.{what} of an arbitrary meld")
            return f

        class Stub(H.NakiReal):
            def __init__(s):
                pass
            is_chi = lambda s: typ == TYPES.index("chi")
            is_pon = lambda s: typ == TYPES.index("pon")
            is_kakan = lambda s: typ == TYPES.index("kakan")
            is_minkan = lambda s: typ == TYPES.index("minkan")
            is_ankan = lambda s: typ == TYPES.index("ankan")
            from_who = lambda s: from_who
            get_exposed = lambda s: (list(exposed), acquired)
            pattern_chi = no("pattern_chi")
            pattern_kakan = pattern_minkan = pattern_ankan = no("pattern")

            def pattern_pon(s):
                H.ctx.assume(s.is_pon())
                return (k // 9, k % 9, cut_poison("which"), cut_poison("has_red"), list(exposed), acquired)

            def get_post_turn_filter_idx(s):
                if filt is None or bool(Or(s.is_kakan(), s.is_ankan())):
                    raise Unsupported("action number of an arbitrary meld")
                return filt

            def get_during_turn_filter_idx(s):
                if filt is None or not bool(Or(s.is_kakan(), s.is_ankan())):
                    raise Unsupported("action number of an arbitrary meld")
                return filt
        Stub.__module__ = H.NakiReal.__module__
        Stub.__name__ = "Naki"
        o = Stub()
        o.naki_code = code
        o.convenient_naki_code = conv if conv is not None else cut_poison("canonical code")
        return o

    def where_hook(self, guards):
        from pv import focus
        ctx = self.ctx
        self.guards_are(guards)
        n = ctx.tags["nwhere"] = ctx.tags.get("nwhere", 0) + 1

        def element():
            j = ctx.int(f"where{n}", 0, len(guards) - 1)
            if "options" in self.groups:
                ctx.assume(Or(*[And(j == i, g) for i, g in enumerate(guards)]))
            return j
        return focus.focus_iter("where", element, lambda j, app, f: self.after_where(j, app))

    def guards_are(self, guards):
        pass

    def after_where(self, j, app):
        pass

    def sizes(self, g, p, mod):
        """tiles in p's concealed hand modulo 3 (1, or 2 when p has to discard)"""
        cells = g.counts("conc", p)[:34]
        q = self.ctx.int("melds_left", 0, 4)
        self.ctx.assume(Sum(cells) == 3 * q + mod)

    def turn_state(self):
        """the state recorded when the current turn began: values arbitrary, containers shared as in the samples"""
        from pv import npshim
        ctx, R = self.ctx, self.R
        S = object.__new__(ctx.mod(STATE).StateObject)
        g, loc = self.g, self.loc0
        if "T_state" not in _T:
            import z3
            from pv.sym import SymInt
            mk = lambda n, i: SymInt(z3.Int(f"S_{n}{i}"), 0, 4)
            _T["T_state"] = {n: [mk(n, i) for i in range(m)] for n, m in (("hand", 37), ("rem", 37), ("pov", 37), ("riv", 148), ("men", 4),
                                                                          ("dr", 4), ("re", 4), ("ip", 4), ("sc", 4), ("pt", 4), ("pr", 4), ("misc", 6))}
        V = _T["T_state"]
        S.remaining_turns = S.remaining_tsumo = V["misc"][0]
        S.hand_tensor, S.remaining_tiles, S.remaining_tiles_pov = (npshim.sarr(V[n]) for n in ("hand", "rem", "pov"))
        S.sutehai_tensors = npshim.sarr([V["riv"][37 * i:37 * i + 37] for i in range(4)])
        S.is_menzen, S.double_reaches, S.reaches, S.ippatsu, S.scores = (list(V[n]) for n in ("men", "dr", "re", "ip", "sc"))
        S.melds = [[] for _ in range(4)]
        S.kyotaku, S.honba, S.rounds_remaining = V["misc"][1], V["misc"][2], V["misc"][3]
        S.dora = []
        S.parent_tensor, S.parent_rounds_remaining = npshim.sarr(V["pt"]), list(V["pr"])
        S.player = g.actor
        for f, names in R.fields.items():
            for n in names:
                if n in self.newloc or n in loc:
                    v = self.newloc.get(n, loc.get(n))
                    if n not in R.outer and type(v) is list:
                        v = list(v)
                    setattr(S, f, v)
        return S

    def place(self, frame):
        """replace the locals of the loop by the arbitrary state"""
        from pv import cut, focus
        g, R, ctx = self.g, self.R, self.ctx
        loc = self.loc0 = cut.get_locals(frame)
        names = frame.f_code.co_varnames[:frame.f_code.co_nlocals] + frame.f_code.co_cellvars
        new = self.newloc = {}
        roles = R.role
        seen = []
        for n in names:
            if n not in loc or n not in roles:
                continue
            for m, c in seen:
                for d in containers(loc[n]):
                    if any(overlap(x, d) for x in c):
                        raise Unsupported(f"locals {n!r} and {m!r} share a container")
            seen.append((n, containers(loc[n])))
        for n in names:
            r = roles.get(n)
            if r is None:
                if n not in R.kept:
                    new[n] = cut.Poison(n)
                elif n not in loc or isinstance(loc[n], cut.Poison):
                    pass
                elif n in R.dealt:
                    new[n] = cut.Poison(n)
                continue
            if r in ("curr", "turnstate"):
                continue
            if r == "points":
                new[n] = self.points
            elif r == "tokens":
                new[n] = self.tokens
            elif r == "first_go":
                v = ctx.int("cyc_" + n, 0, None)
                ctx.assume(And(Implies(g.calls == 0, v == g.draws), Implies(g.calls > 0, v >= 5)))
                new[n] = v
            else:
                new[n] = shape_like(loc.get(n), g.value(r))
        for need in ("points", "tokens", "curr", "turnstate", "melds"):
            if need not in roles.values():
                raise Unsupported(f"no local plays the role {need}")
        S = self.S = self.turn_state() if g.phase in ("drawn", "called", "post") else None
        self.curr = self.rd = self.fopt = None
        self.options_before = []
        marks = "marks" in self.groups
        if g.phase in ("drawn", "post"):
            win = self.dec.AgariDecision(0, ctx.bool("win_marked"))
            fs, f = self.focus_option() if marks else (None, None)
            self.fopt = f
            if marks:
                self.options_before += [("win options keep their marks", win, win.executed)]
                if f is not None:
                    self.options_before.append(("the option taken, and only it, is marked", f, f.executed))
            idx = ctx.int("idx_curr", 0, None)
            if g.phase == "drawn":
                self.rd = self.dec.ReachDecision(g.actor, g.pending is not None)
                if marks:
                    self.options_before.append(("the riichi option is marked by its declaration only", self.rd, self.rd.executed))
                ds = [focus.MarkList("agari", win), [self.rd], focus.MarkList("naki", f)]
                self.curr = self.turnm.DuringTurn(player=g.actor, stateObj=S, decisions=ds, encoding_idx=idx)
            else:
                ds = [[focus.MarkList(("agari", q), win if q == (fs or 0) else None), [], focus.MarkList(("naki", q), f if q == fs else None)]
                      for q in range(4)]
                self.curr = self.turnm.PostTurn(player=g.actor, stateObj=S, decisions=ds, encoding_idx=idx)
        for n in names:
            if roles.get(n) == "curr":
                new[n] = self.curr
            elif roles.get(n) == "turnstate":
                new[n] = S if g.phase in ("drawn", "called") else cut.Poison(n)
        cut.set_locals(frame, new)
        self.loc0 = cut.get_locals(frame)
        self.before = {n: focus.snap(v) for n, v in self.loc0.items() if n in R.kept or roles.get(n) in R.shared}
        self.sbefore = {f: focus.snap(v) for f, v in vars(S).items()} if S is not None else None

    def focus_option(self):
        """an arbitrary option of the current decision point: (seat, option)"""
        ctx = self.ctx
        s = ctx.choose(4)
        e = ctx.int("option", 0, 65535)
        n = self.stub(ctx.int("option_type", 0, 4), ctx.int("option_kind", 0, 33), [], None, e % 4, e, e, None)
        return s, self.dec.NakiDecision(s, n, ctx.bool("option_marked"))

    # ---- comparison with the new ghost state
    def compare(self, frame, g2, points, tokens):
        """points: list of expected (type, player, state spec, token index, extra); tokens: expected values"""
        from pv import cut, focus
        ctx, R = self.ctx, self.R
        loc = cut.get_locals(frame)
        self.loc1 = loc
        if ctx.tags.get("open_loops"):
            raise Unsupported("a loop over an arbitrary collection was left early")
        G = self.groups
        sel = self.cfg.roles
        by = {}
        for n, r in sorted(R.role.items()):
            if r in sel and r not in ("curr", "first_go"):
                if n not in loc:
                    raise Unsupported(f"local {n!r} disappeared")
                if isinstance(loc[n], cut.Poison):
                    raise Unsupported(f"local {n!r} was lost")
                by.setdefault(r, []).extend(equal_pairs(n, loc[n], g2.value(r)))
        for r, pairs in sorted(by.items()):
            ctx.prove_all(f"{self.ev}: {r}", pairs or [("same", True)])
        pts = [n for n, r in R.role.items() if r == "points"]
        toks = [n for n, r in R.role.items() if r == "tokens"]
        new_pts, new_toks = loc[pts[0]].tail, loc[toks[0]].tail
        self.new_pts = new_pts
        kinds = [(getattr(p, "type_", None), p.player) for p in new_pts]
        exp_k = [({"during": 0, "discard": 1, "post": 2}[e["type"]], e["player"]) for e in points]
        if "seq" in G:
            for n in pts:
                ctx.prove(f"{self.ev}: the list of points only grows", loc[n].tag == "points" and loc[n].base is self.npts and len(loc[n].tail) == len(points))
            for n in toks:
                ctx.prove(f"{self.ev}: the list of tokens only grows", loc[n].tag == "tokens" and loc[n].base is self.ntok and len(loc[n].tail) == len(tokens))
            ctx.prove(f"{self.ev}: points recorded", kinds == exp_k, (kinds, exp_k))
            ctx.prove_all(f"{self.ev}: tokens", [(f"token {i}", a == b) for i, (a, b) in enumerate(zip(new_toks, tokens))] or [("none", True)])
            ctx.prove_all(f"{self.ev}: tokens preceding each point", [(f"point {i}", x.encoding_idx == e["idx"]) for i, (x, e) in
                                                                      enumerate(zip(new_pts, points))] or [("none", True)])
        elif kinds != exp_k:
            raise Unsupported("other points than expected are recorded")
        exp_curr = self.expected_curr(g2)
        for n, r in R.role.items():
            if r == "curr" and r in sel:
                ctx.prove(f"{self.ev}: current decision point", loc[n] is exp_curr, n)
            if r == "first_go" and r in sel:
                v = loc[n]
                ctx.prove(f"{self.ev}: first go-around", And(Implies(g2.calls == 0, v == g2.draws), Implies(g2.calls > 0, v >= 5)))
        # ---- recorded states
        states = []
        for x, e in zip(new_pts, points):
            states.append((e["type"], x.stateObj, e["state"]))
        if g2.phase in ("drawn", "called"):
            for n, r in R.role.items():
                if r == "turnstate":
                    if self.ev in ("draw", "chi", "pon"):
                        states.append(("turn", loc[n], "new"))
                    else:
                        states.append(("turn", loc[n], "turn"))
        new_states = []
        for what, s, spec in states:
            if type(s).__name__ != "StateObject":
                raise Unsupported("the recorded state is something else")
            if spec == "new":
                new_states.append(s)
            for f in self.cfg.fields:
                if spec == "turn" and s is self.S:
                    pairs = [("the turn's state", True)]
                else:
                    pairs = equal_pairs(f, getattr(s, f), getattr(self.S, f) if spec == "turn" else self.field(g2, f))
                ctx.prove_all(f"{self.ev}: {f} shown at the {what} point", pairs or [("same", True)])
        # ---- frame
        if "snap" in G:
            if self.S is not None:
                bad = [f for f, v in vars(self.S).items() if not focus.same(self.sbefore.get(f), focus.snap(v))]
                ctx.prove(f"{self.ev}: recorded states keep their values", not bad, bad)
            for n, b in self.before.items():
                if R.role.get(n) in R.shared or "kept:" + n in R.shared:
                    parts = [b] if n in R.outer or not (isinstance(b, tuple) and b[0] == "L") else b[2]
                    for x in parts:
                        o = x[1] if isinstance(x, tuple) else None
                        ctx.prove(f"{self.ev}: containers recorded states refer to are not changed", o is None or focus.same(x, focus.snap(o)), n)
            for s in new_states:
                for f, v in vars(s).items():
                    for n, r in list(R.role.items()) + [(k, "kept:" + k) for k in R.kept]:
                        if r in ("points", "tokens", "curr", "turnstate") or n not in loc or r in R.shared and n in R.outer:
                            continue
                        if r in R.shared:
                            hit = any(overlap(c, loc[n]) for c in containers(v))
                        else:
                            hit = any(overlap(c, d) for c in containers(v) for d in containers(loc[n]))
                        ctx.prove(f"{self.ev}: a recorded state refers to nothing that changes", not hit, (f, n))
        for n, b in self.before.items():
            if n in R.kept and not focus.same(b, focus.snap(loc[n])):
                raise Unsupported(f"local {n!r} changes inside the loop")

    def expected_curr(self, g2):
        if g2.phase == "drawn" or g2.phase == "post":
            return self.new_pts[-1] if self.ev in ("draw", "discard") else self.curr
        return None

    def field(self, g, f):
        p = g.actor
        return {"hand_tensor": lambda: g.counts("conc", p), "remaining_tiles_pov": lambda: g.counts("pov", p),
                "sutehai_tensors": lambda: g.river, "player": lambda: p, "is_menzen": lambda: g.closed,
                "double_reaches": lambda: g.dreach, "reaches": lambda: g.reach, "ippatsu": lambda: g.ippatsu,
                "melds": lambda: g.melds, "scores": lambda: g.scores, "kyotaku": lambda: g.kyotaku, "honba": lambda: self.honba,
                "dora": lambda: g.doras, "parent_tensor": lambda: [b2i(self.oya == i) for i in range(4)],
                "rounds_remaining": lambda: self.n_rounds - self.round,
                "parent_rounds_remaining": lambda: [Sum(b2i(And(self.round <= k, k < self.n_rounds)) for k in range(8) if k % 4 == i) for i in range(4)],
                "remaining_turns": lambda: 70 - g.draws, "remaining_tsumo": lambda: 70 - g.draws}[f]()


TYPES = ("chi", "pon", "kakan", "minkan", "ankan")


def cut_poison(n):
    from pv import cut
    return cut.Poison(n)


# --------------------------------------------------------------------------- the events
T_DISCARD, T_RIICHI, T_DORA, T_CALL, T_KAN = (1 << 13) + (1 << 10), (2 << 13) + (3 << 10) + 2, (4 << 13) + (4 << 10), (3 << 13) + (2 << 10), (2 << 13) + (2 << 10)


class Step(Harness):
    """One event of the round from an arbitrary state."""
    ev = "?"
    phases = ()

    def __init__(self, ctx, cfg):
        Harness.__init__(self, ctx, cfg)
        self.p = ctx.params.get("p")
        self.tk = ctx.params.get("kind")
        self.tiles = bool(cfg.roles & set(TILE_ROLES)) or bool({"hand_tensor", "remaining_tiles_pov", "sutehai_tensors"} & set(cfg.fields))

    def go(self):
        self.run("step")

    def start(self, frame):
        ctx = self.ctx
        ph = ctx.params.get("phase")
        self.g = self.arbitrary(frame, (ph,) if ph else self.phases, actor=self.actor_before())
        self.legal()
        self.place(frame)
        self.seq.position = ctx.int("position", 0, None)
        ctx.cover(f"{self.ev} from {self.g.phase}")
        ctx.mark_base()

    def actor_before(self):
        """whose turn the state before the event belongs to"""
        return self.p

    def turn_of(self):
        return self.ctx.int("turn_of", 0, 3)

    def tile(self, name):
        """the tile of the event: any copy of the case's kind, or any tile at all"""
        if self.tk is None:
            return self.ctx.int(name, 0, 135)
        return self.ctx.int(name, 4 * self.tk, 4 * self.tk + 3)

    def moved(self, g2, tile, src, dst):
        if self.tiles:
            g2.move(tile, src, dst)

    def finish(self, frame):
        g2, points, tokens = self.effect()
        self.g2 = g2
        self.ctx.prove_all(f"{self.ev}: the game state stays within the rules", self.in_rules(g2))
        self.compare(frame, g2, points, tokens)
        if "marks" in self.groups:
            self.check_marks()
        self.extra(frame)

    def extra(self, frame):
        pass

    # ---- C08
    def marked(self):
        """options the event must mark: list of (option, condition)"""
        return []

    def check_marks(self):
        ctx = self.ctx
        want = {id(o): c for o, c in self.marked()}
        for what, o, before in self.options_before:
            exp = Or(before, want[id(o)]) if id(o) in want else before
            now = o.executed
            if not isinstance(now, (bool, SymBool)):
                raise Unsupported("marks that are not truth values")
            ctx.prove(f"{self.ev}: {what}", Iff(now, exp), (now, exp))


class Draw(Step):
    ev = "draw"
    phases = ("start", "post", "kan")

    def actor_before(self):
        return self.turn_of()

    def legal(self):
        ctx, g, p = self.ctx, self.g, self.p
        self.t = self.tile("t")
        ctx.assume(g.at(self.t) == WALL)
        ctx.assume(g.draws <= 69)
        self.sizes(g, p, 1)
        self.event = {"event": self.NumStr.make("TUVW"[p], self.t), "attr": {}}

    def effect(self):
        g, p = self.g, self.p
        g2 = g.copy()
        self.moved(g2, self.t, WALL, p)
        g2.draws = g.draws + 1
        g2.ippatsu[p] = 0
        g2.phase, g2.actor, g2.turn = "drawn", p, self.t
        return g2, [{"type": "during", "player": p, "state": "new", "idx": self.ntok}], []

    # ---- C07
    def hand_after(self, k):
        """how many tiles of kind k the player holds after the draw"""
        c = self.g_count(k)
        return c + b2i(self.t // 4 == k)

    def g_count(self, k):
        return self.g.count("conc", self.p, k)

    def meld_facts(self, p, k, typ):
        """three of the four copies lie in the pon"""
        ctx = self.ctx
        pon = typ == TYPES.index("pon")
        for i in range(34):
            ctx.assume(Implies(And(pon, k == i), self.hand_after(i) <= 1))
        self.pon = (k, pon)

    def after_meld(self, p, m, app):
        if "options" not in self.groups:
            return
        ctx = self.ctx
        k, pon = self.pon
        items = self.kan_items(app)
        has = Or(*[And(k == i, self.hand_after(i) == 1) for i in range(34)])
        if not items:
            ctx.prove("draw: an added kan is offered for each pon whose fourth tile is in the hand", Not(And(pon, has)))
            return
        o = items[0]
        ctx.prove("draw: an added kan is offered only for a pon whose fourth tile is in the hand, and once", And(len(items) == 1, pon, has))
        black = Or(*[And(k == i, ite(self.t == 4 * i, 0, b2i(self.g.loc[4 * i] == self.p)) == 0, Not(self.t == 4 * i)) for i in (4, 13, 22)])
        exp = 16 + 3 * 512 * k + ite(black, 512, 0) + ite(And(Or(*[k == i for i in (4, 13, 22)]), Not(black)), 0, 32)
        ctx.prove("draw: added kans are offered in canonical form, unmarked, to the player who drew",
                  And(o.naki.naki_code == exp, o.naki.convenient_naki_code == exp, o.player == self.p, Not(o.executed)))

    def kan_items(self, app):
        if len(app) > 1:
            raise Unsupported("a loop over melds builds several lists")
        return list(app.values())[0] if app else []

    def guards_are(self, guards):
        if "options" not in self.groups:
            return
        self.ctx.prove_all("draw: closed kans are offered for exactly the kinds held four times",
                           [(str(j), Iff(g, self.hand_after(j) == 4) if j < 34 else Not(g)) for j, g in enumerate(guards)] +
                           [("all kinds looked at", len(guards) >= 34)])

    def after_where(self, j, app):
        if "options" not in self.groups:
            return
        items = self.kan_items(app)
        exp = 1024 * j
        self.ctx.prove("draw: closed kans are offered once, in canonical form, unmarked, to the player who drew",
                       And(len(items) == 1, *[And(o.naki.naki_code == exp, o.naki.convenient_naki_code == exp, o.player == self.p, Not(o.executed))
                                              for o in items]))

    def extra(self, frame):
        ctx, p = self.ctx, self.p
        x = self.new_pts[0]
        if "options" in self.groups:
            from pv import focus
            ds = x.decisions
            ctx.prove("draw: three groups of options", len(ds) == 3)
            reach = ds[1]
            open_or_declared = Or(self.g.closed[p] == 0, self.g.reach[p] == 1)
            if not self.shanten_calls:
                ctx.prove("draw: riichi offered exactly when allowed", And(open_or_declared, len(reach) == 0))
            else:
                args, sh = self.shanten_calls[-1]
                (n,), cells = args if len(args[0]) == 1 else ((0,), [])
                if n != 34:
                    raise Unsupported("shanten of another form of hand")
                ctx.prove_all("draw: the shanten number is that of the hand", [(str(k), c == self.hand_after(k)) for k, c in enumerate(cells)])
                ctx.prove("draw: riichi offered exactly when allowed", Iff(len(reach) == 1, And(Not(open_or_declared), sh <= 0)))
            ctx.prove("draw: the riichi option is the player's and unmarked",
                      all(type(o).__name__ == "ReachDecision" for o in reach) and And(*[And(o.player == p, Not(o.executed)) for o in reach]))
            tr = ds[2].full_trail() if isinstance(ds[2], focus.OptList) else [("item", y) for y in ds[2]]
            ctx.prove("draw: kan options come from the two loops only", sorted(map(str, tr)) == sorted(map(str, [("loop", "where"), ("loop", ("melds", p))])), tr)
        if "wins" in self.groups:
            from specs import procwins
            procwins.draw(self, x)


class Discard(Step):
    ev = "discard"
    phases = ("drawn", "called")

    def legal(self):
        ctx, g, p = self.ctx, self.g, self.p
        self.t = self.tile("t")
        ctx.assume(g.at(self.t) == p)
        if g.phase == "drawn" and ctx.choose(2) == 1:
            g.pending = p
        g.turn = ctx.int("turn_tile", 0, 135)
        if "seq" in self.groups:
            ctx.assume(g.at(g.turn) == (p if g.phase == "drawn" else MELD + p))
        self.sizes(g, p, 2)
        self.event = {"event": self.NumStr.make("DEFG"[p], self.t), "attr": {}}

    def effect(self):
        g, p = self.g, self.p
        g2 = g.copy()
        self.moved(g2, self.t, p, OUT)
        if self.tiles:
            g2.thrown(p, self.t)
        g2.phase, g2.turn = "post", None
        tok = T_DISCARD + p * 256 + (b2i(self.t == g.turn) * 128 if g.phase == "drawn" else 0) + self.t // 4
        return g2, [{"type": "discard", "player": p, "state": "turn", "idx": self.ntok},
                    {"type": "post", "player": p, "state": "turn", "idx": self.ntok + 1}], [tok]

    def extra(self, frame):
        ctx = self.ctx
        if "seq" in self.groups:
            ctx.prove("discard: the tile thrown", self.new_pts[0].discarded_tile == self.t)
        if "calls" in self.groups:
            self.check_calls()
        if "wins" in self.groups:
            from specs import procwins
            procwins.discard(self, self.new_pts[1])

    def check_calls(self):
        ctx, p, x = self.ctx, self.p, self.new_pts[1]
        if len(self.mask_calls) != 1:
            raise Unsupported("the call options are computed some other way")
        a = self.mask_calls[0]
        (shape, cells) = a["hand_tensors"]
        exp = [self.g.count("conc", q, k) for q in range(4) for k in range(37)]
        ctx.prove("discard: call options are those of this discard", And(a["player"] == p, a["tile_idx"] == self.t // 4,
                                                                        Iff(_as_bool(a["is_red"]), Or(*[self.t == r for r in REDS]))))
        ctx.prove("discard: hands shown to the option finder", shape == (4, 37))
        # the other players' hands; the discarder is offered nothing
        ctx.prove_all("discard: call options come from the other players' concealed hands",
                      [(f"{i // 37}:{i % 37}", cell_eq(cells[i], exp[i])) for i in range(148) if i // 37 != p])
        for q in range(4):
            got = x.decisions[q][2]
            if q == p:
                ctx.prove("discard: the discarder is offered no call", isinstance(got, list) and not hasattr(got, "__symlen__") and not got)
            else:
                ctx.prove("discard: each player gets its own call options", got is self.masks[q] or same_list(got, self.masks[q]))


def _as_bool(x):
    return x if isinstance(x, (bool, SymBool)) else x != 0


class Dora(Step):
    ev = "dora"
    phases = ("start", "drawn", "called", "post", "kan")

    def actor_before(self):
        return self.turn_of()

    def legal(self):
        ctx, g = self.ctx, self.g
        self.t = self.tile("t")
        ctx.assume(g.at(self.t) == WALL)
        if g.phase in ("drawn", "called"):
            g.turn = ctx.int("turn_tile", 0, 135)
        if g.phase == "drawn" and ctx.choose(2) == 1:
            g.pending = g.actor = ctx.conc(g.actor)
        self.event = {"event": "DORA", "attr": {"hai": self.NumStr.make(self.t)}}

    def effect(self):
        g2 = self.g.copy()
        self.moved(g2, self.t, WALL, OUT)
        g2.doras = self.g.doras.copy()
        g2.doras.append(self.t)
        return g2, [], [T_DORA + self.t // 4]


class Reach1(Step):
    ev = "riichi declared"
    phases = ("drawn",)

    def legal(self):
        ctx, g, p = self.ctx, self.g, self.p
        ctx.assume(And(g.closed[p] == 1, g.reach[p] == 0))
        g.turn = ctx.int("turn_tile", 0, 135)
        self.event = {"event": "REACH", "attr": {"who": str(p), "step": "1"}}

    def effect(self):
        g2 = self.g.copy()
        g2.pending = self.p
        return g2, [], []

    def marked(self):
        return [(self.rd, True)]


class Reach2(Step):
    ev = "riichi accepted"
    phases = ("post",)

    def legal(self):
        ctx, g, p = self.ctx, self.g, self.p
        g.pending = p
        ctx.assume(And(g.closed[p] == 1, g.reach[p] == 0))
        N = self.NumStr
        parts = []
        for q in range(4):
            parts += [",", g.scores[q] - (10 if q == p else 0)]
        self.event = {"event": "REACH", "attr": {"who": str(p), "step": "2", "ten": N.make(*parts[1:])}}

    def effect(self):
        g, p = self.g, self.p
        g2 = g.copy()
        g2.pending = None
        g2.reach[p] = 1
        g2.ippatsu[p] = 1
        g2.scores[p] = g.scores[p] - 10
        g2.kyotaku = g.kyotaku + 1
        g2.dreach[p] = ite(And(g.calls == 0, g.draws <= 4), 1, g.dreach[p])
        return g2, [], [T_RIICHI + p * 256]


class Call(Step):
    """chi, pon, open kan: after another player's discard"""
    phases = ("post",)

    def __init__(self, ctx, cfg):
        Step.__init__(self, ctx, cfg)
        self.ev = ctx.params["call"]

    def actor_before(self):
        self.fw = 3 if self.ev == "chi" else self.ctx.int("from_who", 1, 3)
        return (self.p + self.fw) % 4

    def legal(self):
        ctx, g, p, ev = self.ctx, self.g, self.p, self.ev
        k = self.tk
        if ev == "chi":
            which = ctx.params.get("which")
            if k is not None:
                ts = [ctx.int(f"t{j}", 4 * (k + j), 4 * (k + j) + 3) for j in range(3)]
                called = ts.pop(which)
            else:
                ts, called = [ctx.int("t0", 0, 135), ctx.int("t1", 0, 135)], ctx.int("t2", 0, 135)
                ctx.assume(ts[0] < ts[1])
        else:
            c = self.tile("called") if k is not None else ctx.int("called", 0, 135)
            b = 4 * (c // 4) if k is None else 4 * k
            c4 = c - b
            if ev == "minkan":
                ts = [b + ite(c4 <= j, j + 1, j) for j in range(3)]
            else:
                d = ctx.int("copy_left", 0, 3)
                ctx.assume(Not(d == c4))
                others = [ctx.int(f"copy{j}", 0, 3) for j in range(2)]
                ctx.assume(And(others[0] < others[1], *[And(Not(o == c4), Not(o == d)) for o in others]))
                ts = [b + o for o in others]
            called = c
        for t in ts:
            ctx.assume(g.at(t) == p)
        ctx.assume(g.at(called) == OUT)
        ctx.assume(And(g.reach[p] == 0, g.draws <= 69))
        self.ts, self.called = ts, called
        self.make_event(ts, called, self.fw, 2, 153)

    def make_event(self, ts, called, fw, lo, hi):
        ctx = self.ctx
        self.code = ctx.int("m", 0, 65535)
        self.conv = ctx.int("canonical", 0, 65535)
        self.filt = ctx.int("number", lo, hi)
        ctx.assume(And(self.code % 4 == fw, self.conv % 4 == (fw if self.ev != "kakan" else 0)))
        self.meld = self.stub(TYPES.index(self.ev), self.tk, ts, called, fw, self.code, self.conv, self.filt)
        self.naki_of[self.ev] = (self.code, self.meld)
        self.event = {"event": "N", "attr": {"who": str(self.p), "m": self.NumStr.make(self.code)}}

    def effect(self):
        g, p = self.g, self.p
        g2 = g.copy()
        for t in self.ts:
            self.moved(g2, t, p, MELD + p)
        self.moved(g2, self.called, OUT, MELD + p)
        self.common(g2)
        g2.closed[p] = 0
        g2.phase = "kan" if self.ev == "minkan" else "called"
        g2.turn = self.called
        return g2, [], [T_CALL + p * 256 + self.filt]

    def common(self, g2):
        g, p = self.g, self.p
        g2.calls = g.calls + 1
        g2.ippatsu = [0] * 4
        g2.actor = p
        g2.melds[p] = g.melds[p] + [self.meld]

    # ---- C08
    def focus_seat(self):
        return self.ctx.choose(3)

    def focus_option(self):
        ctx = self.ctx
        s = (self.p + self.ctx.choose(4)) % 4
        self.fseat = s
        e = self.e = ctx.int("option", 0, 65535)
        ctx.assume(And(Not(s == self.g.actor), e % 4 == (self.g.actor - s) % 4))
        n = self.stub(ctx.int("option_type", 0, 4), ctx.int("option_kind", 0, 33), [], None, e % 4, e, e, None)
        return s, self.dec.NakiDecision(s, n, ctx.bool("option_marked"))

    def marked(self):
        return [(self.fopt, And(self.fseat == self.p, self.e == self.conv))]


class Kan(Call):
    """closed and added kans: in the player's own turn"""
    phases = ("drawn",)

    def actor_before(self):
        self.fw = 0
        return self.p

    def legal(self):
        ctx, g, p, ev = self.ctx, self.g, self.p, self.ev
        g.turn = ctx.int("turn_tile", 0, 135)
        if ev == "ankan":
            b = 4 * self.tk if self.tk is not None else 4 * ctx.int("kan_kind", 0, 33)
            ts = [b + j for j in range(4)]
        else:
            ts = [self.tile("t")]
        for t in ts:
            ctx.assume(g.at(t) == p)
        self.ts, self.called = ts, None
        ctx.assume(g.draws <= 69)
        if ev == "kakan":
            self.fw = ctx.int("kakan_from", 0, 3)
            self.pon_of(ts[0])
            ctx.assume(g.closed[p] == 0)
        self.make_event(ts, None, self.fw, *((3, 36) if ev == "ankan" else (37, 70)))

    def pon_of(self, t):
        """the pon the tile is added to, at an arbitrary place among the player's melds"""
        from pv import focus
        ctx, g, p = self.ctx, self.g, self.p
        k = self.tk if self.tk is not None else t // 4
        xs = [ctx.int(f"pon_tile{j}", 0, 135) for j in range(3)]
        self.old_pon = self.stub(TYPES.index("pon"), k, xs[:2], xs[2], ctx.int("pon_from", 1, 3), ctx.int("pon_code", 0, 65535), None, None)
        n = ctx.int("nmelds_before", 1, 4)
        pos = ctx.int("pon_at", 0, 3)
        ctx.assume(pos < n)

        def other():
            typ, kk = ctx.int("other_type", 0, 4), ctx.int("other_kind", 0, 33)
            ctx.assume(Not(And(typ == TYPES.index("pon"), kk == k)))
            ys = [ctx.int(f"other_tile{j}", 0, 135) for j in range(3)]
            return self.stub(typ, kk, ys[:2], ys[2], ctx.int("other_from", 0, 3), ctx.int("other_code", 0, 65535), None, None)
        g.melds[p] = focus.SearchList(("melds", p), n, key=("melds", p), other=other, target=self.old_pon, position=pos)

    def effect(self):
        g, p = self.g, self.p
        g2 = g.copy()
        for t in self.ts:
            self.moved(g2, t, p, MELD + p)
        self.common(g2)
        g2.phase, g2.turn = "kan", None
        pts = []
        if self.ev == "kakan":
            g2.melds[p].pop(g.melds[p].position)
            pts = [{"type": "post", "player": p, "state": "new", "idx": self.ntok + 1}]
        return g2, pts, [T_KAN + p * 256 + self.filt]

    def focus_option(self):
        ctx = self.ctx
        e = self.e = ctx.int("option", 0, 65535)
        self.fseat = self.p
        n = self.stub(ctx.int("option_type", 0, 4), ctx.int("option_kind", 0, 33), [], None, e % 4, e, e, None)
        return self.p, self.dec.NakiDecision(self.p, n, ctx.bool("option_marked"))

    def extra(self, frame):
        if self.ev == "kakan" and "wins" in self.groups:
            from specs import procwins
            procwins.chankan(self, self.new_pts[0])


class End(Step):
    """The result of a round ends it, and everything recorded in it is handed over, and nothing else."""
    ev = "result"
    phases = ("drawn", "called", "post", "kan")

    def actor_before(self):
        return self.turn_of()

    def legal(self):
        ctx, g = self.ctx, self.g
        if g.phase in ("drawn", "called"):
            g.turn = ctx.int("turn_tile", 0, 135)
        n = ctx.choose(3)
        tag = ["RYUUKYOKU", "AGARI", "AGARI"][n]
        parts = []
        for i in range(8):
            parts += [",", ctx.int(f"sc{i}", None, None)]
        self.event = {"event": tag, "attr": {"sc": self.NumStr.make(*parts[1:])}}
        self.events.results = [self.event] * (2 if n == 2 else 1)      # two players may win on one discard

    def before_rounds(self, frame, loc):
        from pv import cut
        acc = {n: cut.GhostList(("rounds", n), self.ctx.int("rounds_" + n, 0, None)) for n, v in loc.items() if isinstance(v, list) and not v}
        self.acc = acc
        seen = []
        for n in acc:
            if any(loc[n] is v for v in seen):
                raise Unsupported("two names for a list of results")
            seen.append(loc[n])
        cut.set_locals(frame, acc)

    def finish(self, frame):
        raise Unsupported("events are read after the result of a round")

    def after_round(self, frame):
        raise StopIteration

    def returned(self):
        from pv import cut
        ctx, r = self.ctx, self.result
        ctx.prove("result: points and tokens are returned", isinstance(r, tuple) and len(r) == 2)
        for x, what, own in ((r[0], "points", self.points), (r[1], "tokens", self.tokens)):
            if not isinstance(x, cut.GhostList):
                raise Unsupported("the returned lists are made in another way")
            a = [v for v in self.acc.values() if v is x]
            ctx.prove(f"result: the {what} of the round are handed over once, after those of earlier rounds",
                      len(a) == 1 and len(x.tail) == 1 and x.tail[0] is own and not own.tail)
        ctx.prove("result: points and tokens are different lists", r[0] is not r[1])
        ctx.cover(f"result from {self.g.phase}")


class Base(Harness):
    """The state at the first event is the one the INIT event describes, for any deal."""
    ev = "start"

    def __init__(self, ctx, cfg):
        Harness.__init__(self, ctx, cfg)
        self.tiles = bool(cfg.roles & set(TILE_ROLES))

    def deal(self):
        ctx = self.ctx
        if not self.tiles:
            return Harness.deal(self)
        self.dora0 = ctx.int("dora0", 0, 135)
        hands = [[ctx.int(f"deal{p}_{i}", 0, 135) for i in range(13)] for p in range(4)]
        # the tiles dealt are different tiles; what follows from that is stated here and proved by the lemma units
        self.rows = []
        for p in range(4):
            row = [0] * 136
            for t in hands[p]:
                row = [ite(t == j, 1, c) for j, c in enumerate(row)]
            self.rows.append(row)
            ctx.assume(Sum(row) == 13)                       # lemma proc.rows
        for t in [self.dora0] + [t for h in hands for t in h]:
            ctx.assume(Sum(b2i(has(t, k)) for k in range(34)) == 1)      # lemma proc.kinds
        self.hands = hands
        return hands

    def inner_head(self, frame, k):
        self.check(frame)
        raise PathEnd

    def initial(self):
        from pv import cut
        g = Ghost()
        g.phase, g.draws, g.calls, g.pending, g.actor, g.turn = "start", 0, 0, None, None, None
        g.reach, g.dreach, g.ippatsu, g.closed = [0] * 4, [0] * 4, [0] * 4, [1] * 4
        g.scores, g.kyotaku, g.doras, g.melds = list(self.scores0), self.kyo0, [self.dora0], [[] for _ in range(4)]
        g.river = [[0] * 37 for _ in range(4)]
        if self.tiles:
            g.rows = self.rows
            g.cells = {}
            for k in range(37):
                tot = 4 if k < 34 else 1
                n = [Sum(b2i(has(t, k)) for t in self.hands[p]) for p in range(4)]
                d = b2i(has(self.dora0, k))
                for p in range(4):
                    g.cells[("conc", p, k)] = g.cells[("full", p, k)] = n[p]
                    g.cells[("pov", p, k)] = tot - n[p] - d
                g.cells[("wall", None, k)] = tot - n[0] - n[1] - n[2] - n[3] - d
        return g

    def check(self, frame):
        from pv import cut
        ctx, R = self.ctx, self.R
        loc = cut.get_locals(frame)
        g = self.initial()
        by = {}
        for n, r in sorted(R.role.items()):
            if r in self.cfg.roles and r not in ("curr", "first_go"):
                by.setdefault(r, []).extend(equal_pairs(n, loc[n], g.value(r)))
            elif r == "curr" and r in self.cfg.roles:
                ctx.prove("start: no decision point yet", loc[n] is None)
            elif r == "first_go" and r in self.cfg.roles:
                ctx.prove("start: first go-around", loc[n] == 0)
            elif r in ("points", "tokens"):
                ctx.prove(f"start: no {r} yet", type(loc[n]) is list and len(loc[n]) == 0)
        for r, pairs in sorted(by.items()):
            ctx.prove_all(f"start: {r}", pairs or [("same", True)])
        ctx.cover("start")

    def go(self):
        self.run("base")


# --------------------------------------------------------------------------- lemmas about the ghost state
def moves(ctx):
    """Moving one tile changes the counts of a kind as Ghost.move says."""
    k = ctx.params["k"]
    loc = {t: ctx.int(f"at{t}", 0, 9) for t in tiles_of(k)}
    own = ctx.choose(2) == 0
    if own:
        t = list(tiles_of(k))[ctx.choose(len(loc))]
        src = ctx.conc(loc[t])
    else:
        t, src = None, None          # a tile of another kind: these stay where they are
    dst = ctx.choose(10)
    new = dict(loc)
    if own:
        new[t] = dst
    for kind in ("conc", "full", "pov", "wall"):
        for p in (None,) if kind == "wall" else range(4):
            before, after = recount(loc, kind, p, k), recount(new, kind, p, k)
            w = (int(where_is(kind, p, dst)) - int(where_is(kind, p, src))) if own else 0
            ctx.prove("counts follow the tile moved", after == before + w)
            ctx.prove("counts stay within the copies of a kind", And(before >= 0, before <= len(loc)))
    ctx.cover("moved")


def row_lemma(ctx):
    """Setting the flag of a tile not yet set raises the number of flags by one (so 13 different tiles set 13)."""
    row = [ctx.int(f"flag{j}", 0, 1) for j in range(136)]
    t = ctx.conc(ctx.int("tile", 0, 135))
    ctx.assume(row[t] == 0)
    new = [ite(t == j, 1, c) for j, c in enumerate(row)]
    ctx.prove("one more flag", Sum(new) == Sum(row) + 1)
    ctx.cover("set")


def kind_lemma(ctx):
    """Every tile is of exactly one kind."""
    t = ctx.int("tile", 0, 135)
    ctx.prove("one kind", Sum(b2i(has(t, k)) for k in range(34)) == 1)
    ctx.prove("its number divided by four", And(*[Iff(has(t, k), t // 4 == k) for k in range(34)]))
    ctx.cover("any")


EVENTS = {"draw": (Draw, [{"p": p} for p in range(4)], 9), "discard": (Discard, [{"p": p} for p in range(4)], 8),
          "dora": (Dora, [{}], 5), "reach1": (Reach1, [{"p": p} for p in range(4)], 1),
          "reach2": (Reach2, [{"p": p} for p in range(4)], 1)}
for _c in ("chi", "pon", "minkan"):
    EVENTS[_c] = (Call, [{"p": p, "call": _c} for p in range(4)], 7)
for _c in ("ankan", "kakan"):
    EVENTS[_c] = (Kan, [{"p": p, "call": _c} for p in range(4)], 7)
COVERS = {"draw": ["draw from start", "draw from post", "draw from kan"], "discard": ["discard from drawn", "discard from called"],
          "dora": ["dora from " + ph for ph in Dora.phases], "reach1": ["riichi declared from drawn"], "reach2": ["riichi accepted from post"],
          "chi": ["chi from post"], "pon": ["pon from post"], "minkan": ["minkan from post"], "ankan": ["ankan from drawn"],
          "kakan": ["kakan from drawn"], "start": ["start"], "end": ["result from " + ph for ph in End.phases]}
EVENTS["start"] = (Base, [{}], 10)
EVENTS["end"] = (End, [{}], 3)


def step_unit(cls, cfg):
    def run(ctx):
        cls(ctx, cfg).go()
    return run


_FN = ["process_xml.process", "turn.DuringTurn", "turn.DiscardTurn", "turn.PostTurn", "state.StateObject", "gameinfo.GameInfo",
       "gameinfo.RoundInfo", "decision.NakiDecision", "decision.ReachDecision", "decision.AgariDecision", "constants.TILE2IDX"]
UNITS = []
PROPS = {}
for _p in CFG:
    for _e, (_cls, _cases, _h) in EVENTS.items():
        if _e == "end" and _p != "C12":
            continue
        UNITS.append(Unit(f"proc.{_p}.{_e}", step_unit(_cls, CFG[_p]), "int", _cases, env="process", native=False, replayable=False,
                          covers=COVERS[_e], functions=_FN, heavy=_h))
        PROPS.setdefault(_p, []).append(UNITS[-1].name)
    if CFG[_p].roles & set(TILE_ROLES):
        PROPS[_p] += ["proc.moves", "proc.rows", "proc.kinds"]
UNITS += [Unit("proc.moves", moves, "int", [{"k": k} for k in (0, 4, 34)], env="process", native=False, covers=["moved"], functions=["lemma"]),
          Unit("proc.rows", row_lemma, "int", env="process", native=False, covers=["set"], functions=["lemma"]),
          Unit("proc.kinds", kind_lemma, "int", env="process", native=False, covers=["any"], functions=["lemma"])]
_LEGAL = ("the log is legal: every event is possible where it stands (a tile drawn comes from the wall, one discarded or melded from that "
          "player's hand, calls are of the last discard, riichi is declared by a closed hand and followed by no call, no call or kan after the last of at most 70 draws, ...); pre-states satisfy the "
          "whole invariant, each property's units re-establish the part of it that property relies on")
_OTHER = {"C07": "the constructors of canonical melds are under contract in C01-C03; Shanten.calculate_shanten is trusted",
          "C08": "the options of a decision point have pairwise different canonical codes per seat (C06, C07)",
          "C10": "kinds of a tile: TILE2IDX as built by utils/constants.py (executed, not assumed)",
          "C11": "rounds beyond the scheduled number (west extension) are outside the precondition",
          "C12": "how the file is split into rounds is C13; the numbers of calls are C05; no count is negative when a round ends (C10's invariant)",
          "C14": "HandCalculator.estimate_hand_value and TilesConverter.string_to_136_array are trusted; flags not named are left at their default"}
INFO = {_p: {"level": "proof", "native_budget": 20, "trusted": ["mahjong library (rules calculator, shanten, tile converter)"],
             "assumptions": [_LEGAL, "float32 counts are exact small integers"] + ([_OTHER[_p]] if _p in _OTHER else [])}
        for _p in CFG if _p != "C06"}
