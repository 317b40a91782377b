"""C23 (headers) and C20 (shanten search)."""
from pv.ops import *

GI = "MahjongAI.gameinfo"
SH = "MahjongAI.utils.shanten"


def bit(x, k):
    return (x // (1 << k)) % 2


def game_flags(ctx):
    GameInfo = ctx.mod(GI).GameInfo
    go = ctx.int("go", 0, None)
    g = GameInfo(go)
    ctx.cover("game type")
    ctx.prove("humans", g.against_human() == bit(go, 0))
    ctx.prove("no red fives", g.no_red() == bit(go, 1))
    ctx.prove("flag 0x4", g.kansaki() == bit(go, 2))
    ctx.prove("two-wind game", g.tonnan() == bit(go, 3))
    ctx.prove("three players", g.three_players() == bit(go, 4))
    ctx.prove("speed", g.fast() == bit(go, 6))
    ctx.prove("level", g.level() == bit(go, 5) + 4 * bit(go, 7))
    ctx.prove("4 or 8 rounds", g.n_rounds() == ite(bit(go, 3) == 1, 8, 4))
    ctx.prove("value kept", g.go == go)


def round_info(ctx):
    m = ctx.mod(GI)
    go = ctx.int("go", 0, None)
    g = m.GameInfo(go)
    n = ite(bit(go, 3) == 1, 8, 4)
    r = ctx.int("round", 0, 15)
    ri = m.RoundInfo(g, r)
    ctx.prove("dealer seat", ri.player_wind == r % 4)
    ctx.prove("round wind", ri.round_wind == r // 4)
    ctx.prove("header kept", ri.gameinfo is g)
    ctx.cover("round")
    if bool(r >= n):            # overtime: no round is scheduled any more
        ctx.cover("overtime")
        return
    ctx.prove("rounds left", ri.remaining_rounds == n - r)
    ctx.prove("four seats", len(ri.parent_rounds_remaining) == 4)
    for i in range(4):
        # the rounds from this one on in which seat i deals
        left = Sum(b2i(And(r <= k, k < n)) for k in range(8) if k % 4 == i)
        ctx.prove("dealer turns left", ri.parent_rounds_remaining[i] == left)


# --------------------------------------------------------------------------- C20
COUNTERS = ["n_mentsu", "n_taatsu", "n_toitsu", "n_kuttsuki", "n_melds", "tune"]


def any_hand(ctx):
    """At most 14 tiles, at most four of a kind, one red five per suit."""
    if not ctx.symbolic and not hasattr(ctx.source, "d"):
        # random search: draw 1..14 tiles, near to each other so that sets occur
        n = ctx.source.int("n", 1, 14)
        span = ctx.source.int("span", 8, 135)
        base = ctx.source.int("base", 0, 135 - span)
        pool = list(range(base, base + span + 1))
        h = [0] * 37
        for _ in range(min(n, len(pool))):
            t = pool.pop(ctx.source.int("t", 0, len(pool) - 1))
            h[t // 4] += 1
            if t in (16, 52, 88):
                h[34 + t // 36] += 1
        for k in range(37):
            ctx.inputs[f"h{k}"] = h[k]
        return h
    h = [ctx.int(f"h{k}", 0, 4) for k in range(34)] + [ctx.int(f"h{34 + s}", 0, 1) for s in range(3)]
    for s in range(3):
        ctx.assume(h[34 + s] <= h[9 * s + 4])
    ctx.assume(Sum(h[:34]) <= 14)
    return h


def arr(ctx, h):
    if ctx.symbolic:
        from pv import npshim
        return npshim.sarr(h)
    import numpy as np
    return np.array(h, dtype=np.float32)


def make_solver(ctx, h):
    s = ctx.mod(SH).ShantenSolver()
    a = arr(ctx, h)
    s._init(a)
    return s, a


def counters(s):
    return {k: v for k, v in vars(s).items() if k not in ("hand_tensor", "best_shanten") and not callable(v)}


def stub(ctx, s):
    """Recursive calls of solve_normal are replaced by its contract."""
    calls = []
    t0 = {}

    def solve_normal(idx=0):
        h = s.hand_tensor
        ctx.prove("recursive call: counts stay within 0..4", And(*[And(h[k] >= 0, h[k] <= 4) for k in range(37)]))
        ctx.prove("recursive call: position in range", And(0 <= idx, idx <= 27))
        total = Sum(h[k] for k in range(34))
        ctx.prove("recursive call: fewer tiles or a later position", Or(total < t0["total"], idx > t0["idx"]) if "idx" in t0 else True)
        ctx.prove("recursive call: no tiles added", total <= t0["total"])
        best = ctx.int(f"best{len(calls) + 1}", -1, 14)
        ctx.assume(best <= s.best_shanten)
        s.best_shanten = best
        calls.append(idx)
    s.solve_normal = solve_normal
    return calls, t0


def frame(ctx, s, a, h, c0, what):
    ctx.prove(what + ": the hand is the same object", s.hand_tensor is a)
    ctx.prove(what + ": hand unchanged", And(*[a[k] == h[k] for k in range(37)]))
    c1 = counters(s)
    ctx.prove(what + ": same counters", set(c1) == set(c0))
    ctx.prove(what + ": counters unchanged", And(*[c1[k] == c0[k] for k in c0]))


def search_step(ctx):
    cls = ctx.mod(SH).ShantenSolver
    idx = ctx.params["idx"]
    # any hand, any counters, any best distance so far; the start position is the case
    h = any_hand(ctx)
    s, a = make_solver(ctx, h)
    s.best_shanten = ctx.int("best0", -1, 14)
    if ctx.symbolic:
        for k in counters(s):
            setattr(s, k, ctx.int("c_" + k, None, None))
    c0 = counters(s)
    b0 = s.best_shanten
    ctx.cover("search")
    if ctx.symbolic:
        calls, t0 = stub(ctx, s)
        t0["total"] = Sum(h[k] for k in range(34))
        # the position the body works on is the first kind at or after idx that is held
        first = 27
        for k in range(26, idx - 1, -1):
            first = ite(a[k] > 0, k, first)
        t0["idx"] = first
        cls.solve_normal(s, idx)
    else:
        s.solve_normal(idx)
    frame(ctx, s, a, h, c0, "search")
    ctx.prove("the best distance never gets worse", s.best_shanten <= b0)


def formulas(ctx):
    h = any_hand(ctx)
    s, a = make_solver(ctx, h)
    c0 = counters(s)
    s.best_shanten = ctx.int("best0", -1, 14)
    b0 = s.best_shanten
    ctx.cover("formulas")
    s.solve_chitoitsu()
    pairs = 6 - Sum(b2i(h[k] >= 2) for k in range(34))
    ctx.prove("seven pairs distance", s.best_shanten == ite(pairs < b0, pairs, b0))
    frame(ctx, s, a, h, c0, "seven pairs")
    s.best_shanten = b0
    s.solve_kokushi()
    yao = [k for k in range(34) if k >= 27 or k % 9 in (0, 8)]
    d = 13 - Sum(b2i(h[k] >= 1) for k in yao) - b2i(Or(*[h[k] >= 2 for k in yao]))
    ctx.prove("thirteen orphans distance", s.best_shanten == ite(d < b0, d, b0))
    frame(ctx, s, a, h, c0, "thirteen orphans")


def whole(ctx):
    h = any_hand(ctx)
    s, a = make_solver(ctx, h)
    c0 = counters(s)
    ctx.cover("solve")
    if ctx.symbolic:
        calls, t0 = stub(ctx, s)
        t0["total"] = Sum(h[k] for k in range(34))
    r = s.solve()
    frame(ctx, s, a, h, c0, "solve")
    ctx.prove("the result is the best distance found", r == s.best_shanten)
    pairs = 6 - Sum(b2i(h[k] >= 2) for k in range(34))
    yao = [k for k in range(34) if k >= 27 or k % 9 in (0, 8)]
    d = 13 - Sum(b2i(h[k] >= 1) for k in yao) - b2i(Or(*[h[k] >= 2 for k in yao]))
    ctx.prove("at most the seven pairs distance", r <= pairs)
    ctx.prove("at most the thirteen orphans distance", r <= d)


UNITS = [
    Unit("header.flags", game_flags, "int", covers=["game type"], functions=["gameinfo.GameInfo." + f for f in
         ("__init__", "against_human", "no_red", "kansaki", "tonnan", "three_players", "fast", "level", "n_rounds")],
         exhaustive=300, search=600),
    Unit("header.round", round_info, "int", covers=["round"], functions=["gameinfo.RoundInfo.__init__"], search=300),
    Unit("shanten.step", search_step, "int", [{"idx": i} for i in range(28)], covers=["search"],
         functions=["utils.shanten.ShantenSolver." + f for f in ("solve_normal", "add_shuntsu", "remove_shuntsu",
                    "add_koutsu", "remove_koutsu", "add_toitsu", "remove_toitsu", "add_taatsu", "remove_taatsu",
                    "add_kuttsuki", "remove_kuttsuki")], search=30, smoke=10, replayable=True),
    Unit("shanten.formulas", formulas, "int", covers=["formulas"],
         functions=["utils.shanten.ShantenSolver.solve_chitoitsu", "utils.shanten.ShantenSolver.solve_kokushi",
                    "constants.YAOCHU_TENSOR"], search=2000),
    Unit("shanten.solve", whole, "int", covers=["solve"],
         functions=["utils.shanten.ShantenSolver.solve", "utils.shanten.ShantenSolver._init"], search=30, smoke=10),
]
PROPS = {"C23": ["header.flags", "header.round"], "C20": ["shanten.step", "shanten.formulas", "shanten.solve"]}
INFO = {"C23": {"assumptions": ["Python integers are mathematical; a game-type value is any non-negative integer"]},
        "C20": {"assumptions": ["float32 counts 0..4 are exact", "numpy slicing/views by numpy itself on exact cells",
                                "recursive calls of solve_normal by its contract; termination measure: tiles left, then position"]}}
