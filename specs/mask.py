"""C06: the reaction options offered after a discard are exactly the legal calls."""
from pv.ops import *

DRAW, DEC = "MahjongAI.draw", "MahjongAI.decision"


def legal_calls(h, tile, red, chi_allowed):
    """[(description, condition)] for a hand h (37 counts) and a discarded kind."""
    out = []
    suit = tile // 9
    num = tile % 9
    five = tile < 27 and num == 4
    R = h[34 + suit] if tile < 27 else 0
    if five:
        B = h[tile] - R
        if red:
            out.append((("pon", 0, True), B >= 2))
        else:
            out.append((("pon", 0, False), B >= 2))
            out.append((("pon", 1, True), And(R >= 1, B >= 1)))
        out.append((("minkan", 0 if red else 1), h[tile] >= 3))
    else:
        out.append((("pon", 0, False), h[tile] >= 2))
        out.append((("minkan", 1), h[tile] >= 3))
    if tile < 27 and chi_allowed:
        f = suit * 9 + 4
        for which in range(3):
            n = num - which
            if not 0 <= n <= 6:
                continue
            others = [suit * 9 + n + i for i in range(3) if i != which]
            if f in others:
                o = [k for k in others if k != f][0]
                out.append((("chi", n, which, True), And(h[o] >= 1, R >= 1)))
                out.append((("chi", n, which, False), And(h[o] >= 1, h[f] - R >= 1)))
            else:
                out.append((("chi", n, which, bool(red) and five), And(*[h[k] >= 1 for k in others])))
    return out


def code_of(Naki, desc, tile, who, player):
    if desc[0] == "pon":
        return Naki.from_pon_info(tile, desc[1], desc[2], (player - who) % 4).naki_code
    if desc[0] == "minkan":
        return Naki.from_minkan_info(tile, (player - who) % 4, desc[1]).naki_code
    return Naki.from_chi_info(tile // 9, desc[1], desc[2], desc[3]).naki_code


def make_hands(ctx, tile, red, player):
    """Arbitrary concealed hands of four players consistent with one set of 136 tiles and the discard."""
    hs = []
    for p in range(4):
        h = [ctx.int(f"h{p}_{k}", 0, 4) for k in range(34)] + [ctx.int(f"h{p}_{34 + s}", 0, 1) for s in range(3)]
        hs.append(h)
    if tile < 27:
        s = tile // 9
        f = 9 * s + 4
        for h in hs:
            ctx.assume(And(h[34 + s] <= h[f]))
        plain = 1 if (tile == f and not red) else 0
        ctx.assume(Sum(h[34 + s] for h in hs) + (1 if red else 0) <= 1)
        ctx.assume(Sum(h[f] - h[34 + s] for h in hs) + plain <= 3)
    ctx.assume(Sum(h[tile] for h in hs) <= 3)
    return hs


def to_arrays(ctx, hs):
    if ctx.symbolic:
        from pv import npshim
        return [npshim.sarr(h) for h in hs]
    import numpy as np
    return [np.array(h, dtype=np.float32) for h in hs]


def native_hands(ctx, tile, red, player):
    """Draw consistent hands directly (for concrete search)."""
    return make_hands(ctx, tile, red, player)


def options(ctx):
    tile, red, player = ctx.params["tile"], ctx.params["red"], ctx.params["player"]
    hs = make_hands(ctx, tile, red, player)
    arrs = to_arrays(ctx, hs)
    res = ctx.mod(DEC).decision_mask(player, arrs, tile, red)
    check_result(ctx, res, hs, tile, red, player)
    ctx.cover("options")


def check_result(ctx, res, hs, tile, red, player):
    Naki = ctx.mod(DRAW).Naki
    ND = ctx.mod(DEC).NakiDecision
    ctx.prove("one option list per seat", res is not None and len(res) == 4)
    ctx.prove("the discarder is offered nothing", len(res[player]) == 0)
    for p in range(4):
        if p == player:
            continue
        codes = []
        for d in res[p]:
            ctx.prove("an option is an unmarked call of its seat",
                      And(isinstance(d, ND), d.player == p, Not(d.executed) if isinstance(d.executed, Sym) else d.executed is False))
            ctx.prove("an option is in canonical form", d.naki.naki_code == d.naki.convenient_naki_code)
            codes.append(ctx.conc(d.naki.naki_code))
        exp = [(code_of(Naki, d, tile, p, player), d, c) for d, c in legal_calls(hs[p], tile, red, (p - player) % 4 == 1)]
        ctx.prove("no choice offered twice", len(set(codes)) == len(codes))
        extra = [c for c in codes if c not in [e[0] for e in exp]]
        ctx.prove("only calls the rules know for this discard", not extra, f"seat {p} offered {extra}")
        ctx.prove_all("offered exactly when the hand allows it",
                      [(f"seat {p} {d}", c if e in codes else Not(c)) for e, d, c in exp])


def restored(ctx):
    """frame: the option generator does not modify the hands"""
    tile, red, player = ctx.params["tile"], ctx.params["red"], ctx.params["player"]
    hs = make_hands(ctx, tile, red, player)
    arrs = to_arrays(ctx, hs)
    ctx.mod(DEC).decision_mask(player, arrs, tile, red)
    ctx.prove("hands unchanged", And(*[a[k] == h[k] for a, h in zip(arrs, hs) for k in range(37)]))


CASES = [{"tile": t, "red": r, "player": p} for t in range(34) for r in ([False, True] if t < 27 and t % 9 == 4 else [False])
         for p in range(4)]
_F = ["decision.decision_mask", "decision._one_and_nine_mask", "decision._two_and_eight_mask", "decision._three_and_seven_mask",
      "decision._four_and_six_mask", "decision._five_mask", "decision._jihai_mask", "draw.Naki.from_chi_info",
      "draw.Naki.from_pon_info", "draw.Naki.from_minkan_info"]


def small_hands(ctx):
    """concrete search: hands concentrated around the discarded kind"""
    tile, red, player = ctx.params["tile"], ctx.params["red"], ctx.params["player"]
    pool = []
    for k in range(34):
        if tile < 27 and (k // 9 != tile // 9 or abs(k - tile) > 3):
            continue
        if tile >= 27 and k != tile:
            continue
        for c in range(4):
            pool.append(k * 4 + c)
    dis = tile * 4 + (0 if red or not (tile < 27 and tile % 9 == 4) else 1)
    pool.remove(dis)
    hs = [[0] * 37 for _ in range(4)]
    for t in pool:
        o = ctx.int(f"owner{t}", 0, 6)
        if o < 4 and o != player:
            hs[o][t // 4] += 1
            if t in (16, 52, 88):
                hs[o][34 + t // 36] += 1
    arrs = to_arrays(ctx, hs)
    res = ctx.mod(DEC).decision_mask(player, arrs, tile, red)
    check_result(ctx, res, hs, tile, red, player)


UNITS = [
    Unit("mask.options", options, "int", CASES, covers=["options"], functions=_F, search=20000, smoke=500, time_limit=500),
    Unit("mask.concrete", small_hands, "int", CASES, functions=_F, search=60000, smoke=1500,
         bounded="concrete search only; used to find failing inputs and as CPython cross-check"),
]
PROPS = {"C06": ["mask.options", "mask.concrete"]}
INFO = {"C06": {"assumptions": ["float32 tile counts 0..4 are treated as exact integers",
                                "hands are consistent with one set of 136 tiles"], "native_budget": 10}}
