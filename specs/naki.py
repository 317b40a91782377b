"""Contracts of the call codec (draw.py) and the event tokens: C01-C05."""
from pv.ops import *

DRAW = "MahjongAI.draw"


# --------------------------------------------------------------------------- specification functions
def is_five(kind):
    """kind 0..33 is a five of a suit"""
    return And(kind < 27, kind % 9 == 4)


def the_kind(color, number):
    return color * 9 + number


def one_of(x, xs):
    return Or(*[x == y for y in xs])


def same_set(xs, ys):
    """xs and ys are the same set of pairwise distinct tiles"""
    if len(xs) != len(ys):
        return False
    cs = [one_of(x, ys) for x in xs] + [one_of(y, xs) for y in ys]
    cs += [xs[i] != xs[j] for i in range(len(xs)) for j in range(i)]
    return And(*cs) if cs else True


def kinds_of(n):
    return [n.is_chi(), n.is_pon(), n.is_kakan(), n.is_minkan(), n.is_ankan()]


KINDS = ["chi", "pon", "kakan", "minkan", "ankan"]


def prove_kind(ctx, n, kind, label="exactly one kind"):
    ks = kinds_of(n)
    ctx.prove(label, And(*[Iff(truth(k), i == KINDS.index(kind)) for i, k in enumerate(ks)]))


def truth(x):
    if isinstance(x, SymInt):
        return x != 0
    return x if isinstance(x, Sym) else bool(x)


def pattern(n, kind):
    return getattr(n, "pattern_" + kind)()


# ---- legal descriptions (what the constructors are asked for)
def any_description(ctx, kind, s=""):
    """An arbitrary legal call description; returns a dict."""
    if kind == "chi":
        d = {"color": ctx.int("color" + s, 0, 2), "number": ctx.int("number" + s, 0, 6),
             "which": ctx.int("which" + s, 0, 2), "red": ctx.bool("red" + s)}
        ctx.assume(Implies(d["red"], And(d["number"] >= 2, d["number"] <= 4)))
    elif kind == "pon":
        d = {"kind": ctx.int("kind" + s, 0, 33), "which": ctx.int("which" + s, 0, 1), "red": ctx.bool("red" + s),
             "from_who": ctx.int("from_who" + s, 1, 3)}
        ctx.assume(Implies(d["red"], is_five(d["kind"])))
        ctx.assume(Implies(Not(d["red"]), d["which"] == 0))
    elif kind == "kakan":
        d = {"kind": ctx.int("kind" + s, 0, 33), "which": ctx.int("which" + s, 0, 1)}
        ctx.assume(Implies(d["which"] == 1, is_five(d["kind"])))
    elif kind == "minkan":
        d = {"kind": ctx.int("kind" + s, 0, 33), "which": ctx.int("which" + s, 0, 1),
             "from_who": ctx.int("from_who" + s, 1, 3)}
        ctx.assume(Implies(d["which"] == 0, is_five(d["kind"])))
    else:
        d = {"kind": ctx.int("kind" + s, 0, 33)}
    return d


def pybool(ctx, b):
    return ctx.branch(b.t) if isinstance(b, SymBool) else bool(b)


def construct(ctx, kind, d):
    Naki = ctx.mod(DRAW).Naki
    if kind == "chi":
        return Naki.from_chi_info(d["color"], d["number"], d["which"], pybool(ctx, d["red"]))
    if kind == "pon":
        return Naki.from_pon_info(d["kind"], d["which"], pybool(ctx, d["red"]), d["from_who"])
    if kind == "kakan":
        return Naki.from_kakan_info(d["kind"], d["which"])
    if kind == "minkan":
        return Naki.from_minkan_info(d["kind"], d["from_who"], d["which"])
    return Naki.from_ankan_info(d["kind"])


# ---- Tenhou codes (what a log contains)
def any_code(ctx, kind, s=""):
    """An arbitrary well-formed Tenhou meld code of one kind: (code, fields)."""
    if kind == "chi":
        f = {"color": ctx.int("color" + s, 0, 2), "number": ctx.int("number" + s, 0, 6),
             "which": ctx.int("which" + s, 0, 2),
             "copies": [ctx.int(f"copy{i}{s}", 0, 3) for i in range(3)], "from_who": 3}
        p = (f["color"] * 7 + f["number"]) * 3 + f["which"]
        c = f["copies"]
        code = 3 + 4 + c[0] * 8 + c[1] * 32 + c[2] * 128 + p * 1024
        f["tiles"] = [(f["color"] * 9 + f["number"] + i) * 4 + c[i] for i in range(3)]
        f["red"] = Or(*[And(f["number"] + i == 4, c[i] == 0) for i in range(3)])
    elif kind == "pon":
        f = {"kind": ctx.int("kind" + s, 0, 33), "which": ctx.int("which" + s, 0, 2),
             "unused": ctx.int("unused" + s, 0, 3), "from_who": ctx.int("from_who" + s, 1, 3)}
        code = f["from_who"] + 8 + f["unused"] * 32 + (f["kind"] * 3 + f["which"]) * 512
        u = f["unused"]
        # the three copies that remain, in increasing order
        f["copies"] = [ite(u <= i, i + 1, i) for i in range(3)]
        f["tiles"] = [f["kind"] * 4 + c for c in f["copies"]]
        f["red"] = And(is_five(f["kind"]), u != 0)
    elif kind == "kakan":
        f = {"kind": ctx.int("kind" + s, 0, 33), "which": ctx.int("which" + s, 0, 2),
             "added": ctx.int("added" + s, 0, 3), "from_who": ctx.int("from_who" + s, 1, 3)}
        code = f["from_who"] + 16 + f["added"] * 32 + (f["kind"] * 3 + f["which"]) * 512
        f["red"] = is_five(f["kind"])
    elif kind == "minkan":
        f = {"tile": ctx.int("tile" + s, 0, 135), "from_who": ctx.int("from_who" + s, 1, 3)}
        code = f["from_who"] + f["tile"] * 256
        f["kind"] = f["tile"] // 4
        f["red"] = is_five(f["kind"])
    else:
        f = {"tile": ctx.int("tile" + s, 0, 135), "from_who": 0}
        code = f["tile"] * 256
        f["kind"] = f["tile"] // 4
        f["red"] = is_five(f["kind"])
    return code, f


def spec_tiles(ctx, kind, f):
    """(tiles laid down from the caller's hand, called tile) by the Tenhou format."""
    if kind in ("chi", "pon"):
        w = ctx.conc(f["which"])
        t = list(f["tiles"])
        a = t.pop(w)
        return t, a
    if kind == "kakan":
        return [f["kind"] * 4 + f["added"]], None
    if kind == "minkan":
        c = f["tile"] % 4
        c = ctx.conc(c)
        return [f["kind"] * 4 + i for i in range(4) if i != c], f["tile"]
    return [f["kind"] * 4 + i for i in range(4)], None


def description_of(kind, f):
    """The choice a Tenhou code denotes, as a constructor description."""
    if kind == "chi":
        return {"color": f["color"], "number": f["number"], "which": f["which"], "red": f["red"]}
    if kind == "pon":
        called_red = Or(*[And(f["which"] == i, f["copies"][i] == 0) for i in range(3)])
        return {"kind": f["kind"], "red": f["red"], "from_who": f["from_who"],
                "which": ite(And(f["red"], Not(called_red)), 1, 0)}
    if kind == "kakan":
        return {"kind": f["kind"], "which": ite(And(f["red"], f["added"] != 0), 1, 0)}
    if kind == "minkan":
        return {"kind": f["kind"], "from_who": f["from_who"],
                "which": ite(And(f["red"], f["tile"] % 4 == 0), 0, 1)}
    return {"kind": f["kind"]}


# --------------------------------------------------------------------------- C01
def roundtrip(ctx):
    kind = ctx.params["kind"]
    d = any_description(ctx, kind)
    n = construct(ctx, kind, d)
    ctx.cover("description of " + kind)
    prove_kind(ctx, n, kind)
    check_tiles_vs_description(ctx, kind, d, n)


def check_tiles_vs_description(ctx, kind, d, n):
    color, number, which, red, exposed, acquired = pattern(n, kind)
    ge, ga = n.get_exposed()
    ctx.prove("get_exposed agrees with the decoded pattern",
              And(len(ge) == len(exposed), *([x == y for x, y in zip(ge, exposed)]
                                             + [(ga is None) if acquired is None else ga == acquired])))
    fw = n.from_who()
    if kind == "chi":
        tk = [the_kind(d["color"], d["number"]) + i for i in range(3)]
        w = ctx.conc(d["which"])
        ctx.prove("description decoded", And(color == d["color"], number == d["number"], which == d["which"],
                                             Iff(truth(red), d["red"]), fw == 3))
        hand_k = [k for i, k in enumerate(tk) if i != w]
        ctx.prove("kinds of the hand tiles", same_set([e // 4 for e in exposed], hand_k))
        ctx.prove("kind of the called tile", acquired // 4 == tk[w])
        five_called = d["number"] + w == 4
        ctx.prove("red five on the called side", Iff(And(acquired % 4 == 0, is_five(acquired // 4)),
                                                     And(d["red"], five_called)))
        ctx.prove("red five on the hand side",
                  Iff(Or(*[And(e % 4 == 0, is_five(e // 4)) for e in exposed]), And(d["red"], Not(five_called))))
        return
    k = d["kind"]
    ctx.prove("description decoded", And(the_kind(color, number) == k, 0 <= number, number < 9))
    if kind == "pon":
        ctx.prove("called position, red and direction", And(which == d["which"], Iff(truth(red), d["red"]),
                                                            fw == d["from_who"]))
        ts = exposed + [acquired]
        ctx.prove("three distinct tiles of the kind", And(len(exposed) == 2, *([t // 4 == k for t in ts] +
                  [ts[i] != ts[j] for i in range(len(ts)) for j in range(i)])))
        ctx.prove("red five on the called side", Implies(is_five(k), Iff(acquired % 4 == 0,
                                                                         And(d["red"], d["which"] == 0))))
        ctx.prove("red five on the hand side", Implies(is_five(k), Iff(Or(*[e % 4 == 0 for e in exposed]),
                                                                       And(d["red"], d["which"] == 1))))
    elif kind == "kakan":
        ctx.prove("one added tile of the kind", And(len(exposed) == 1, acquired is None, exposed[0] // 4 == k))
        ctx.prove("direction", fw == 0)
        ctx.prove("red five added exactly when it was not in the pon",
                  Implies(is_five(k), Iff(exposed[0] % 4 == 0, d["which"] == 0)))
        ctx.prove("red flag", Iff(truth(red), is_five(k)))
    elif kind == "minkan":
        ctx.prove("four tiles of the kind", same_set(exposed + [acquired], [k * 4 + i for i in range(4)]))
        ctx.prove("direction", fw == d["from_who"])
        ctx.prove("red five called exactly when described", Implies(is_five(k), Iff(acquired % 4 == 0, d["which"] == 0)))
        ctx.prove("red flag", Iff(truth(red), is_five(k)))
    else:
        ctx.prove("four tiles of the kind", And(acquired is None, same_set(exposed, [k * 4 + i for i in range(4)])))
        ctx.prove("direction", fw == 0)
        ctx.prove("red flag", Iff(truth(red), is_five(k)))


# --------------------------------------------------------------------------- C02
def decode(ctx):
    kind = ctx.params["kind"]
    code, f = any_code(ctx, kind)
    n = ctx.mod(DRAW).Naki(code)
    ctx.cover("code of " + kind)
    ctx.prove("the logged code is kept", n.naki_code == code)
    prove_kind(ctx, n, kind)
    color, number, which, red, exposed, acquired = pattern(n, kind)
    hand, called = spec_tiles(ctx, kind, f)
    ge, ga = n.get_exposed()
    for nm, e, a in (("pattern", exposed, acquired), ("get_exposed", ge, ga)):
        ctx.prove(nm + ": hand tiles", same_set(list(e), hand))
        ctx.prove(nm + ": called tile", (a is None) if called is None else And(a is not None, a == called) if a is not None else False)
    k = f["kind"] if kind != "chi" else the_kind(f["color"], f["number"])
    ctx.prove("suit and number", And(the_kind(color, number) == k, 0 <= number, number < 9,
                                     *( [number == f["number"], color == f["color"]] if kind == "chi" else [])))
    if kind in ("chi", "pon"):
        ctx.prove("called position", which == f["which"])
    ctx.prove("red flag", Iff(truth(red), f["red"]))
    ctx.prove("direction", n.from_who() == f["from_who"])


# --------------------------------------------------------------------------- C03
def canonical(ctx):
    kind = ctx.params["kind"]
    code, f = any_code(ctx, kind)
    n = ctx.mod(DRAW).Naki(code)
    d = description_of(kind, f)
    ref = construct(ctx, kind, d)
    ctx.cover("canonical " + kind)
    ctx.prove("canonical code equals the constructed call of the same choice",
              n.convenient_naki_code == ref.naki_code)
    ctx.prove("the logged code is kept", n.naki_code == code)


def canonical_idem(ctx):
    kind = ctx.params["kind"]
    d = any_description(ctx, kind)
    ref = construct(ctx, kind, d)
    ctx.cover("constructed " + kind)
    ctx.prove("a constructed call is its own canonical form", ref.convenient_naki_code == ref.naki_code)
    again = ctx.mod(DRAW).Naki(ref.naki_code)
    ctx.prove("canonicalising a canonical code changes nothing", again.convenient_naki_code == ref.naki_code)


def same_description(k1, d1, k2, d2):
    if k1 != k2:
        return False
    return And(*[(Iff(d1[x], d2[x]) if x == "red" else d1[x] == d2[x]) for x in d1])


def canonical_injective(ctx):
    k1, k2 = ctx.params["kinds"]
    d1, d2 = any_description(ctx, k1, "1"), any_description(ctx, k2, "2")
    n1, n2 = construct(ctx, k1, d1), construct(ctx, k2, d2)
    ctx.cover("pair")
    ctx.prove("canonical codes coincide exactly for the same choice",
              Iff(n1.naki_code == n2.naki_code, same_description(k1, d1, k2, d2)))


# --------------------------------------------------------------------------- C04
def index_of(n, kind):
    if kind in ("kakan", "ankan"):
        return n.get_during_turn_filter_idx()
    return n.get_post_turn_filter_idx()


def index_range(ctx):
    kind = ctx.params["kind"]
    code, f = any_code(ctx, kind)
    n = ctx.mod(DRAW).Naki(code)
    ctx.cover("logged " + kind)
    i = index_of(n, kind)
    if kind in ("kakan", "ankan"):
        ctx.prove("own-turn number in 3..70", And(i >= 3, i <= 70))
    else:
        ctx.prove("reaction number in 2..153", And(i >= 2, i <= 153))
    d = description_of(kind, f)
    if "from_who" in d:
        d = dict(d, from_who=ctx.int("other_seat", 1, 3))
    ref = construct(ctx, kind, d)
    ctx.prove("number independent of interchangeable copies and seat", i == index_of(ref, kind))


def hand_side(kind, d):
    """What is spent from the hand / called, up to interchangeable copies."""
    if kind == "chi":
        return [d["color"], d["number"], d["which"], b2i(And(d["red"], d["number"] + d["which"] != 4))]
    if kind == "pon":
        return [d["kind"], b2i(And(d["red"], d["which"] == 1))]
    return [d["kind"]]


def index_injective(ctx):
    k1, k2 = ctx.params["kinds"]
    d1, d2 = any_description(ctx, k1, "1"), any_description(ctx, k2, "2")
    n1, n2 = construct(ctx, k1, d1), construct(ctx, k2, d2)
    i1, i2 = index_of(n1, k1), index_of(n2, k2)
    ctx.cover("pair")
    same = And(*[a == b for a, b in zip(hand_side(k1, d1), hand_side(k2, d2))]) if k1 == k2 else False
    ctx.prove("same number exactly for the same choice", Iff(i1 == i2, same))


def index_rejects(ctx):
    kind = ctx.params["kind"]
    code, f = any_code(ctx, kind)
    n = ctx.mod(DRAW).Naki(code)
    ctx.cover("wrong table " + kind)
    try:
        if kind in ("kakan", "ankan"):
            n.get_post_turn_filter_idx()
        else:
            n.get_during_turn_filter_idx()
    except Exception:
        ctx.prove("number of the wrong table is rejected", True)
        return
    ctx.prove("number of the wrong table is rejected", False)


# --------------------------------------------------------------------------- C05
PX = "MahjongAI.process_xml"
CONST = "MahjongAI.utils.constants"


def fields(t):
    return {"state": t >> 13, "type": (t >> 10) & 7, "who": (t >> 8) & 3, "flag": (t >> 7) & 1, "tile": t & 127,
            "num": t & 255}


def token_constants(ctx):
    c = ctx.mod(CONST)
    st = [c.EventStateTypes.DISCARD, c.EventStateTypes.DURING, c.EventStateTypes.POST, c.EventStateTypes.NEW_DORA]
    ty = [c.EventTypes.DISCARD, c.EventTypes.NAKI, c.EventTypes.RIICHI, c.EventTypes.NEW_DORA]
    ctx.prove("event classes distinct, non-empty, below 8",
              len(set(st)) == 4 and all(1 <= x <= 7 for x in st) and c.EventStateTypes.EMPTY == 0)
    ctx.prove("event kinds distinct, non-empty, below 8",
              len(set(ty)) == 4 and all(1 <= x <= 7 for x in ty) and c.EventTypes.EMPTY == 0)
    ctx.cover("constants")


def token_discard(ctx):
    c, px = ctx.mod(CONST), ctx.mod(PX)
    who, tile, ts = ctx.int("who", 0, 3), ctx.int("tile_idx", 0, 36), ctx.bool("tsumogiri")
    t = px.discard2idx(who, tile, ts)
    ctx.cover("discard")
    f = fields(t)
    ctx.prove("discard token decodes", And(f["state"] == c.EventStateTypes.DISCARD, f["type"] == c.EventTypes.DISCARD,
              f["who"] == who, f["flag"] == b2i(ts), f["tile"] == tile, t > 0, t < (1 << 17)))


def token_simple(ctx):
    c, px = ctx.mod(CONST), ctx.mod(PX)
    who, tile = ctx.int("who", 0, 3), ctx.int("tile_idx", 0, 36)
    t = px.reach2idx(who)
    ctx.cover("riichi")
    f = fields(t)
    ctx.prove("riichi token decodes", And(f["state"] == c.EventStateTypes.DURING, f["type"] == c.EventTypes.RIICHI,
              f["who"] == who, t > 0, t < (1 << 17)))
    t = px.new_dora2idx(tile)
    f = fields(t)
    ctx.prove("dora token decodes", And(f["state"] == c.EventStateTypes.NEW_DORA, f["type"] == c.EventTypes.NEW_DORA,
              f["tile"] == tile, t > 0, t < (1 << 17)))


def token_naki(ctx):
    c, px = ctx.mod(CONST), ctx.mod(PX)
    kind = ctx.params["kind"]
    who = ctx.int("who", 0, 3)
    code, _f = any_code(ctx, kind)
    n = ctx.mod(DRAW).Naki(code)
    t = px.naki2idx(who, n)
    ctx.cover("call token " + kind)
    f = fields(t)
    st = c.EventStateTypes.DURING if kind in ("kakan", "ankan") else c.EventStateTypes.POST
    ctx.prove("call token decodes", And(f["state"] == st, f["type"] == c.EventTypes.NAKI, f["who"] == who,
              f["num"] == index_of(n, kind), t > 0, t < (1 << 17)))


_k = [{"kind": k} for k in KINDS]
_pairs = [{"kinds": [a, b]} for i, a in enumerate(KINDS) for b in KINDS[i:]]
_post = ["chi", "pon", "minkan"]
_own = ["ankan", "kakan"]
_ipairs = [{"kinds": [a, b]} for g in (_post, _own) for i, a in enumerate(g) for b in g[i:]]
_NF = ["draw.Naki." + f for f in
       ("__init__", "from_chi_info", "from_pon_info", "from_kakan_info", "from_minkan_info", "from_ankan_info",
        "from_who", "is_chi", "is_pon", "is_kakan", "is_minkan", "is_ankan", "pattern_chi", "pattern_pon",
        "pattern_kakan", "pattern_minkan", "pattern_ankan", "get_exposed")]
_CF = ["draw.Naki." + f for f in ("_clean", "_clean_chi", "_clean_pon", "_clean_kakan", "_clean_minkan", "_clean_ankan")]
_IF = ["draw.Naki.get_during_turn_filter_idx", "draw.Naki.get_post_turn_filter_idx"]

UNITS = [
    Unit("naki.roundtrip", roundtrip, "bv", _k, covers=["description of " + k for k in KINDS], functions=_NF, exhaustive=3000),
    Unit("naki.decode", decode, "bv", _k, covers=["code of " + k for k in KINDS], functions=_NF + _CF, exhaustive=5000),
    Unit("naki.canonical", canonical, "bv", _k, covers=["canonical " + k for k in KINDS], functions=_CF, exhaustive=5000),
    Unit("naki.canonical_idem", canonical_idem, "bv", _k, covers=["constructed " + k for k in KINDS], functions=_CF, exhaustive=3000),
    Unit("naki.canonical_injective", canonical_injective, "bv", _pairs, covers=["pair"], functions=_NF, search=3000),
    Unit("naki.index_range", index_range, "bv", _k, covers=["logged " + k for k in KINDS], functions=_IF, exhaustive=15000),
    Unit("naki.index_injective", index_injective, "bv", _ipairs, covers=["pair"], functions=_IF, exhaustive=20000, search=3000),
    Unit("naki.index_rejects", index_rejects, "bv", _k, covers=["wrong table " + k for k in KINDS], functions=_IF),
    Unit("token.constants", token_constants, "bv", covers=["constants"], functions=["constants.EventTypes", "constants.EventStateTypes"], env="process", smoke=1, search=1),
    Unit("token.discard", token_discard, "bv", covers=["discard"], functions=["process_xml.discard2idx"], env="process", exhaustive=3000),
    Unit("token.simple", token_simple, "bv", covers=["riichi"], functions=["process_xml.reach2idx", "process_xml.new_dora2idx"], env="process", exhaustive=1000),
    Unit("token.naki", token_naki, "bv", _k, covers=["call token " + k for k in KINDS], functions=["process_xml.naki2idx"], env="process", exhaustive=5000),
]
PROPS = {
    "C01": ["naki.roundtrip"],
    "C02": ["naki.decode"],
    "C03": ["naki.canonical", "naki.canonical_idem", "naki.canonical_injective"],
    "C04": ["naki.index_range", "naki.index_injective", "naki.index_rejects"],
    "C05": ["token.constants", "token.discard", "token.simple", "token.naki", "naki.index_injective", "naki.index_range"],
}
INFO = {p: {"assumptions": ["Python integers are mathematical; the 28-bit vectors used are proved wide enough by interval analysis"]} for p in PROPS}
