"""C07-C12, C14 (and the part of C06/C08 inside process()): the log processor against an independent tracker."""
from pv.ops import *
from specs import gamelog as GL

PX = "MahjongAI.process_xml"
DRAW = "MahjongAI.draw"
_rules = []


def rules():
    if not _rules:
        _rules.append(GL.Rules())
    return _rules[0]


# --------------------------------------------------------------------------- concrete runs of process()
def run_process(ctx, xml):
    import os
    import tempfile
    fd, path = tempfile.mkstemp(suffix=".xml")
    os.write(fd, xml.encode())
    os.close(fd)
    try:
        return ctx.mod(PX).process(path)
    finally:
        os.unlink(path)


def nums(a):
    import numpy as np
    return np.asarray(a, dtype=float).tolist()


def plain_state(s):
    """the recorded state as plain data"""
    return {"player": int(s.player), "hand_tensor": nums(s.hand_tensor), "remaining_tiles_pov": nums(s.remaining_tiles_pov),
            "sutehai_tensors": nums(s.sutehai_tensors), "is_menzen": nums(s.is_menzen), "double_reaches": nums(s.double_reaches),
            "reaches": nums(s.reaches), "ippatsu": nums(s.ippatsu), "melds": [[int(m.naki_code) for m in ms] for ms in s.melds],
            "scores": nums(s.scores), "kyotaku": int(s.kyotaku), "honba": int(s.honba), "dora": nums(s.dora),
            "parent": nums(s.parent_tensor), "rounds_remaining": int(s.rounds_remaining),
            "parent_rounds_remaining": nums(s.parent_rounds_remaining), "remaining_tsumo": int(s.remaining_tsumo),
            "remaining_turns": int(s.remaining_turns)}


def expected_state(e):
    d = dict(e)
    d["parent"] = [1.0 if i == e["parent"] else 0.0 for i in range(4)]
    d["remaining_turns"] = e["remaining_tsumo"]
    return d


def option_code(ctx, choice):
    """canonical code of a choice, as the library builds it (C01-C04 decide those constructors)"""
    N = ctx.mod(DRAW).Naki
    if choice[0] == "ankan":
        return N.from_ankan_info(choice[1]).naki_code
    if choice[0] == "kakan":
        k = choice[1]
        five = k < 27 and k % 9 == 4
        return N.from_kakan_info(k, int(five and choice[2] is None)).naki_code
    if choice[0] == "pon":
        red = bool(choice[2]) or choice[3] is not None
        return N.from_pon_info(choice[1], 1 if choice[2] else 0, red, choice[4]).naki_code
    if choice[0] == "minkan":
        return N.from_minkan_info(choice[1], choice[3], 0 if choice[2] is not None else 1).naki_code
    ks, called = choice[1], choice[2]
    red = bool(choice[3]) or choice[4] is not None
    return N.from_chi_info(ks[0] // 9, ks[0] % 9, ks.index(called), red).naki_code


def kinds(h):
    return {0: "during", 1: "discard", 2: "post"}[h.type_]


def short(rnd):
    return " ".join(t if t[0] in "TUVWDEFG" and t[1:].isdigit() else t + str(a.get("who", "")) + ":" + str(a.get("m", a.get("step", a.get("hai", ""))))
                    for t, a in rnd.xml[1:])[:1500]


def game(ctx, rounds=None):
    seed = ctx.int("log", 0, 10 ** 9)
    go, rs = GL.random_game(seed, rules(), ctx.int("rounds", 1, 2) if rounds is None else rounds)
    hs, toks = run_process(ctx, GL.to_xml(go, [r.xml for r in rs]))
    ctx.prove("one list per round", len(hs) == len(rs) and len(toks) == len(rs), (len(hs), len(toks), len(rs)))
    return go, rs, hs, toks


def aligned(ctx, label, r, h):
    """the points of one round next to the expected ones; a different sequence is C12's business"""
    if [kinds(x) for x in h] != [e["type"] for e in r.g.points]:
        ctx.assume(False)
    return zip(h, r.g.points)


# ---- C07
def own_turn_options(ctx):
    go, rs, hs, _ = game(ctx)
    for r, h in zip(rs, hs):
        for x, e in aligned(ctx, "C07", r, h):
            if e["type"] != "during":
                continue
            d = x.decisions
            got = [int(o.naki.naki_code) for o in d[2]]
            exp = sorted(option_code(ctx, c) for c in e["naki"])
            ctx.prove("closed and added kans offered", sorted(got) == exp, (got, exp, short(r)))
            ctx.prove("options are canonical", all(o.naki.naki_code == o.naki.convenient_naki_code for o in d[2]))
            ctx.prove("riichi offered exactly when allowed", len(d[1]) == int(e["reach"]), (len(d[1]), e["reach"], e["player"], e["state"], short(r)))
            ctx.prove("options belong to the acting player", all(o.player == e["player"] for lst in d for o in lst) and x.player == e["player"])
    # as created: cut the log right after a draw
    import random
    rng = random.Random(ctx.inputs["log"])
    r = rng.choice(rs)
    draws = [i for i, (t, a) in enumerate(r.xml) if t[0] in "TUVW" and t[1:].isdigit()]
    draws = [i for i in draws if i + 1 < len(r.xml) and (r.xml[i + 1][0] in ("REACH", "N"))] or draws
    i = rng.choice(draws)
    h2, _ = run_process(ctx, GL.to_xml(go, [r.xml[:i + 1] + [r.xml[-1]]]))
    last = h2[0][-1]
    if kinds(last) == "during":
        ctx.prove("no option marked when created", not any(o.executed for lst in last.decisions for o in lst))


# ---- C08
def marks(ctx):
    go, rs, hs, _ = game(ctx)
    for r, h in zip(rs, hs):
        for x, e in aligned(ctx, "C08", r, h):
            if e["type"] == "during":
                exp = []
                if e["taken"]:
                    exp.append((e["player"], option_code(ctx, e["taken"][1])))
                got = [(o.player, int(o.naki.convenient_naki_code)) for o in x.decisions[2] if o.executed]
                ctx.prove("exactly the closed or added kan taken is marked", got == exp, (got, exp, short(r)))
                ctx.prove("riichi marked exactly when declared", [bool(o.executed) for o in x.decisions[1]].count(True) == int(e["reached"]),
                          (e["reached"], short(r)))
                ctx.prove("win options unmarked", not any(o.executed for o in x.decisions[0]))
            elif e["type"] == "post":
                exp = []
                if e["taken"] and e["taken"][1][0] not in ("ankan", "kakan"):
                    exp.append((e["taken"][0], option_code(ctx, e["taken"][1])))
                got = [(o.player, int(o.naki.convenient_naki_code)) for lst in x.decisions for o in lst[2] if o.executed]
                ctx.prove("exactly the call taken is marked", got == exp, (got, exp, short(r)))
                ctx.prove("other options unmarked", not any(o.executed for lst in x.decisions for o in lst[0] + lst[1]))


# ---- C09
def snapshots(ctx):
    import random
    go, rs, hs, _ = game(ctx, 1)
    r, h = rs[0], hs[0]
    rng = random.Random(ctx.inputs["log"] + 1)
    n = len(r.xml)
    cuts = sorted({rng.randint(1, n - 2) for _ in range(4)} | {n - 2}) if n > 3 else [1]
    for j in cuts:
        hj, _ = run_process(ctx, GL.to_xml(go, [r.xml[:j + 1] + [("RYUUKYOKU", {"sc": "0,0,0,0,0,0,0,0", "ba": "0,0"})]]))
        ctx.prove("earlier points are the same", [kinds(x) for x in hj[0]] == [kinds(x) for x in h[:len(hj[0])]])
        for k, (a, b) in enumerate(zip(hj[0], h)):
            if k < len(hj[0]) - 12 and rng.random() < 0.8:
                continue
            pa, pb = plain_state(a.stateObj), plain_state(b.stateObj)
            bad = [f for f in pa if pa[f] != pb[f]]
            ctx.prove("recorded state unchanged by later events", not bad, (j, k, bad, short(r)))


# ---- C10 / C11
C10_FIELDS = ["hand_tensor", "remaining_tiles_pov", "sutehai_tensors", "player"]
C11_FIELDS = ["scores", "kyotaku", "reaches", "double_reaches", "ippatsu", "is_menzen", "melds", "honba", "parent", "rounds_remaining",
              "parent_rounds_remaining", "dora"]


def fields(names, what):
    def f(ctx):
        go, rs, hs, _ = game(ctx)
        for r, h in zip(rs, hs):
            for k, (x, e) in enumerate(aligned(ctx, what, r, h)):
                exp, got = expected_state(e["state"]), plain_state(x.stateObj)
                for n in names:
                    ctx.prove(what + ": " + n, got[n] == exp[n], (k, e["type"], got[n], exp[n], short(r)))
                ctx.prove(what + ": acting seat", x.player == e["player"])
                if e["type"] == "discard":
                    ctx.prove(what + ": discarded tile", x.discarded_tile == e["tile"])
    return f


# ---- C12
def sequence(ctx):
    go, rs, hs, toks = game(ctx)
    N = ctx.mod(DRAW).Naki
    for r, h, tk in zip(rs, hs, toks):
        g = r.g
        ctx.prove("points in log order", [(kinds(x), x.player) for x in h] == [(e["type"], e["player"]) for e in g.points],
                  ([(kinds(x), x.player) for x in h][-8:], [(e["type"], e["player"]) for e in g.points][-8:], short(r)))
        for x, e in zip(h, g.points):
            ctx.prove("tokens preceding the point", x.encoding_idx == e["idx"], (x.encoding_idx, e["idx"], e["type"], short(r)))
            ctx.prove("tiles left to draw", x.stateObj.remaining_tsumo == e["state"]["remaining_tsumo"] and
                      x.stateObj.remaining_turns == e["state"]["remaining_tsumo"])
        exp = []
        for t in g.tokens:
            if t[0] == "reach":
                exp.append(("reach", t[1]))
            elif t[0] == "discard":
                exp.append(t)
            elif t[0] == "dora":
                exp.append(t)
            else:
                n = N(t[2])
                own = t[3] in ("ankan", "kakan")
                exp.append(("naki", t[1], n.get_during_turn_filter_idx() if own else n.get_post_turn_filter_idx(), own))
        got = []
        for v in tk:
            cl, k, who, dr, lo = v >> 13, (v >> 10) & 7, (v >> 8) & 3, (v >> 7) & 1, v & 127
            if (cl, k) == (1, 1):
                got.append(("discard", who, lo, dr))
            elif (cl, k) == (4, 4):
                got.append(("dora", lo))
            elif k == 3:
                got.append(("reach", who))
            else:
                got.append(("naki", who, v & 255, cl == 2))
        ctx.prove("one token per event, in order", got == exp, (got[-6:], exp[-6:], short(r)))


# ---- C14
def win_options(ctx):
    from mahjong.hand_calculating.hand import HandCalculator
    got, rules().questions = [], []
    real = HandCalculator.estimate_hand_value
    plain = isinstance(HandCalculator.__dict__["estimate_hand_value"], staticmethod)
    watching = []

    def watch(*a, **k):
        if watching:
            b = a if plain else a[1:]
            got.append(GL.asked(*b[:5], **{n: v for n, v in k.items() if n in ("tiles", "win_tile", "melds", "dora_indicators", "config")}))
        return real(*a, **k)
    process = ctx.mod(PX).process

    def run(path):
        watching.append(1)
        try:
            return process(path)
        finally:
            watching.pop()
    ctx.patch(HandCalculator, "estimate_hand_value", staticmethod(watch) if plain else watch)
    ctx.patch(ctx.mod(PX), "process", run)
    go, rs, hs, _ = game(ctx)
    exp = rules().questions
    if len(got) == len(exp):             # one question per player who may win: in log order
        for q, e in zip(got, exp):
            for n in q:
                ctx.prove("the calculator is asked about the true situation: " + n, q[n] == e[n], (q, e, [short(r) for r in rs]))
    for r, h in zip(rs, hs):
        for x, e in aligned(ctx, "C14", r, h):
            if e["type"] == "during":
                got = [o.player for o in x.decisions[0]]
                ctx.prove("win from the draw offered exactly when it is one", got == ([e["player"]] if e["win"] else []), (got, e["win"], e["player"], short(r)))
            elif e["type"] == "post":
                got = [(p, o.player) for p, lst in enumerate(x.decisions) for o in lst[0]]
                ctx.prove("ron offered exactly to those who can win", got == [(p, p) for p in sorted(e["win"])], (got, e["win"], short(r)))


# ---- C06 inside process()
def reaction_options(ctx):
    go, rs, hs, _ = game(ctx)
    for r, h in zip(rs, hs):
        for x, e in aligned(ctx, "C06", r, h):
            if e["type"] != "post":
                continue
            for p in range(4):
                got = sorted(int(o.naki.naki_code) for o in x.decisions[p][2])
                exp = sorted(option_code(ctx, c) for c in e["naki"][p])
                ctx.prove("offered calls are the legal calls", got == exp, (p, got, exp, e["player"], short(r)))
                ctx.prove("offered to the right seat", all(o.player == p for o in x.decisions[p][2]))


_FN = ["process_xml.process"]
_B = "random legal logs (1-2 rounds, up to 70 draws each) on the real code, compared with an independent game tracker"


def _u(name, fn, **k):
    return Unit("game." + name, fn, native=True, bounded=_B, functions=_FN, search=100000, **k)


UNITS = [
    _u("own_turn_options", own_turn_options), _u("marks", marks), _u("snapshots", snapshots),
    _u("tiles", fields(C10_FIELDS, "C10")), _u("bookkeeping", fields(C11_FIELDS, "C11")), _u("sequence", sequence),
    _u("win_options", win_options), _u("reaction_options", reaction_options),
]
PROPS = {"C06": ["game.reaction_options"], "C07": ["game.own_turn_options"], "C08": ["game.marks"], "C09": ["game.snapshots"],
         "C10": ["game.tiles"], "C11": ["game.bookkeeping"], "C12": ["game.sequence"], "C14": ["game.win_options"]}
# cross-check of the proofs in specs/proc.py (and the search for a failing input when one of them fails)
INFO = {}
