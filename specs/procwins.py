"""C14: the true situation handed to the rules calculator, and the calculator's question itself.

Inside process() (called from specs/proc.py): at every draw, discard and added kan evaluate_tsumo / evaluate_ron
get the state of the game after the event, and exactly what they return is recorded as win options.
In utils/agari.py: for arbitrary arguments, the calculator is asked about exactly the tiles, melds, indicators and
flags given, and its answer decides."""
from pv.ops import *

AG = "MahjongAI.utils.agari"


def _b(x):
    if x is None or isinstance(x, str):
        raise Unsupported("a flag that is not a truth value")
    return x if isinstance(x, (bool, SymBool)) else x != 0


# --------------------------------------------------------------------------- inside process()
def the_call(step, calls, what, n=1):
    if len(calls) > n:
        raise Unsupported("a win is looked for several times")
    step.ctx.prove(f"{step.ev}: {what}", len(calls) == n)
    return calls[0]


def need(a, *names):
    for n in names:
        if n not in a:
            raise Unsupported("the win evaluation has other parameters")
    return [a[n] for n in names]


def vec(a, n, size=4):
    shape, cells = a[n]
    if shape != (size,):
        raise Unsupported(f"shape of {n}")
    return cells


def situation(step, a, g, who, tile, tile_arg):
    """what both evaluations are told; g: the state they must describe; who: the players it is read for"""
    from specs.proc import cell_eq, same_list
    ctx, ev = step.ctx, step.ev
    need(a, "player", "hand_tensors_full", "naki_list", tile_arg, "doras", "reaches", "ippatsu", "double_reaches", "player_wind", "round_wind")
    ctx.prove(f"{ev}: whose win", a["player"] == step.p)
    shape, cells = a["hand_tensors_full"]
    if shape != (4, 37):
        raise Unsupported("shape of the hands")
    ctx.prove_all(f"{ev}: tiles of the hands evaluated", [(f"{q}:{k}", cell_eq(cells[37 * q + k], g.count("full", q, k))) for q in who for k in range(37)])
    ctx.prove(f"{ev}: melds evaluated", len(a["naki_list"]) == 4 and And(*[same_list(a["naki_list"][q], g.melds[q]) for q in who]))
    ctx.prove(f"{ev}: winning tile", a[tile_arg] == tile)
    ctx.prove(f"{ev}: dora indicators", same_list(a["doras"], g.doras))
    for n, vals in (("reaches", g.reach), ("double_reaches", g.dreach), ("ippatsu", g.ippatsu)):
        c = vec(a, n)
        ctx.prove(f"{ev}: {n}", And(*[Iff(_b(c[q]), vals[q] == 1) for q in who]))
    ctx.prove(f"{ev}: winds", And(a["player_wind"] % 4 == step.round % 4, a["round_wind"] == step.round // 4))


def flag(step, a, n, exp):
    need(a, n)
    step.ctx.prove(f"{step.ev}: {n}", Iff(_b(a[n]), exp))


def draw(step, x):
    ctx, g, g2, p = step.ctx, step.g, step.g2, step.p
    a = the_call(step, step.tsumo_calls, "a win from the draw is looked for once")
    situation(step, a, g2, [p], step.t, "tsumo_tile")
    kan = g.phase == "kan"
    flag(step, a, "is_rinshan", kan)
    flag(step, a, "is_haitei", And(g2.draws == 70, Not(kan)))
    flag(step, a, "is_tenhou", And(g.calls == 0, g2.draws == 1))
    flag(step, a, "is_chiihou", And(g.calls == 0, g2.draws >= 2, g2.draws <= 4))
    got = x.decisions[0]
    ctx.prove("draw: exactly the win found is offered", _items(got, step.tsumos))


def _items(got, exp):
    if hasattr(got, "__symlen__"):
        raise Unsupported("win options kept in another form")
    return isinstance(got, list) and len(got) == len(exp) and all(a is b for a, b in zip(got, exp))


def rons_placed(step, x):
    ctx = step.ctx
    ctx.prove(f"{step.ev}: four groups of options", len(x.decisions) == 4)
    for q in range(4):
        exp = [step.rons[q]] if step.rons[q] is not None else []
        ctx.prove(f"{step.ev}: exactly the wins found are offered, each to its player", _items(x.decisions[q][0], exp), q)


def reactions(step, x, tile, chankan):
    ctx, g, g2, p = step.ctx, step.g, step.g2, step.p
    a = the_call(step, step.ron_calls, "a win on the tile is looked for once")
    others = [q for q in range(4) if q != p]
    situation(step, a, g2, others, tile, "discarded_tile")
    need(a, "sutehai_tensor", "is_renhou")
    from specs.proc import cell_eq
    shape, cells = a["sutehai_tensor"]
    if shape != (4, 37):
        raise Unsupported("shape of the rivers")
    ctx.prove_all(f"{step.ev}: rivers of the other players", [(f"{q}:{k}", cell_eq(cells[37 * q + k], g2.river[q][k])) for q in others for k in range(37)])
    flag(step, a, "is_chankan", chankan)
    flag(step, a, "is_haitei", False if chankan else g.draws == 70)
    c = vec(a, "is_renhou")
    ctx.prove(f"{step.ev}: is_renhou", And(*[Iff(_b(c[q]), False if chankan else And(g.calls == 0, (q - step.oya) % 4 >= g.draws)) for q in others]))
    rons_placed(step, x)


def discard(step, x):
    reactions(step, x, step.t, False)


def chankan(step, x):
    reactions(step, x, step.ts[0], True)


# --------------------------------------------------------------------------- utils/agari.py
class Text:
    """One of the four strings describing a hand (contract of hand_tensor2strs)."""

    def __init__(self, suit, cells):
        self.suit, self.cells = suit, cells


class TileList:
    """The tiles of a hand as ids (contract of the library's TilesConverter): known by their kinds."""

    def __init__(self, cells, win_kind):
        self.cells, self.win_kind = cells, win_kind

    def tile(self, name):
        from pv import sym
        c = sym.ctx()
        n = c.tags["ntile"] = c.tags.get("ntile", 0) + 1
        t = c.int(f"{name}{n}", 0, 135)
        c.tags.setdefault("in_hand", []).append((t, self))
        return t

    def __iter__(self):
        from pv import sym
        c = sym.ctx()
        if c.choose(2) == 0:
            yield self.tile("tile_of_hand")
            raise PathEnd               # asked for the next one: same as the first
        t = self.tile("win_copy")
        c.assume(t // 4 == self.win_kind)
        yield t
        raise Unsupported("a copy of the winning kind is not accepted as the winning tile")

    def __contains__(self, t):
        raise Unsupported("membership in the tiles of a hand")


TYPES = ("chi", "pon", "kakan", "minkan", "ankan")
OPTS = dict(has_open_tanyao=True, has_aka_dora=True, has_double_yakuman=True, kazoe_limit=13, kiriage=False, fu_for_open_pinfu=True,
            fu_for_pinfu_tsumo=False, renhou_as_yakuman=False, has_daisharin=False, has_daisharin_other_suits=False,
            has_sashikomi_yakuman=False, limit_to_sextuple_yakuman=True, paarenchan_needs_yaku=False, has_daichisei=False)
# what the calculator's classes take when the argument is left out (mahjong 2.1.0)
OPT_DEFAULTS = dict(has_open_tanyao=False, has_aka_dora=False, has_double_yakuman=True, kazoe_limit=13, kiriage=False, fu_for_open_pinfu=True,
                    fu_for_pinfu_tsumo=False, renhou_as_yakuman=False, has_daisharin=False, has_daisharin_other_suits=False,
                    has_sashikomi_yakuman=False, limit_to_sextuple_yakuman=True, paarenchan_needs_yaku=True, has_daichisei=False)
FLAGS = ("is_tsumo", "is_riichi", "is_ippatsu", "is_rinshan", "is_chankan", "is_haitei", "is_houtei", "is_daburu_riichi", "is_nagashi_mangan",
         "is_tenhou", "is_renhou", "is_chiihou", "is_open_riichi")


class Evaluation:
    def __init__(self, ctx, tsumo):
        from pv import npshim, focus
        self.ctx, self.tsumo = ctx, tsumo
        ag = self.ag = ctx.mod(AG)
        self.Naki = ctx.mod("MahjongAI.draw").Naki
        self.p = ctx.params["p"]
        self.hands = [[ctx.int(f"h{q}_{k}", 0, 4 if k < 34 else 1) for k in range(37)] for q in range(4)]
        for q in range(4):
            for c in range(3):
                ctx.assume(self.hands[q][34 + c] <= self.hands[q][9 * c + 4])
        self.t = ctx.int("tile", 0, 135)
        if tsumo:
            for k in range(34):
                ctx.assume(Implies(self.t // 4 == k, self.hands[self.p][k] >= 1))
        else:
            # the tile is not in these hands: there are four of a kind, and one red five of a suit
            for q in range(4):
                for k in range(34):
                    ctx.assume(Implies(self.t // 4 == k, self.hands[q][k] <= 3))
                for c, r in enumerate((16, 52, 88)):
                    ctx.assume(Implies(self.t == r, self.hands[q][34 + c] == 0))
        self.river = [[ctx.int(f"r{q}_{k}", 0, 1) for k in range(37)] for q in range(4)]
        mk = lambda n: [ctx.int(f"{n}{q}", 0, 1) for q in range(4)]
        self.reach, self.ippatsu, self.dreach, self.renhou = mk("reach"), mk("ippatsu"), mk("dreach"), mk("renhou")
        self.wind, self.round_wind = ctx.int("player_wind", 0, 3), ctx.int("round_wind", 0, 3)
        self.flags = {n: ctx.bool(n) for n in ("is_haitei",) + (("is_rinshan", "is_tenhou", "is_chiihou") if tsumo else ("is_chankan",))}
        from pv.cut import GhostList
        self.doras = GhostList("doras", ctx.int("ndora", 1, 5))
        self.current = None
        self.nakis = [focus.AnyList(("melds", q), ctx.int(f"nmelds{q}", 0, 4), key=("melds", q), element=lambda q=q: self.meld(q),
                                    after=lambda m, app, f, q=q: self.after(m, app)) for q in range(4)]
        self.asked = []
        ctx.tags["string_to_136_array"] = self.to_tiles
        ctx.tags["estimate_hand_value"] = self.answer
        self.texts = []
        ctx.patch(ag, "hand_tensor2strs", self.strs)
        self.harr = [npshim.sarr(list(h)) for h in self.hands]
        self.rarr = npshim.sarr([list(r) for r in self.river])

    # ---- contracts of callees
    def strs(self, tensor, *a, **k):
        from specs.proc import flat
        shape, cells = flat(tensor)
        if shape != (37,) or a or k:
            raise Unsupported("another form of hand")
        return tuple(Text(s, cells) for s in range(4))

    def to_tiles(self, *a, **k):
        names = ("sou", "pin", "man", "honors", "has_aka_dora")       # the library's order
        k = dict(zip(names, a), **k)
        if set(k) - set(names):
            raise Unsupported("another call of the tile converter")
        txt = [k.get(n) for n in ("man", "pin", "sou", "honors")]
        self.ctx.prove("the hand is spelt suit by suit", all(isinstance(x, Text) and x.suit == i for i, x in enumerate(txt)) and
                       all(x.cells is txt[0].cells for x in txt), [getattr(x, "suit", x) for x in txt])
        self.ctx.prove("red fives are spelt as red", _b(k.get("has_aka_dora", False)))
        return TileList(txt[0].cells, self.t // 4)

    def answer(self, *a, **k):
        names = ("tiles", "win_tile", "melds", "dora_indicators", "config", "scores_calculator_factory", "use_hand_divider_cache", "ura_dora_indicators")
        d = dict(zip(names, a), **k)
        if set(d) - set(names[:5]):
            raise Unsupported("another call of the calculator")
        no = bool(self.ctx.bool(f"refused{len(self.asked)}"))
        self.asked.append((d, no))
        d["melds"] = self.keep(d.get("melds"))

        class Response:
            error = "no_yaku" if no else None

            def __getattr__(s, n):
                raise Unsupported(f"HandResponse.{n}")
        return Response()

    def keep(self, m):
        return m.copy() if hasattr(m, "copy") else m

    # ---- an arbitrary meld (contract of Naki: C01-C03) and what becomes of it
    def meld(self, q):
        ctx = self.ctx
        n = ctx.tags["nmeld"] = ctx.tags.get("nmeld", 0) + 1
        E = self
        typ, kind, red = ctx.int(f"type{n}", 0, 4), ctx.int(f"kind{n}", 0, 33), ctx.bool(f"red{n}")
        ctx.assume(Implies(typ == 0, And(kind <= 24, kind % 9 <= 6)))
        fives = Or(*[kind == k for k in (4, 13, 22)])
        in_chi = Or(*[And(kind >= 9 * c + 2, kind <= 9 * c + 4) for c in range(3)])
        # chi and pon may hold the red five; a kan always does when it is of fives
        ctx.assume(Implies(red, ite(typ == 0, in_chi, fives)))
        ctx.assume(Implies(And(typ >= 2, fives), red))

        def pat(i):
            def f(s):
                ctx.assume(typ == i)
                rest = [cut_poison("position"), red, cut_poison("exposed"), cut_poison("acquired")]
                return (kind // 9, kind % 9, *rest)
            return f

        class Stub(E.Naki):
            def __init__(s):
                pass
        for i, nm in enumerate(TYPES):
            setattr(Stub, "is_" + nm, lambda s, i=i: typ == i)
            setattr(Stub, "pattern_" + nm, pat(i))
        Stub.__module__, Stub.__name__ = E.Naki.__module__, "Naki"
        o = Stub()
        o.naki_code = ctx.int(f"code{n}", 0, 65535)
        o.convenient_naki_code = o.naki_code
        self.m = (typ, kind, red)
        return o

    def after(self, m, app):
        ctx = self.ctx
        typ, kind, red = self.m
        ctx.prove("each meld is told to the calculator once", len(app) == 1 and all(len(v) == 1 for v in app.values()))
        x = list(app.values())[0][0]
        if type(x).__name__ != "Meld":
            raise Unsupported("another form of meld")
        name = x.type
        ts = list(x.tiles)
        ok = Or(And(typ == 0, name == x.CHI), And(typ == 1, name == x.PON), And(Or(typ == 2, typ == 3, typ == 4), name in (x.KAN, x.SHOUMINKAN)))
        ctx.prove("kind of meld", ok)
        ctx.prove("a closed kan stays closed, anything else is open", Iff(_b(x.opened), Not(typ == 4)))
        n = ite(Or(typ == 0, typ == 1), 3, 4)
        ctx.prove("number of tiles of a meld", n == len(ts))
        kinds = [t // 4 for t in ts]
        ctx.prove("kinds of a meld", And(*[kinds[i] == ite(typ == 0, kind + i, kind) for i in range(len(ts))]))
        ctx.prove("copies of a meld are different tiles", And(*[Not(ts[i] == ts[j]) for i in range(len(ts)) for j in range(i)]))
        ctx.prove("a meld shows its red five, and only then one", Iff(red, Or(*[t == r for t in ts for r in (16, 52, 88)])))

    # ---- the question
    def run(self):
        ctx, ag = self.ctx, self.ag
        common = dict(player=self.p, hand_tensors_full=self.harr, naki_list=self.nakis, doras=self.doras, reaches=list(self.reach),
                      ippatsu=list(self.ippatsu), double_reaches=list(self.dreach), player_wind=self.wind, round_wind=self.round_wind,
                      kyotaku=ctx.int("kyotaku", 0, None), honba=ctx.int("honba", 0, None), is_haitei=self.flags["is_haitei"])
        Agari = ctx.mod("MahjongAI.decision").AgariDecision
        from pv import focus
        lists = {n: focus.snap(common[n]) for n in ("reaches", "ippatsu", "double_reaches", "naki_list", "doras")}
        if self.tsumo:
            out = ag.evaluate_tsumo(tsumo_tile=self.t, is_rinshan=self.flags["is_rinshan"], is_tenhou=self.flags["is_tenhou"],
                                    is_chiihou=self.flags["is_chiihou"], **common)
            self.check(0, self.p, out)
            ok = len(self.asked) == 1
            ctx.prove("the calculator is asked once", ok)
            no = self.asked[0][1]
            ctx.prove("a win is offered exactly when the calculator accepts", isinstance(out, list) and len(out) == (0 if no else 1) and
                      all(type(o).__name__ == "AgariDecision" and o.player == self.p for o in out))
            ctx.prove("the win offered is not marked", all(o.executed is False for o in out))
            ctx.cover("accepted" if not no else "refused")
        else:
            renhou = list(self.renhou)
            out = ag.evaluate_ron(sutehai_tensor=self.rarr, discarded_tile=self.t, is_chankan=self.flags["is_chankan"], is_renhou=renhou, **common)
            ctx.prove("one answer per player", isinstance(out, list) and len(out) == 4)
            i = 0
            for q in range(4):
                if q == self.p:
                    ctx.prove("the discarder is offered nothing", out[q] is None)
                    continue
                fur = Or(*[And(self.t // 4 == k, self.river[q][k] == 1) for k in range(34)])
                if i < len(self.asked) and self.about(i, q):
                    no = self.asked[i][1]
                    ctx.prove("who discarded the winning kind is not asked about", Not(fur))
                    self.check(i, q, out)
                    o = out[q]
                    ctx.prove("a ron is offered exactly when the calculator accepts", (o is None) if no else
                              (type(o).__name__ == "AgariDecision" and o.player == q))
                    ctx.prove("the win offered is not marked", o is None or o.executed is False)
                    ctx.cover("accepted" if not no else "refused")
                    i += 1
                else:
                    ctx.prove("only who discarded the winning kind is not asked about", fur)
                    ctx.prove("who discarded the winning kind is offered nothing", out[q] is None)
                    ctx.cover("furiten")
            ctx.prove("the calculator is asked once per player", i == len(self.asked))
            ctx.prove("rivers unchanged", all(a is b for a, b in zip([c for r in self.river for c in r], list(self.rarr.reshape(-1)))))
        # frame
        ctx.prove_all("the evaluation leaves every hand unchanged", [(f"{q}:{k}", a == b) for q in range(4)
                                                                      for k, (a, b) in enumerate(zip(self.hands[q], list(self.harr[q])))])
        ctx.prove("flags, melds and indicators unchanged", all(focus.same(b, focus.snap(common[n])) for n, b in lists.items()))

    def about(self, i, q):
        """is the i-th question about player q (the melds tell)"""
        d = self.asked[i][0]
        m = d["melds"]
        tr = m.full_trail() if hasattr(m, "full_trail") else [("item", x) for x in (m or [])]
        return ("loop", ("melds", q)) in tr

    def check(self, i, q, out):
        ctx = self.ctx
        d = self.asked[i][0]
        tiles = d.get("tiles")
        if not isinstance(tiles, TileList):
            raise Unsupported("the tiles asked about are made in another way")
        add = 0 if self.tsumo else 1

        def exp(k):
            if k < 34:
                return self.hands[q][k] + add * b2i(self.t // 4 == k)
            return self.hands[q][k] + add * b2i(self.t == (16, 52, 88)[k - 34])
        ctx.prove_all("the tiles asked about are the hand with the winning tile", [(str(k), c == exp(k)) for k, c in enumerate(tiles.cells)])
        w = d.get("win_tile")
        src = [h for t, h in ctx.tags.get("in_hand", []) if t is w]
        if not src:
            raise Unsupported("the winning tile is made in another way")
        ctx.prove("the winning tile is one of the hand's copies of that kind", src[0] is tiles and w // 4 == self.t // 4)
        m = d["melds"]
        tr = m.full_trail() if hasattr(m, "full_trail") else [("item", x) for x in (m or [])]
        ctx.prove("the melds asked about are exactly the player's", tr == [("loop", ("melds", q))], tr)
        from specs.proc import same_list
        ctx.prove("the dora indicators asked about", same_list(d.get("dora_indicators"), self.doras))
        c = d.get("config")
        if type(c).__name__ != "HandConfig" or c.args:
            raise Unsupported("another form of configuration")
        kw = dict(c.kw)
        e = {n: False for n in FLAGS}
        e["is_tsumo"] = self.tsumo
        e["is_riichi"], e["is_ippatsu"], e["is_daburu_riichi"] = self.reach[q] == 1, self.ippatsu[q] == 1, self.dreach[q] == 1
        if self.tsumo:
            e["is_haitei"], e["is_rinshan"] = self.flags["is_haitei"], self.flags["is_rinshan"]
            e["is_tenhou"], e["is_chiihou"] = self.flags["is_tenhou"], self.flags["is_chiihou"]
        else:
            e["is_houtei"], e["is_chankan"], e["is_renhou"] = self.flags["is_haitei"], self.flags["is_chankan"], self.renhou[q] == 1
        for n in FLAGS:
            ctx.prove("situation: " + n, Iff(_b(kw.pop(n, False)), e[n]), n)
        ctx.prove("situation: seat wind", kw.pop("player_wind", -1) == 27 + (q - self.wind) % 4)
        ctx.prove("situation: round wind", kw.pop("round_wind", -1) == 27 + self.round_wind)
        o = kw.pop("options", None)
        okw = dict(OPT_DEFAULTS, **o.kw) if o is not None and not o.args else None
        ctx.prove("situation: rules", okw == OPTS, okw)
        for n in ("kyoutaku_number", "tsumi_number", "paarenchan"):
            kw.pop(n, None)
        if kw:
            raise Unsupported(f"configuration fields {sorted(kw)}")


def cut_poison(n):
    from pv import cut
    return cut.Poison(n)


def tsumo_unit(ctx):
    Evaluation(ctx, True).run()


def ron_unit(ctx):
    Evaluation(ctx, False).run()


# --------------------------------------------------------------------------- hand_tensor2strs
def strs_unit(ctx):
    """The four strings spell the hand: each digit as often as the hand holds the tile, the red five as 0."""
    from pv import npshim, runs
    ag = ctx.mod(AG)
    ctx.tags["runs"] = True
    h = [ctx.int(f"h{k}", 0, 4 if k < 34 else 1) for k in range(37)]
    for c in range(3):
        ctx.assume(h[34 + c] <= h[9 * c + 4])
    arr = npshim.sarr(list(h))
    out = ag.hand_tensor2strs(arr)
    ctx.prove("four strings", len(out) == 4)
    for s in range(4):
        n = 9 if s < 3 else 7
        got = runs.counts(out[s])
        if got is None:
            raise Unsupported("a string built another way")
        ctx.prove("only digits of tiles", set(got) <= {str(d) for d in range(0, n + 1)}, sorted(got))
        for d in range(n + 1):
            if d == 0:
                exp = h[34 + s] if s < 3 else 0
            else:
                exp = h[9 * s + d - 1] - (h[34 + s] if s < 3 and d == 5 else 0)
            ctx.prove("each tile is spelt as often as it is held", got.get(str(d), 0) == exp, (s, d))
    ctx.prove("the hand is unchanged", all(a is b for a, b in zip(h, list(arr))))
    ctx.cover("spelt")


def _native_strs(ctx):
    import numpy as np
    ag = ctx.mod(AG)
    h = [ctx.int(f"h{k}", 0, 4 if k < 34 else 1) for k in range(37)]
    for c in range(3):
        ctx.assume(h[34 + c] <= h[9 * c + 4])
    arr = np.array(h, dtype=np.float32)
    out = ag.hand_tensor2strs(arr)
    for s in range(4):
        n = 9 if s < 3 else 7
        for d in range(n + 1):
            exp = (h[34 + s] if s < 3 else 0) if d == 0 else h[9 * s + d - 1] - (h[34 + s] if s < 3 and d == 5 else 0)
            ctx.prove("each tile is spelt as often as it is held", out[s].count(str(d)) == exp, (s, d))
    ctx.prove("the hand is unchanged", arr.tolist() == [float(x) for x in h])


_P4 = [{"p": p} for p in range(4)]
UNITS = [
    Unit("agari.tsumo", tsumo_unit, "int", _P4, env="agari", native=False, replayable=False, functions=["agari.evaluate_tsumo"],
         covers=["accepted", "refused"], heavy=6),
    Unit("agari.ron", ron_unit, "int", _P4, env="agari", native=False, replayable=False, functions=["agari.evaluate_ron"],
         covers=["accepted", "refused", "furiten"], heavy=9),
    Unit("agari.spelling", strs_unit, "int", env="agari", native_fn=_native_strs, functions=["agari.hand_tensor2strs"], covers=["spelt"], heavy=3),
]
PROPS = {"C14": ["agari.tsumo", "agari.ron", "agari.spelling"]}
INFO = {}
