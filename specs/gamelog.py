"""Independent reference for the log processor: a game tracker (what a legal log means) and a generator of
random legal logs in Tenhou's format.  Used on concrete inputs only (CPython cross-check, bounded stand-ins);
the symbolic contracts of process() are in specs/game.py and use the same definitions."""
import random

REDS = (16, 52, 88)
HAND, MELD, OUT, WALL = 0, 4, 8, 9          # location of a tile: 0..3 concealed, 4..7 melded, 8 public, 9 wall


def is_red(t):
    return t in REDS


def positions(t):
    return [t // 4] + ([34 + t // 36] if t in REDS else [])


def counts(tiles):
    h = [0] * 37
    for t in tiles:
        for i in positions(t):
            h[i] += 1
    return h


# --------------------------------------------------------------------------- Tenhou meld codes
def enc_chi(tiles, called):
    ts = sorted(tiles)
    k = ts[0] // 4
    p = (k // 9 * 7 + k % 9) * 3 + ts.index(called)
    return 3 | 4 | (ts[0] % 4) << 3 | (ts[1] % 4) << 5 | (ts[2] % 4) << 7 | p << 10


def enc_pon(tiles, called, from_who):
    ts = sorted(tiles)
    k = ts[0] // 4
    unused = ({0, 1, 2, 3} - {t % 4 for t in ts}).pop()
    return from_who | 8 | unused << 5 | (k * 3 + ts.index(called)) << 9


def enc_kakan(pon, added):
    return pon & 3 | 16 | (added % 4) << 5 | (pon >> 9) << 9


def enc_minkan(called, from_who):
    return from_who | called << 8


def enc_ankan(t):
    return t << 8


# --------------------------------------------------------------------------- canonical choices
def choice_chi(tiles, called):
    """identity of a chi up to interchangeable copies: kinds, called kind, red on hand side / called side"""
    hand = [t for t in tiles if t != called]
    return ("chi", tuple(sorted(t // 4 for t in tiles)), called // 4, tuple(sorted(t for t in hand if is_red(t))), called if is_red(called) else None)


def choice_pon(tiles, called, from_who):
    hand = [t for t in tiles if t != called]
    return ("pon", called // 4, tuple(sorted(t for t in hand if is_red(t))), called if is_red(called) else None, from_who)


def choice_minkan(called, from_who):
    return ("minkan", called // 4, called if is_red(called) else None, from_who)


def choice_ankan(kind):
    return ("ankan", kind)


def choice_kakan(added):
    return ("kakan", added // 4, added if is_red(added) else None)


class Tracker:
    """The state of one round as a legal log defines it, and what must be recorded."""

    def __init__(self, go, seed, ten, oya, hais, shanten):
        self.n_rounds = 8 if go & 8 else 4
        self.round, self.honba, self.kyotaku = seed[0], seed[1], seed[2]
        self.oya = oya
        self.scores = list(ten)
        self.loc = [WALL] * 136
        for p in range(4):
            for t in hais[p]:
                self.loc[t] = p
        self.doras = [seed[5]]
        self.loc[seed[5]] = OUT
        self.river = [[0] * 37 for _ in range(4)]
        self.reach = [0] * 4
        self.dreach = [0] * 4
        self.ippatsu = [0] * 4
        self.closed = [1] * 4
        self.draws = 0
        self.calls = 0
        self.after_kan = False
        self.melds = [[] for _ in range(4)]          # (kind, tiles, called, from_who, code, choice)
        self.points = []                             # expected points
        self.tokens = []                             # expected token descriptions
        self.state = None
        self.drawn = None
        self.shanten = shanten

    # ---- views
    def conc(self, p):
        return [t for t in range(136) if self.loc[t] == p]

    def full(self, p):
        return [t for t in range(136) if self.loc[t] in (p, MELD + p)]

    def unseen(self, p):
        return counts([t for t in range(136) if self.loc[t] == WALL or (self.loc[t] < 4 and self.loc[t] != p)])

    def snapshot(self, p):
        left = self.n_rounds - self.round
        return {"player": p, "hand_tensor": counts(self.conc(p)), "remaining_tiles_pov": self.unseen(p),
                "sutehai_tensors": [list(r) for r in self.river], "is_menzen": list(self.closed),
                "double_reaches": list(self.dreach), "reaches": list(self.reach), "ippatsu": list(self.ippatsu),
                "melds": [[m["code"] for m in ms] for ms in self.melds], "scores": list(self.scores), "kyotaku": self.kyotaku,
                "honba": self.honba, "dora": list(self.doras), "parent": self.oya, "rounds_remaining": left,
                "parent_rounds_remaining": [sum(1 for k in range(self.round, self.n_rounds) if k % 4 == i) for i in range(4)],
                "remaining_tsumo": 70 - self.draws}

    # ---- what may be chosen
    def wind(self, p):
        return 27 + (p - self.round) % 4

    def own_options(self, p):
        c = counts(self.conc(p))
        opts = {choice_ankan(k) for k in range(34) if c[k] == 4}
        for m in self.melds[p]:
            if m["kind"] == "pon":
                for t in range(4 * (m["called"] // 4), 4 * (m["called"] // 4) + 4):
                    if self.loc[t] == p:
                        opts.add(choice_kakan(t))
        reach = bool(self.closed[p] and not self.reach[p] and self.shanten(c[:34]) <= 0)
        return opts, reach

    def call_options(self, s, tile):
        out = [dict() for _ in range(4)]
        k = tile // 4
        for p in range(4):
            if p == s:
                continue
            fw = (s - p) % 4
            mine = self.conc(p)
            same = [t for t in mine if t // 4 == k]
            for i in range(len(same)):
                for j in range(i):
                    ts = [same[i], same[j], tile]
                    out[p][choice_pon(ts, tile, fw)] = ("pon", ts)
            if len(same) == 3:
                out[p][choice_minkan(tile, fw)] = ("minkan", same + [tile])
            if k < 27 and (p - s) % 4 == 1:
                for w in range(3):
                    n = k % 9 - w
                    if 0 <= n <= 6:
                        ks = [k - w + i for i in range(3) if i != w]
                        for a in mine:
                            for b in mine:
                                if a // 4 == ks[0] and b // 4 == ks[1]:
                                    ts = [a, b, tile]
                                    out[p][choice_chi(ts, tile)] = ("chi", ts)
        return out

    # ---- events
    def draw(self, p, t, win):
        assert self.loc[t] == WALL
        self.loc[t] = p
        self.draws += 1
        self.ippatsu[p] = 0
        self.drawn = t
        opts, reach = self.own_options(p)
        self.state = self.snapshot(p)
        self.points.append({"type": "during", "player": p, "state": self.state, "naki": opts, "reach": reach, "win": win(self, p, t),
                            "idx": len(self.tokens), "taken": None, "reached": False})
        self.after_kan = False

    def riichi(self, p):
        self.points[-1]["reached"] = True
        self.declared = p

    def accept(self, p):
        self.reach[p] = 1
        self.ippatsu[p] = 1
        self.scores[p] -= 10
        self.kyotaku += 1
        if self.calls == 0 and self.draws <= 4:
            self.dreach[p] = 1
        self.tokens.append(("reach", p))

    def discard(self, p, t, wins):
        assert self.loc[t] == p
        self.points.append({"type": "discard", "player": p, "state": self.state, "tile": t, "idx": len(self.tokens)})
        self.loc[t] = OUT
        for i in positions(t):
            self.river[p][i] = 1
        self.tokens.append(("discard", p, t // 4, int(t == self.drawn)))
        self.drawn = None
        opts = self.call_options(p, t)
        self.points.append({"type": "post", "player": p, "state": self.state, "naki": [set(o) for o in opts], "win": wins(self, p, t, False),
                            "idx": len(self.tokens), "taken": None})
        return opts

    def dora(self, t):
        self.doras.append(t)
        assert self.loc[t] == WALL
        self.loc[t] = OUT
        self.tokens.append(("dora", t // 4))

    def call(self, p, kind, tiles, called, from_who, code, choice, wins):
        self.points[-1]["taken"] = (p, choice)
        self.calls += 1
        self.ippatsu = [0] * 4
        self.drawn = None
        if kind == "kakan":
            self.melds[p] = [m for m in self.melds[p] if not (m["kind"] == "pon" and m["called"] // 4 == tiles[0] // 4)]
        self.melds[p] = self.melds[p] + [{"kind": kind, "called": called if called is not None else tiles[0], "code": code, "tiles": tiles}]
        for t in tiles:
            self.loc[t] = MELD + p
        if kind in ("chi", "pon", "minkan"):
            self.closed[p] = 0
        self.tokens.append(("naki", p, code, kind))
        self.state = self.snapshot(p)
        if kind == "kakan":
            self.points.append({"type": "post", "player": p, "state": self.state, "naki": [set()] * 4,
                                "win": wins(self, p, tiles[0], True), "idx": len(self.tokens), "taken": None})
        if kind in ("minkan", "ankan", "kakan"):
            self.after_kan = True


# --------------------------------------------------------------------------- the rules calculator, asked directly
QFLAGS = ("is_tsumo", "is_riichi", "is_ippatsu", "is_rinshan", "is_chankan", "is_haitei", "is_houtei", "is_daburu_riichi",
          "is_nagashi_mangan", "is_tenhou", "is_renhou", "is_chiihou", "is_open_riichi")


def meld_facts(tiles, opened):
    return (sorted(t // 4 for t in tiles), any(t in REDS for t in tiles), bool(opened))


def asked(tiles, win_tile, melds=None, dora_indicators=None, config=None):
    """the same facts, read off a call of the calculator"""
    q = {n: bool(getattr(config, n, False)) for n in QFLAGS}
    q.update(tiles=counts([int(t) for t in tiles]), win=int(win_tile) // 4, melds=sorted(meld_facts([int(t) for t in m.tiles], m.opened) for m in melds or []),
             dora=[int(d) // 4 for d in dora_indicators or []], player_wind=int(config.player_wind), round_wind=int(config.round_wind))
    return q


class Rules:
    def __init__(self):
        from mahjong.hand_calculating.hand import HandCalculator
        from mahjong.hand_calculating.hand_config import HandConfig, OptionalRules
        from mahjong.meld import Meld
        from mahjong.agari import Agari
        from mahjong.shanten import Shanten
        self.calc, self.HandConfig, self.Meld, self.agari = HandCalculator(), HandConfig, Meld, Agari()
        self.options = OptionalRules(has_open_tanyao=True, has_aka_dora=True, has_double_yakuman=True, kazoe_limit=13,
                                     kiriage=False, fu_for_open_pinfu=True, fu_for_pinfu_tsumo=False, renhou_as_yakuman=False,
                                     has_daisharin=False, has_daisharin_other_suits=False, has_sashikomi_yakuman=False,
                                     limit_to_sextuple_yakuman=True, paarenchan_needs_yaku=False, has_daichisei=False)
        self._sh = Shanten()
        self.evaluated = 0
        self.questions = []

    def question(self, g, p, tile, tsumo, flags):
        """what the calculator has to be asked about this player and tile"""
        q = dict.fromkeys(QFLAGS, False)
        q.update(is_tsumo=tsumo, is_riichi=bool(g.reach[p]), is_ippatsu=bool(g.ippatsu[p]), is_daburu_riichi=bool(g.dreach[p]))
        q.update({k: bool(v) for k, v in flags.items()})
        melds = []
        for m in g.melds[p]:
            ts = [4 * (m["tiles"][0] // 4) + i for i in range(4)] if m["kind"] == "kakan" else m["tiles"]
            melds.append(meld_facts(ts, m["kind"] != "ankan"))
        q.update(tiles=counts(g.full(p) + ([] if tsumo else [tile])), win=tile // 4, melds=sorted(melds), dora=[d // 4 for d in g.doras],
                 player_wind=g.wind(p), round_wind=27 + g.round // 4, player=p)
        return q

    def shanten(self, h34):
        return self._sh.calculate_shanten(list(h34))

    def wins(self, g, p, tile, tsumo, **flags):
        self.questions.append(self.question(g, p, tile, tsumo, flags))
        conc = g.conc(p) + ([] if tsumo else [tile])
        c = counts(conc)[:34]
        if self.agari.is_agari(c) is not True and self._sh.calculate_shanten(list(c)) != -1:
            return False
        M = self.Meld
        kinds = {"chi": (M.CHI, True), "pon": (M.PON, True), "kakan": (M.SHOUMINKAN, True), "minkan": (M.KAN, True), "ankan": (M.KAN, False)}
        melds = [M(kinds[m["kind"]][0], tiles=sorted(m["tiles"]), opened=kinds[m["kind"]][1]) for m in g.melds[p]]
        for m, src in zip(melds, g.melds[p]):
            if src["kind"] == "kakan":
                k = src["tiles"][0] // 4
                m.tiles = [4 * k + i for i in range(4)]
        tiles = conc + [t for m in melds for t in m.tiles]
        cfg = self.HandConfig(is_tsumo=tsumo, is_riichi=bool(g.reach[p]), is_ippatsu=bool(g.ippatsu[p]), is_daburu_riichi=bool(g.dreach[p]),
                              player_wind=g.wind(p), round_wind=27 + g.round // 4, kyoutaku_number=g.kyotaku, tsumi_number=g.honba,
                              options=self.options, **flags)
        self.evaluated += 1
        r = self.calc.estimate_hand_value(tiles=sorted(tiles), win_tile=tile, melds=melds, dora_indicators=list(g.doras), config=cfg)
        return r.error is None

    def tsumo(self, g, p, t):
        last = g.draws == 70
        first = g.calls == 0
        return self.wins(g, p, t, True, is_rinshan=g.after_kan, is_haitei=last and not g.after_kan,
                         is_tenhou=first and g.draws == 1, is_chiihou=first and 2 <= g.draws <= 4)

    def ron(self, g, s, t, chankan):
        out = set()
        for p in range(4):
            if p == s or g.river[p][t // 4]:
                continue                 # furiten
            # nobody has called yet and p has not drawn yet
            renhou = (not chankan) and g.calls == 0 and (p - g.oya) % 4 >= g.draws
            if self.wins(g, p, t, False, is_chankan=chankan, is_houtei=(g.draws == 70 and not chankan), is_renhou=renhou):
                out.add(p)
        return out


# --------------------------------------------------------------------------- random legal logs
def deal(rng, themes=("random", "random", "tenpai", "tenpai", "triplets", "quads", "reds", "suit", "pairs", "kokushi")):
    pool = list(range(136))
    rng.shuffle(pool)
    by = {}
    for t in pool:
        by.setdefault(t // 4, []).append(t)
    used = set()

    def take(k, n=1):
        got = [t for t in by[k] if t not in used][:n]
        if len(got) < n:
            return None
        used.update(got)
        return got

    hands = []
    want = []
    for p in range(4):
        h = []
        theme = rng.choice(themes)
        if theme in ("tenpai", "triplets"):
            for _ in range(4):
                for _try in range(20):
                    if theme == "triplets" or rng.random() < 0.3:
                        g = take(rng.randrange(34), 3)
                    else:
                        s, n = rng.randrange(3), rng.randrange(7)
                        ks = [9 * s + n + i for i in range(3)]
                        if any(all(t in used for t in by[k]) for k in ks):
                            continue
                        g = [take(k)[0] for k in ks]
                    if g:
                        h += g
                        break
            pr = take(rng.randrange(34), 2)
            h += pr or []
            rng.shuffle(h)
            while len(h) > 13:
                x = h.pop()
                used.discard(x)
                want.append(x)
                if rng.random() < 0.5:
                    want += [t for t in by[x // 4] if t not in used and t != x][:1]
        elif theme == "quads":
            for _ in range(rng.randint(1, 3)):
                h += take(rng.randrange(34), 4) or []
            h += take(rng.randrange(34), 3) or []
            for t in h[12:]:
                used.discard(t)
            h = h[:12]
            want += [t for t in h if rng.random() < .1]
        elif theme == "reds":
            for r in (4, 13, 22):
                h += take(r, rng.randint(1, 3)) or []
            for r in (3, 5, 12, 14, 21, 23):
                h += take(r, rng.randint(0, 1)) or []
        elif theme == "suit":
            s = rng.randrange(3)
            for _ in range(13):
                h += take(9 * s + rng.randrange(9)) or []
        elif theme == "pairs":
            for _ in range(6):
                h += take(rng.randrange(34), 2) or []
        elif theme == "kokushi":
            for k in (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33):
                h += take(k) or []
        for t in h[13:]:
            used.discard(t)
        h = h[:13]
        for t in pool:
            if len(h) == 13:
                break
            if t not in used:
                used.add(t)
                h.append(t)
        hands.append(h)
    for k in range(34):                     # fourth tiles of triplets and partners of pairs are interesting draws
        for h in hands:
            if sum(t // 4 == k for t in h) >= 2 and rng.random() < 0.6:
                want += [t for t in by[k] if t not in used]
    rest = [t for t in pool if t not in used]
    rng.shuffle(rest)
    want = [t for t in dict.fromkeys(want) if t in rest and rng.random() < 0.8]
    rng.shuffle(want)
    rest = [t for t in rest if t not in want]
    cut = rng.choice([0, 4, 12, 30])
    front = rest[:cut] + want
    if rng.random() < 0.7:
        rng.shuffle(front)
    wall = front + rest[cut:]
    # dead wall: 14 tiles (the first 5 are the indicators); all draws, also after a kan, come from the live wall
    dead, live = wall[-14:], wall[:-14]
    return hands, live, dead


class Round:
    """One random legal round: XML events and the tracker's expectations."""

    def __init__(self, rng, go, rnd, rules, max_draws):
        self.rng, self.rules = rng, rules
        late = max_draws == 70 and rng.random() < 0.3          # calls and kans only around the end of the wall
        hands, live, dead = deal(rng, ("triplets", "quads")) if late else deal(rng)
        self.live = live[:70]
        self.dead = dead[:5]
        self.oya = rnd % 4
        honba, kyo = rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 2])
        ten = [rng.choice([250, 250, 310, 180, 9, 10, 400]) for _ in range(4)]
        seed = [rnd, honba, kyo, rng.randrange(6), rng.randrange(6), self.dead[0]]
        self.g = Tracker(go, seed, ten, self.oya, hands, rules.shanten)
        for h in hands:
            if rng.random() < 0.5:
                h.sort()
        self.xml = [("INIT", dict(seed=",".join(map(str, seed)), ten=",".join(map(str, ten)), oya=str(self.oya),
                                  **{f"hai{p}": ",".join(map(str, hands[p])) for p in range(4)}))]
        self.max_draws = max_draws
        self.p_call = rng.choice([0.05, 0.3, 0.8])
        self.p_kan = rng.choice([0.2, 0.9])
        self.p_riichi = rng.choice([0.2, 0.9])
        self.p_win = rng.choice([0.1, 0.6])
        self.p_keep = rng.choice([0.3, 0.8, 0.97])
        self.late = late
        self.pons = not late and max_draws == 70 and rng.random() < 0.15         # hands that call everything
        if self.pons:
            self.p_call, self.p_kan, self.p_win, self.p_keep = 0.95, 0.95, 0.05, 0.9
        if late:
            self.p_keep, self.p_riichi, self.p_win = 0.99, 0.1, 0.1
        self.kans = 0
        self.declined = 0
        self.play()

    def put(self, tag, **a):
        self.xml.append((tag, {k: str(v) for k, v in a.items()}))

    def end(self, kind, n=1):
        sc = ",".join(map(str, [250, 0] * 4))
        for _ in range(n):
            self.put(kind, sc=sc, ba="0,0")

    def new_dora(self):
        t = self.dead[self.kans]
        self.g.dora(t)
        self.put("DORA", hai=t)

    def chance(self, p):
        if self.late:
            return 0.01 if self.g.draws < 66 else 0.9
        return p

    def play(self):
        g, rng = self.g, self.rng
        p = self.oya
        need_draw = True
        pending = False           # a dora indicator to be turned before the next discard
        while True:
            if need_draw:
                if not self.live or g.draws >= self.max_draws:
                    return self.end("RYUUKYOKU")
                t = self.live.pop(0)
                g.draw(p, t, self.rules.tsumo)
                self.put("TUVW"[p] + str(t))
                pt = g.points[-1]
                if pt["win"] and rng.random() < self.p_win:
                    return self.end("AGARI")
                if g.draws == 1 + rng.randrange(200):
                    return self.end("RYUUKYOKU")      # abortive draw
                if pending and rng.random() < 0.5:
                    self.new_dora()
                    pending = False
                # kan?
                ops = [o for o in sorted(pt["naki"]) if self.kans < 4 and g.draws < 70]
                if g.reach[p]:
                    ops = [o for o in ops if o[0] == "ankan" and o[1] == t // 4]
                if ops and rng.random() < self.chance(self.p_kan):
                    o = rng.choice(ops)
                    if pending:
                        self.new_dora()
                        pending = False
                    self.kans += 1
                    if o[0] == "ankan":
                        ts = [4 * o[1] + i for i in range(4)]
                        code = enc_ankan(ts[rng.randrange(4)] if rng.random() < .7 else ts[0])
                        g.call(p, "ankan", ts, None, 0, code, o, self.rules.ron)
                        self.put("N", who=p, m=code)
                        self.new_dora()
                    else:
                        m = [m for m in g.melds[p] if m["kind"] == "pon" and m["called"] // 4 == o[1]][0]
                        added = [x for x in range(4 * o[1], 4 * o[1] + 4) if g.loc[x] == p][0]
                        code = enc_kakan(m["code"], added)
                        g.call(p, "kakan", [added], None, 0, code, o, self.rules.ron)
                        self.put("N", who=p, m=code)
                        w = g.points[-1]["win"]
                        if w and rng.random() < 0.5:
                            return self.end("AGARI", len(w) if rng.random() < .5 else 1)
                        pending = True
                    continue
                # riichi?
                declare = False
                mine = g.conc(p)
                if pt["reach"] and g.scores[p] >= 10 and g.draws <= 66:
                    if rng.random() < self.p_riichi:
                        cand = []
                        for x in mine:
                            c = counts([y for y in mine if y != x])[:34]
                            if g.shanten(c) == 0:
                                cand.append(x)
                        if cand:
                            declare = True
                            g.riichi(p)
                            self.put("REACH", who=p, step=1)
                            d = t if t in cand and rng.random() < 0.5 else rng.choice(cand)
                    else:
                        self.declined += 1
                if not declare:
                    d = t if g.reach[p] or rng.random() < self.p_keep else rng.choice(mine)
            else:
                declare = False
                d = rng.choice(g.conc(p))
            if pending:
                self.new_dora()
                pending = False
            opts = g.discard(p, d, self.rules.ron)
            self.put("DEFG"[p] + str(d))
            w = g.points[-1]["win"]
            if w and rng.random() < self.p_win:
                return self.end("AGARI", len(w) if rng.random() < .5 else 1)
            if declare:
                g.accept(p)
                self.put("REACH", who=p, ten=",".join(map(str, g.scores)), step=2)
            # calls
            caller = None
            if g.draws < 70 and rng.random() < self.chance(self.p_call):
                cands = []
                for q in range(4):
                    if q == p or g.reach[q]:
                        continue
                    for ch, (kind, ts) in sorted(opts[q].items(), key=repr):
                        if kind == "minkan" and self.kans >= 4:
                            continue
                        if len(g.conc(q)) - len(ts) + 1 < 1:
                            continue
                        cands.append((q, ch, kind, ts))
                if cands:
                    pref = [c for c in cands if c[2] == ("minkan" if self.late else "pon")] or [c for c in cands if c[2] != "chi"]
                    caller = rng.choice(pref if pref and (self.pons or rng.random() < .5) else cands)
            if caller:
                q, ch, kind, ts = caller
                # the same choice may be made with any interchangeable copies: pick the tiles at random
                fw = (p - q) % 4
                hand = [x for x in ts if x != d]
                mine = g.conc(q)
                used = []
                for x in hand:
                    alts = [y for y in mine if y // 4 == x // 4 and is_red(y) == is_red(x) and y not in used]
                    used.append(rng.choice(alts))
                ts = used + [d]
                if kind == "chi":
                    code = enc_chi(ts, d)
                elif kind == "pon":
                    code = enc_pon(ts, d, fw)
                else:
                    code = enc_minkan(d, fw)
                g.call(q, kind, ts, d, fw, code, ch, self.rules.ron)
                self.put("N", who=q, m=code)
                p = q
                if kind == "minkan":
                    self.kans += 1
                    pending = True
                    need_draw = True
                else:
                    need_draw = False
                continue
            p = (p + 1) % 4
            need_draw = True


def to_xml(go, rounds, upto=None):
    out = ['<mjloggm ver="2.3">', '<SHUFFLE seed="x" ref=""/>', f'<GO type="{go}" lobby="0"/>', '<UN n0="a" n1="b" n2="c" n3="d"/>', '<TAIKYOKU oya="0"/>']
    for r in rounds:
        for tag, attr in r:
            out.append("<" + tag + "".join(f' {k}="{v}"' for k, v in attr.items()) + "/>")
    return "".join(out) + "</mjloggm>"


def random_game(seed, rules, n_rounds=2):
    rng = random.Random(seed)
    go = 0xA1 | (8 if rng.random() < .7 else 0) | (0x40 if rng.random() < .3 else 0)
    last = 12 if go & 8 else 8
    rs = []
    for _ in range(n_rounds):
        rnd = rng.randrange(8 if go & 8 else 4)
        md = rng.choice([3, 5, 12, 30, 70, 70])
        rs.append(Round(rng, go, rnd, rules, md))
    return go, rs
