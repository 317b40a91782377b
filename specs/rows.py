"""C15-C17: training samples of a round with any number of decision points and options, of any length.

The round is  [any decision points] + [one arbitrary decision point] + [any decision points]; what is shown about the
samples of the one in the middle holds for every decision point of every round."""
import random

from pv.ops import *
from specs.agents import (processor, AG, DIM, KINDS, Rec, FakeCall, make_state, mask_of, label_of, features, thermo, unpack, shapes, TOKEN_KINDS, token_fields, expected_row, named_tables,
                          eq_cells, tolist, check_rows, fn, alpha, TP, _A, make_cells, with_cells)

MAXLEN = 150


def tagger(ctx, tag):
    """names of the inputs of one arbitrary decision point"""
    k = ctx.tags["dp"] = ctx.tags.get("dp", 0) + 1
    return f"{tag}{k}_"


# ------------------------------------------------------------------ options
def decisions(ctx, tag, player, post, who, base, ta, may, log):
    """-> (decision lists, is there any, expected mask, expected label, is one taken).
    who == base: the win is taken, base + 1: riichi, base + 2: the call with action `ta`, otherwise none of these."""
    from pv import glist
    D = ctx.mod("MahjongAI.decision")
    lo, hi = (2, 153) if post else (3, 70)

    def build():
        k0 = len(ctx.pc)
        ag = ctx.int(tag + "ag", 0, 1) == 1
        re = False if post else ctx.int(tag + "re", 0, 1) == 1
        acts = {a: ctx.int(f"{tag}o{a}", 0, 1) == 1 for a in range(lo, hi + 1)}
        n = ctx.int(f"{tag}n", 0, hi - lo + 1)
        ctx.assume(Iff(n > 0, Or(*acts.values())))
        tk = who == base + 2
        ctx.assume(Implies(tk, Or(*[And(ta == a, v) for a, v in acts.items()])))
        ctx.assume(Implies(who == base, ag))
        ctx.assume(Implies(who == base + 1, re))
        some = Or(ag, re, n > 0)
        ctx.assume(Implies(some, may))
        given = [t for x in (who, ta) for t in (x.t >= x.lo, x.t <= x.hi)]
        mask = [1] + [b2i(ag if a == 1 else Or(a == 2 and re, acts.get(a, False))) for a in range(1, 154 if post else 71)]
        lab = ite(who == base, 1, ite(who == base + 1, 2, ite(tk, ta, 0)))
        ok = Or(*[And(lab == a, m == 1) for a, m in enumerate(mask)])
        allowed = glist.local_holds(ctx.pc[k0:] + given, Or(Not(some), ok))
        return ag, re, acts, n, tk, (some, mask, lab, And(who >= base, who <= base + 2), allowed)
    ag, re, acts, n, tk, exp = ctx.memo((tag, "decisions"), build)

    def make(a, t):
        return D.NakiDecision(player, FakeCall(post=a) if post else FakeCall(during=a), t)
    return ([glist.Maybe(ag, D.AgariDecision(player, who == base)), [] if post else glist.Maybe(re, D.ReachDecision(player, who == base + 1)),
             glist.OptList(tag, acts, n, tk, ta, make, log)],) + exp


def cloud(ctx, player, hand):
    """A recorded state nothing is known about (but the hand, where a mask is made of it)."""
    from pv import npshim, torchshim as TS
    q = TS.OPQ
    d = Rec()
    d.hand = [q] * 37 if hand is None else hand
    so = ctx.mod("MahjongAI.state").StateObject
    a = npshim.sarr
    d.obj = so(remaining_turns=q, hand_tensor=a(d.hand), remaining_tiles=a([q] * 37), remaining_tiles_pov=a([q] * 37),
               sutehai_tensors=a([[q] * 37 for _ in range(4)]), is_menzen=[q] * 4, double_reaches=[q] * 4, reaches=[q] * 4,
               ippatsu=[q] * 4, melds=[[] for _ in range(4)], scores=[q] * 4, kyotaku=q, honba=q, dora=[q],
               parent_tensor=a([q] * 4), rounds_remaining=q, parent_rounds_remaining=[q] * 4, remaining_tsumo=q, player=player)
    return d


def sym_turn(ctx, kind, player, toks, log, tag, full):
    """An arbitrary decision point of this kind -> (turn, [(condition, state, mask, label, player)], position)"""
    T = ctx.mod("MahjongAI.turn")
    tag = tagger(ctx, tag + kind)
    lo, hi = (3, 70) if kind == "during" else (2, 153)

    def base():
        e = ctx.int(tag + "e", 0, MAXLEN - 1)
        ctx.assume(e <= toks.n)
        p = player if player is not None else ctx.int(tag + "pl", 0, 3)
        cells = make_cells(ctx, tag) if full else Rec()
        if kind == "discard":
            cells.hand = cells.hand if full else [ctx.int(f"{tag}h{k}", 0, 4 if k < 34 else 1) for k in range(37)]
            tile = ctx.int(tag + "tile", 0, 135)
            for j in range(34):
                ctx.assume(Implies(tile // 4 == j, cells.hand[j] >= 1))
            return e, p, cells, tile, None
        if kind == "during":
            return e, p, cells, ctx.int(tag + "who", -1, 2), ctx.int(tag + "ta", lo, hi)
        return e, p, cells, ctx.int(tag + "who", -1, 11), ctx.int(tag + "ta", lo, hi)
    e, player, cells, who, ta = ctx.memo((tag, kind, player, full), base)
    st = with_cells(ctx, cells, player) if full else cloud(ctx, player, cells.hand if kind == "discard" else None)
    if kind == "discard":
        turn = T.DiscardTurn(player, st.obj, who, e)
        rows = [(True, st, [b2i(c >= 1) for c in st.hand], who // 4, player, None)]
    elif kind == "during":
        dec, some, mask, lab, _, allowed = decisions(ctx, tag, player, False, who, 0, ta, True, log)
        turn = T.DuringTurn(player, st.obj, dec, e)
        rows = [(some, st, mask, lab, player, allowed)]
    else:
        dec, seats = [], []
        for p in range(4):
            x = decisions(ctx, f"{tag}{p}", p, True, who, 3 * p, ta, player != p, log)
            dec.append(x[0])
            seats.append(x[1:])

        def rows():
            out, gone = [], False
            pl = ctx.conc(player)
            for i in range(3):
                p = (pl + 1 + i) % 4
                some, mask, lab, taken, allowed = seats[p]
                out.append((And(some, Not(gone)), st, mask, lab, p, allowed))
                gone = Or(gone, taken)
            return out
        turn = T.PostTurn(player, st.obj, dec, e)
    return turn, rows, e


# ------------------------------------------------------------------ samples: what the locals of the option loops are for
def sample_runs(ctx, proc):
    from pv import glist
    cache = ctx.__dict__.setdefault("opt_roles", None)
    if cache is not None:
        return cache
    ctx.opt_roles = R = {}
    T, D = ctx.mod("MahjongAI.turn"), ctx.mod("MahjongAI.decision")
    rng = random.Random(7)
    log = []

    def nk(p, post, acts, taken):
        return glist.Sample([D.NakiDecision(p, FakeCall(post=a) if post else FakeCall(during=a), a == taken) for a in acts],
                            [(a, a == taken) for a in acts], log)
    for r in range(24):
        turns = []
        for k in range(1 + r % 2):
            p = rng.randrange(4)
            st = Given(ctx, rng, p)
            if rng.random() < .4:
                acts = rng.sample(range(3, 71), rng.randrange(1, 5))
                turns.append(T.DuringTurn(p, st, [[D.AgariDecision(p, rng.random() < .3)] if rng.random() < .5 else [],
                                                  [D.ReachDecision(p, rng.random() < .3)] if rng.random() < .5 else [],
                                                  nk(p, False, acts, rng.choice(acts + [None]))], rng.randrange(4)))
            else:
                dec = [[[], [], []] for _ in range(4)]
                for i in range(1, 4):
                    acts = rng.sample(range(2, 154), rng.randrange(0, 4))
                    dec[(p + i) % 4] = [[D.AgariDecision((p + i) % 4, False)] if rng.random() < .5 else [], [],
                                        nk((p + i) % 4, True, acts, rng.choice(acts + [None]))]
                turns.append(T.PostTurn(p, st, dec, rng.randrange(4)))
        proc.build_tensors(turns, [5, 6, 7, 8])
    R.update(glist.roles(log))
    return R


def Given(ctx, rng, p):
    from pv import npshim
    so = ctx.mod("MahjongAI.state").StateObject
    z = npshim.sarr([0] * 37)
    return so(remaining_turns=1, hand_tensor=z, remaining_tiles=z, remaining_tiles_pov=z,
              sutehai_tensors=npshim.sarr([[0] * 37 for _ in range(4)]), is_menzen=[1] * 4, double_reaches=[0] * 4,
              reaches=[0] * 4, ippatsu=[0] * 4, melds=[[] for _ in range(4)], scores=[250] * 4, kyotaku=0, honba=0,
              dora=[0], parent_tensor=npshim.sarr([1, 0, 0, 0]), rounds_remaining=3, parent_rounds_remaining=[1] * 4,
              remaining_tsumo=9, player=p)


# ------------------------------------------------------------------ reading results
def columns(agent, tup):
    enc, x1, x2, x3, mask, y, pl = unpack(agent, tup)
    return {"enc": enc, "x1": x1, "x2": x2, "x3": x3, "mask": mask, "y": y, **({"player": pl} if pl is not None else {})}


def split(t):
    """-> (rows before, [the rows that are known one by one], rows after)"""
    from pv import btensor
    bl = btensor.blocks_of(t)
    first = next((k for k, (n, _) in enumerate(bl) if not isinstance(n, Sym) and n), None)
    if first is None:
        return t_total(bl), [], 0
    last = max(k for k, (n, _) in enumerate(bl) if not isinstance(n, Sym) and n)
    if any(isinstance(n, Sym) for n, _ in bl[first:last]):
        raise Unsupported("the samples of one decision point are not together")
    rows = [r for n, t in bl[first:last + 1] if n for r in tolist(t)]
    return t_total(bl[:first]), rows, t_total(bl[last + 1:])


def t_total(bl):
    r = 0
    for n, _ in bl:
        r = r + n
    return r


def a_round(ctx, proc, kind, player):
    """-> (turns, tokens, expected samples of the turn in the middle, its position among the tokens)"""
    from pv import glist
    R = sample_runs(ctx, proc)
    toks = ctx.memo("tokens", lambda: glist.GTokens(ctx.int("len", 0, MAXLEN), [ctx.int(f"tok{j}", 1, (1 << 17) - 1) for j in range(MAXLEN)]))
    n1, n2 = ctx.memo("gaps", lambda: (ctx.int("n1", 0, None), ctx.int("n2", 0, None)))

    turn, rows, e = sym_turn(ctx, kind, player, toks, R, "d", True)

    def gap(n):
        g = glist.Gap("turns", n, None, variants={kind: lambda: turn})
        g.like = turn
        return g
    return glist.GList([gap(n1), turn, gap(n2)]), toks, rows, e


def round_any(ctx):
    from pv import glist
    P = ctx.params
    agent, kind, what = P["agent"], P["kind"], P["what"]
    m = ctx.mod(AG[agent])
    proc = processor(ctx, m)
    seq, toks, rows, e = a_round(ctx, proc, kind, P["player"])
    ctx.mark_base()
    out = proc.build_tensors(seq, toks)
    glist.settled()
    cols = columns(agent, out[KINDS.index(kind)])
    got = {n: split(t) for n, t in cols.items()}
    rows = [r for r in (rows() if callable(rows) else rows) if bool(r[0])]
    for r in rows[:1]:
        r[1].player = ctx.conc(r[1].player)
    n0 = got["y"][0]
    ctx.prove_all("a decision point yields one sample per player who decides there, at the same place in every column",
                  [(n, And(len(g[1]) == len(rows), g[0] + len(g[1]) + g[2] == n0 + len(rows) + got["y"][2],
                           True if not rows else g[0] == n0)) for n, g in got.items()])
    ctx.prove("sample tensors have the documented shapes",
              And(*[list(cols[n].shape)[1:] == s for n, s in (("enc", [150]), ("x1", shapes(agent)), ("x2", [7, 4]), ("x3", [4]),
                                                              ("mask", [DIM[kind]]), ("y", []))]))
    for k in KINDS:
        if k != kind:
            ctx.prove("a decision point yields samples of its own kind only",
                      And(*[t_total(_blocks(t)) == 0 for t in columns(agent, out[KINDS.index(k)]).values()]))
    g = {n: v[1] for n, v in got.items()}
    if "mask" in what:
        ctx.prove_all("the mask allows exactly the actions offered", eq_cells("mask", g["mask"], [r[2] for r in rows]))
        ctx.prove_all("the label is the action taken, or pass", eq_cells("label", g["y"], [r[3] for r in rows]))
        if "player" in g:
            ctx.prove_all("each sample carries the deciding player", eq_cells("player", g["player"], [r[4] for r in rows]))
        # where mask and label are the expected ones, this is about the expected ones alone
        ctx.prove_all("the label is allowed by the mask",
                      [("label allowed", True if r[5] else Or(*[And(yy == a, c == 1) for a, c in enumerate(mm)]))
                       for r, yy, mm in zip(rows, g["y"], g["mask"])])
    if "feat" in what:
        f = [features(agent, r[1]) for r in rows[:1]] * len(rows)
        for k, nm in enumerate(("x1", "x2", "x3")):
            ctx.prove_all(f"features {nm} are the recorded state", eq_cells(nm, g[nm], [x[k] for x in f]))
    if "hist" in what:
        exp = ctx.memo("history", lambda: [ite(j < e, toks.cells[j], 0) for j in range(150)])
        ctx.prove_all("the history is exactly the tokens before the decision", eq_cells("enc", g["enc"], [exp for _ in rows]))
    ctx.cover("a round")
    if rows:
        ctx.cover("rows")


# ------------------------------------------------------------------ decision points of all kinds in one round
BUILD = {k: f"_build_{k}_tensor" for k in KINDS}


def mixing(ctx):
    """build_tensors hands the decision points of each kind, all of them and in order, to the builder of that kind; what
    a builder makes of decision points of its kind is `rows.round`."""
    from pv import glist, torchshim as TS
    P = ctx.params
    m = ctx.mod(AG[P["agent"]])
    proc = processor(ctx, m, tuple(BUILD.values()))
    toks = glist.GTokens(ctx.int("len", 0, MAXLEN), [ctx.int(f"tok{j}", 1, (1 << 17) - 1) for j in range(MAXLEN)])
    calls = []
    T = ctx.mod("MahjongAI.turn")

    def builder(kind):
        def f(turns, tokens):
            calls.append((kind, turns, tokens))
            return "samples", kind
        return f
    for k in KINDS:
        if not hasattr(type(proc), BUILD[k]):
            raise Unsupported("no builder per kind of decision point")
        setattr(proc, BUILD[k], builder(k))

    def turn(k):
        q = TS.OPQ
        st = cloud(ctx, 0, None).obj
        return {"during": lambda: T.DuringTurn(q, st, [[], [], []], q), "discard": lambda: T.DiscardTurn(q, st, q, q),
                "post": lambda: T.PostTurn(q, st, [[[], [], []] for _ in range(4)], q)}[k]()
    n1, n2 = ctx.int("n1", 0, None), ctx.int("n2", 0, None)
    gaps = [glist.Gap("turns", n, None, variants={k: (lambda k=k: turn(k)) for k in KINDS}) for n in (n1, n2)]
    mid = turn(P["kind"])
    out = proc.build_tensors(glist.GList([gaps[0], mid, gaps[1]]), toks)
    ctx.prove("each kind of decision point is handled once", sorted(c[0] for c in calls) == sorted(KINDS))
    ctx.prove("the samples are returned by kind", list(out) == [("samples", k) for k in KINDS])
    for k, got, t in calls:
        ps = glist.GList.of(got)
        want = [gaps[0]] + ([mid] if k == P["kind"] else []) + [gaps[1]]
        ok = len(ps) == len(want)
        for p, w in zip(ps, want):
            if isinstance(w, glist.Gap):
                ok = ok and isinstance(p, glist.Gap) and p.tally is not None and p.of is w and all(
                    p.tally[j] == {1 if j == k else 0} for j in KINDS)
            else:
                ok = ok and p is w
        ctx.prove("the builder of a kind is given all decision points of its kind, in order, and no others", bool(ok))
        ctx.prove("the builder is given the tokens of the round, padded",
                  And(list(t.shape) == [150], *[a == ite(j < toks.n, toks.cells[j], 0) for j, a in enumerate(tolist(t))]))
    ctx.cover("mixed")


# ------------------------------------------------------------------ several rounds
class Rounds:
    """The rounds of one game and their token lists."""

    def __init__(self, ctx, tag, mid=None):
        from pv import glist
        self.ctx, self.tag = ctx, tag
        n = [ctx.int(f"{tag}n{i}", 0, None) for i in range(2 if mid else 1)]
        self.turns, self.tokens = [], []
        for i, k in enumerate(n):
            for col, nm in ((self.turns, "turns"), (self.tokens, "tokens")):
                col.append(glist.Gap((nm, "rounds"), k, None, origin=self))
            if mid and i == 0:
                self.turns.append(mid[0])
                self.tokens.append(mid[1])
        self.turns, self.tokens = glist.GList(self.turns), glist.GList(self.tokens)

    def together(self, gaps):
        r = Pair()
        return tuple(getattr(r, g.kind[0]) for g in gaps)


class Pair:
    """a round: what stands for its decision points, and for its tokens"""

    def __init__(self):
        self.turns, self.tokens = Part(self), Part(self)


class Part:
    def __init__(self, pair):
        self.pair = pair


class Games:
    def __init__(self, ctx):
        self.ctx = ctx

    def together(self, gaps):
        ctx = self.ctx
        k = ctx.tags["game"] = ctx.tags.get("game", 0) + 1
        r = Rounds(ctx, f"game{k}_")
        return tuple(getattr(r, g.kind[0]) for g in gaps)


def joined_rounds(ctx):
    """prepare_batches puts the samples of all rounds of all games together: the samples of an arbitrary round appear
    once, in order, at the same place in every column of their kind."""
    from pv import glist, torchshim as TS, btensor as BT
    P = ctx.params
    agent = P["agent"]
    m = ctx.mod(AG[agent])
    proc = processor(ctx, m, ("build_tensors",))
    mid = Pair()
    games = Games(ctx)
    ns = [ctx.int("games0", 0, None), ctx.int("games1", 0, None)]
    g0 = Rounds(ctx, "focus_", (mid.turns, mid.tokens))
    cols = {nm: glist.GList([glist.Gap((nm, "games"), ns[0], None, origin=games), getattr(g0, nm),
                             glist.Gap((nm, "games"), ns[1], None, origin=games)]) for nm in ("turns", "tokens")}
    want = {}
    seen = []

    def shape(kind):
        return [[150]] + [[*shapes(agent)], [7, 4], [4]] + [[DIM[kind]]] + [[]] + ([[]] if agent == "o" else [])

    def rows(kind, focus):
        out = []
        n = glist.fresh("rows", 0)
        for i, sh in enumerate(shape(kind)):
            a = TS.np.empty([1] + sh, dtype=object)
            a[...] = TS.Atom((kind, i)) if focus else TS.OPQ
            out.append(TS.BTensor([(n, TS.Tensor(a.view(TS.SArr), TS.int64 if i > 4 else TS.float32))], summed=True))
        if focus:
            want[kind] = (n, out)
        return tuple([out[0], tuple(out[1:4])] + out[4:])

    def build(turns, tokens):
        ok = isinstance(turns, Part) and isinstance(tokens, Part) and turns.pair is tokens.pair             and turns is turns.pair.turns and tokens is turns.pair.tokens
        ctx.prove("a round is processed with its own tokens", ok)
        f = ok and turns.pair is mid
        if f:
            seen.append(1)
        return tuple(rows(k, f) for k in KINDS)
    proc.build_tensors = build
    out = proc.prepare_batches(cols["turns"], cols["tokens"])
    ctx.prove("every round is processed once", len(seen) == 1)
    ctx.prove("one group of columns per kind", len(out) == 3)
    for kind, tup in zip(KINDS, out):
        cs = list(columns(agent, tup).values())
        n, exp = want[kind]
        lens = []
        for i, t in enumerate(cs):
            bl = BT.blocks_of(t)
            hit = [j for j, (k, r) in enumerate(bl) if any(isinstance(x, TS.Atom) for x in TS.np.asarray(r.a).reshape(-1))]
            ok = len(hit) == 1 and bl[hit[0]][0] is n and all(x is exp[i].blocks[0][1].a.reshape(-1)[0] for x in TS.np.asarray(bl[hit[0]][1].a).reshape(-1))
            ctx.prove("the samples of a round appear once in every column of their kind", bool(ok))
            lens.append((t_total(bl[:hit[0]]), t_total(bl[hit[0] + 1:])))
        ctx.prove_all("the samples of a round are at the same place in every column of their kind",
                      [(kind, And(a == lens[0][0], b == lens[0][1])) for a, b in lens])
    ctx.cover("joined")


# ------------------------------------------------------------------ the model: any number of samples of each kind
def forward_any(ctx):
    from pv import btensor as BT
    P = ctx.params
    agent = P["agent"]
    m = ctx.mod(AG[agent])
    cls = [c for n, c in vars(m).items() if isinstance(c, type) and n.startswith("Transformer") and n.endswith("Model")][0]
    model = object.__new__(cls)
    sizes = [ctx.int("n_" + k, 0, None) for k in KINDS]
    names = ["e", "x", "y", "z", "m", "l"] + (["p"] if agent == "o" else [])
    tens = []
    for kind, n in zip(KINDS, sizes):
        c = [BT.Col((kind, nm), n, inner=150 if nm == "e" else None) for nm in names]
        tens.append(tuple([c[0], tuple(c[1:4])] + c[4:]))

    class TPr:
        def prepare_batches(self, a, b):
            return tuple(tens)
    log = []

    def enc(tokens, *pl):
        log.append([tokens] + list(pl))
        return "enc"

    def dec(e, st, mask, y, head):
        log[-1] += [e, st, mask, y, head]
        return "logits", "loss"
    d = vars(model)
    d["tensor_processor"], d["encoder"], d["decoder"] = TPr(), enc, dec
    ctx.tags["randperm"] = lambda n: BT.Perm(n)
    sample, limit = ctx.int("sample", 0, 1) == 1, ctx.int("limit", 1, None)
    res = list(model.forward([], [], sample=sample, sample_size=limit))
    heads = [k for k, n in zip(KINDS, sizes) if bool(n > 0)]
    ctx.prove("one result per kind with samples, in order", And([l[-1] for l in log] == heads, len(res) == len(heads)))
    off = 1 if agent == "o" else 0
    for l, kind in zip(log, heads):
        n = sizes[KINDS.index(kind)]
        cols = [l[0], *l[2 + off], l[3 + off], l[4 + off]] + ([l[1]] if off else [])
        ctx.prove("the encoder output goes to the decoder", l[1 + off] == "enc")
        ctx.prove("every column goes where it belongs", And([isinstance(c, BT.Col) and c.name for c in cols] == [(kind, x) for x in names]))
        ctx.prove_all("sample size respected", [(kind, c.n == ite(And(sample, n > limit), limit, n)) for c in cols])
        ctx.prove("tokens, state, mask, label and player of a sample stay together", bool(all(c.idx is cols[0].idx for c in cols)))
    ctx.cover("forward")


# ------------------------------------------------------------------ C18: events of any batch
def any_token(ctx, name):
    """An arbitrary token (C05) of an arbitrary kind: its value and, per embedding table, the coefficient and row it calls for."""
    kind = ctx.int(name + "k", 0, len(TOKEN_KINDS) - 1)
    fs = [token_fields(ctx, name + k, k) for k in TOKEN_KINDS]
    v = fs[-1][0]
    for i in reversed(range(len(fs) - 1)):
        v = ite(kind == i, fs[i][0], v)
    return v, kind, [f for _, f in fs]


def wanted(kind, infos, table, t, pov, agent):
    coef, row = 0, 0
    for i, f in enumerate(infos):
        e = expected_row(f, table, t, pov, agent)
        if e is not None:
            coef, row = ite(kind == i, e[0], coef), ite(kind == i, 0 if e[1] is None else e[1], row)
    return coef, row


def encoder_any(ctx):
    from pv import torchshim as TS
    from pv import btensor as BT
    agent = ctx.params["agent"]
    m = ctx.mod(AG[agent])
    torch = m.torch
    T = 150
    toks, info = [], []
    for t in range(T):
        v, kind, fs = any_token(ctx, f"x{t}")
        toks.append(v)
        info.append((kind, fs))
    n, pl = ctx.int("n", 0, None), ctx.int("pl", 0, 3)
    args = (BT.BTensor([(n, torch.tensor([toks], dtype=torch.float32))]),)
    if agent == "o":
        args += (BT.BTensor([(n, torch.tensor([pl], dtype=torch.int64))]),)
    enc = m.Encoder(1)
    named_tables(enc, m)
    enc.blocks = []
    x = enc.forward(*args)
    E = x.blocks[0][1] if isinstance(x, BT.BTensor) and len(x.blocks) == 1 else None
    if not isinstance(E, TS.Emb):
        ctx.prove("one vector per event", False)
        return
    ctx.prove("one vector per event", And(list(E.shape) == [1, T, m.EMBD_SIZE], x.blocks[0][0] == n))
    rows = {"kind": 4, "tile": 37, "drawn": None, "player": 4, "position": 150, "own": 71, "reaction": 154}
    pairs = []
    for t in range(T):
        lc = E.a[0, t]
        for nm in sorted({q for _, q, _ in lc.t} | set(rows)):
            terms = [(c, i) for c, q, i in lc.t if q == nm]
            coef, row = wanted(*info[t], nm, t, pl if agent == "o" else None, agent)
            if len(terms) == 1 and nm in rows:
                c = And(terms[0][0] == coef, Or(coef == 0, terms[0][1] == row))
            else:
                r = ctx.int(f"row_{t}_{nm}", 0, 200)
                c = Sum(ite(i == r, k, 0) for k, i in terms) == ite(r == row, coef, 0) if nm in rows else And(*[k == 0 for k, _ in terms])
            pairs.append((f"event {t} table {nm}", c))
    ctx.prove_all("an event is the sum of exactly the embeddings that apply to it", pairs)
    ctx.cover("encoder")


# ------------------------------------------------------------------ C19: the decoder on any batch
def decoder_any(ctx):
    """valid: every row of the mask is valid (so the arbitrary one is); any: the arbitrary row is any numbers."""
    from pv import torchshim as TS
    from pv import btensor as BT
    agent, head, mode = (ctx.params[k] for k in ("agent", "head", "masks"))
    m = ctx.mod(AG[agent])
    torch = m.torch
    dim, E = DIM[head], m.EMBD_SIZE
    n = ctx.int("n", 1, None)
    row = lambda t: BT.BTensor([(n, t)])
    mask = [ctx.int(f"m{a}", -2, 3) for a in range(dim)]
    ok = And(*[Or(v == 0, v == 1) for v in mask] + [Or(*[v != 0 for v in mask])])
    if mode == "valid":
        ctx.assume(ok)
    y = ctx.int("y", 0, dim - 1)
    raw = []
    dec = m.Decoder(1)

    def linear(mod, x):
        sh = tuple(x.shape[:-1]) + (mod.out_features,)                # x: the arbitrary row of the batch
        if mod.out_features in (37, 71, 154) and mod.in_features == E:
            if any(k != 1 for k in sh[:-1]):
                raise Unsupported("the shape of the scores")
            r = torch.tensor([ctx.int(f"z{len(raw)}_{j}", None, None) for j in range(mod.out_features)]).reshape(sh)
            raw.append(r)
            return r.clone()
        return TS.opaque(sh)
    ctx.tags["linear"] = linear
    mk = lambda *sh: row(TS.opaque((1,) + sh))
    try:
        logits, loss = dec.forward(mk(150, E), (mk(*shapes(agent)), mk(7, 4), mk(4)),
                                   row(torch.tensor([mask], dtype=torch.float32)), row(torch.tensor([y], dtype=torch.int64)), head)
    except AssertionError:
        ctx.prove("a valid mask is accepted", mode != "valid")
        ctx.cover("rejected")
        return
    ctx.prove("a non-binary mask or one without an allowed action is rejected", ok)
    if not isinstance(logits, BT.BTensor) or len(logits.blocks) != 1:
        raise Unsupported("the make-up of the batch changed")
    g = logits.blocks[0][1]
    ctx.prove("one score per action", And(list(g.shape) == [1, dim], logits.blocks[0][0] == n))
    ctx.prove("the scores come from the requested head", len(raw) == 1 and raw[0].shape[-1] == dim)
    z, g = tolist(raw[0].reshape((1, dim)))[0], tolist(g)[0]
    pairs = [(f"action {a}", g[a] == ite(mask[a] == 0, -10 ** 9, z[a])) for a in range(dim)]
    ctx.prove_all("forbidden actions score -1e9, allowed actions keep their score", pairs)
    calls = ctx.tags.get("cross_entropy", [])
    same = len(calls) == 1 and all(isinstance(c, BT.BTensor) and len(c.blocks) == 1 for c in calls[0][:2])
    ctx.prove("the loss is taken on the masked scores and the labels", And(
        same, *([c for _, c in eq_cells("l", tolist(calls[0][0].blocks[0][1])[0], g)]
                + [c for _, c in eq_cells("y", tolist(calls[0][1].blocks[0][1]), [y])] if same else [False])))
    ctx.cover("accepted")


def _blocks(t):
    from pv import btensor
    return btensor.blocks_of(t)


ROUND_CASES = alpha([{"kind": k, "player": p, "what": ["mask", "feat", "hist"]}
                     for k in KINDS for p in (range(4) if k == "post" else (None,))])
UNITS = [
    Unit("rows.round", round_any, "int", ROUND_CASES, env="rows", covers=["a round", "rows"], native=False, replayable=False,
         split=("player",), heavy=5, time_limit=450,
         functions=fn(TP + "build_tensors", TP + "_build_during_tensor", TP + "_build_discard_tensor", TP + "_build_post_tensor",
                      TP + "_convert_state_obj_to_tensors")),
]
UNITS += [
    Unit("rows.mix", mixing, "int", alpha([{"kind": k} for k in KINDS]), env="rows", covers=["mixed"], native=False, replayable=False,
         functions=fn(TP + "build_tensors")),
    Unit("rows.rounds", joined_rounds, "int", alpha([{}]), env="rows", covers=["joined"], native=False, replayable=False,
         functions=fn(TP + "prepare_batches", TP + "stack_batches")),
]
UNITS.append(
    Unit("rows.forward", forward_any, "int", alpha([{}]), env="rows", covers=["forward"], native=False, replayable=False,
         functions=[f"agents.{AG[a].split('.')[-1]}.Transformer*Model.forward" for a in "tclo"]))
UNITS.append(
    Unit("rows.encoder", encoder_any, "bv", alpha([{}]), env="rows", covers=["encoder"], native=False, replayable=False,
         functions=fn("Encoder.forward", "Encoder.__init__")))
UNITS.append(
    Unit("rows.decoder", decoder_any, "int", alpha([{"head": h, "masks": k} for h in KINDS for k in ("valid", "any")]), env="rows",
         covers=["accepted", "rejected"], native=False, replayable=False, functions=fn("Decoder.forward")))
PROPS = {"C19": ["rows.decoder"], "C18": ["rows.encoder"], "C15": ["rows.round", "rows.mix"], "C16": ["rows.round", "rows.mix", "rows.rounds"],
         "C17": ["rows.round", "rows.mix", "rows.rounds", "rows.forward"]}
INFO = {}
