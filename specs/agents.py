"""C15-C19: training samples, features, event embedding and the masked decoder, for the four models."""
from pv.ops import *

AG = {"t": "MahjongAI.agents.transformer", "c": "MahjongAI.agents.transformer_conv",
      "l": "MahjongAI.agents.transformer_conv_large", "o": "MahjongAI.agents.transformer_conv_ordered"}
DIM = {"during": 71, "discard": 37, "post": 154}
KINDS = ["during", "discard", "post"]
RED_TILE = {16: 34, 52: 35, 88: 36}


def eq_cells(label, got, exp):
    """two nested lists are equal, cell by cell -> (description, condition) pairs"""
    out = []

    def rec(g, e, path):
        if isinstance(e, (list, tuple)):
            if not isinstance(g, (list, tuple)) or len(g) != len(e):
                out.append((f"{label}{path} has {len(g) if isinstance(g, (list, tuple)) else 'no'} entries, expected {len(e)}", False))
                return
            for k, (a, b) in enumerate(zip(g, e)):
                rec(a, b, path + [k])
        else:
            c = g == e
            if c is not True:
                out.append((f"{label}{path}", c if isinstance(c, Sym) else bool(c)))
    rec(got, exp, [])
    return out


# ------------------------------------------------------------------ states
def np_arr(ctx, x):
    if ctx.symbolic:
        from pv import npshim
        return npshim.sarr(x)
    import numpy as np
    return np.array(x, dtype=np.float32)


class Rec:
    pass


def make_cells(ctx, tag, rich=True):
    """The contents of an arbitrary recorded state."""
    def iv(n, lo, hi):
        return ctx.int(f"{tag}{n}", lo, hi) if rich else lo
    d = Rec()
    d.hand = [iv(f"h{k}", 0, 4) if k < 34 else iv(f"h{k}", 0, 1) for k in range(37)]
    d.pov = [iv(f"v{k}", 0, 4) if k < 34 else iv(f"v{k}", 0, 1) for k in range(37)]
    d.river = [[iv(f"r{p}_{k}", 0, 1) for k in range(37)] for p in range(4)]
    d.scores = [iv(f"s{p}", -2000, 3000) for p in range(4)]
    d.parent = [iv(f"pa{p}", 0, 1) for p in range(4)]
    d.prr = [iv(f"pr{p}", -1, 2) for p in range(4)]
    d.dr = [iv(f"dr{p}", 0, 1) for p in range(4)]
    d.re = [iv(f"re{p}", 0, 1) for p in range(4)]
    d.ip = [iv(f"ip{p}", 0, 1) for p in range(4)]
    d.mz = [iv(f"mz{p}", 0, 1) for p in range(4)]
    d.tsumo, d.kyo, d.hon, d.rr = iv("t", 0, 70), iv("k", 0, 30), iv("o", 0, 30), iv("q", -4, 8)
    return d


def with_cells(ctx, cells, player):
    d = Rec()
    d.__dict__.update(cells.__dict__)
    d.player = player
    so = ctx.mod("MahjongAI.state").StateObject
    d.obj = so(remaining_turns=d.tsumo, hand_tensor=np_arr(ctx, d.hand), remaining_tiles=np_arr(ctx, [0] * 37),
               remaining_tiles_pov=np_arr(ctx, d.pov), sutehai_tensors=np_arr(ctx, d.river), is_menzen=list(d.mz),
               double_reaches=list(d.dr), reaches=list(d.re), ippatsu=list(d.ip), melds=[[] for _ in range(4)],
               scores=list(d.scores), kyotaku=d.kyo, honba=d.hon, dora=[0], parent_tensor=np_arr(ctx, d.parent),
               rounds_remaining=d.rr, parent_rounds_remaining=list(d.prr), remaining_tsumo=d.tsumo, player=player)
    return d


def make_state(ctx, tag, player, rich=True):
    """An arbitrary recorded state."""
    return with_cells(ctx, make_cells(ctx, tag, rich), player)


def thermo(c):
    return [b2i(j < c) if isinstance(c, Sym) else int(j < c) for j in range(4)]


def features(agent, d):
    p = d.player
    if agent == "t":
        x1 = [list(d.hand), list(d.pov), list(d.river[p])]
    elif agent in ("c", "l"):
        x1 = [[thermo(c) for c in row] for row in (d.hand, d.pov, d.river[p])]
    else:
        rows = [d.hand, d.pov] + [d.river[(p + i) % 4] for i in range(4)]
        x1 = [[thermo(c) for c in row] for row in rows]
    x2 = [d.scores, d.parent, d.prr, d.dr, d.re, d.ip, d.mz]
    x3 = [d.tsumo, d.kyo, d.hon, d.rr]
    return x1, x2, x3


# ------------------------------------------------------------------ decision points
class FakeCall:
    """A call, seen only through its action numbers (contract C04)."""

    def __init__(self, during=None, post=None):
        self.d, self.p = during, post

    def get_during_turn_filter_idx(self):
        return self.d

    def get_post_turn_filter_idx(self):
        return self.p


class Taken:
    """Hands out `executed` marks so that at most one option of the decision point is taken."""

    def __init__(self, ctx, tag, n, may=True):
        self.ctx = ctx
        self.who = ctx.int(tag + "taken", -1, n - 1) if may else -1
        self.k = -1

    def next(self):
        self.k += 1
        c = self.who == self.k
        return c


def options(ctx, tag, taken, player, n_agari, n_reach, n_naki, post):
    """-> (decision lists as process() stores them, [(action number, taken)])"""
    D = ctx.mod("MahjongAI.decision")
    acts = []
    ag, re, nk = [], [], []
    for _ in range(n_agari):
        t = taken.next()
        ag.append(D.AgariDecision(player, t))
        acts.append((1, t))
    for _ in range(n_reach):
        t = taken.next()
        re.append(D.ReachDecision(player, t))
        acts.append((2, t))
    idx = []
    for k in range(n_naki):
        i = ctx.int(f"{tag}c{k}", 2 if post else 3, 153 if post else 70)
        for j in idx:
            ctx.assume(i != j)
        idx.append(i)
        t = taken.next()
        nk.append(D.NakiDecision(player, FakeCall(post=i) if post else FakeCall(during=i), t))
        acts.append((i, t))
    return [ag, re, nk], acts


def mask_of(acts, dim):
    out = []
    for a in range(dim):
        if a == 0:
            out.append(1)
        else:
            c = Or(*[x == a for x, _ in acts]) if acts else False
            out.append(b2i(c))
    return out


def label_of(acts):
    y = 0
    for x, t in acts:
        y = ite(t, x, y)
    return y


def make_turn(ctx, tag, kind, spec, rich=True, enc=None, pl=None):
    """-> (turn object, expected rows [(state, mask, label, player)], assumptions)"""
    T = ctx.mod("MahjongAI.turn")
    pl = spec["player"] if pl is None else pl
    st = make_state(ctx, tag, pl, rich)
    if kind == "discard":
        tile = ctx.int(tag + "tile", 0, 135)
        k = tile // 4
        for j in range(34):
            ctx.assume(Implies(k == j, st.hand[j] >= 1))
        turn = T.DiscardTurn(pl, st.obj, tile, enc)
        return turn, [(st, [b2i(c >= 1) for c in st.hand], k, pl)]
    if kind == "during":
        na, nr, nn = spec["opts"]
        tk = Taken(ctx, tag, na + nr + nn, spec.get("may", True))
        dec, acts = options(ctx, tag, tk, pl, na, nr, nn, False)
        turn = T.DuringTurn(pl, st.obj, dec, enc)
        if not acts:
            return turn, []
        return turn, [(st, mask_of(acts, 71), label_of(acts), pl)]
    # post: options of the three other seats
    dec = [[[], [], []] for _ in range(4)]
    tk = Taken(ctx, tag, sum(na + nn for na, nn in spec["opts"]), spec.get("may", True))
    rows = []
    gone = False
    for i, (na, nn) in enumerate(spec["opts"]):
        p = (pl + 1 + i) % 4
        dec[p], acts = options(ctx, f"{tag}p{i}", tk, p, na, 0, nn, True)
        if acts:
            rows.append((Not(gone) if isinstance(gone, Sym) else not gone, (st, mask_of(acts, 154), label_of(acts), p)))
        for _, t in acts:
            gone = Or(gone, t)
    turn = T.PostTurn(pl, st.obj, dec, enc)
    return turn, [r for c, r in rows if bool(c)]       # forks on who acted


_native_proc = {}


def processor(ctx, m, may_change=()):
    """the sample builder; it outlives the call, so no call may leave anything behind in it (natively one serves all calls)"""
    if ctx.symbolic:
        return ctx.persist(m.TransformerTensorProcessor(), may_change)
    if m not in _native_proc:
        _native_proc[m] = m.TransformerTensorProcessor()
    return _native_proc[m]


def call_builder(ctx, agent, kind, turns, tokens):
    m = ctx.mod(AG[agent])
    proc = processor(ctx, m)
    out = proc.build_tensors(turns, tokens)
    return out[KINDS.index(kind)], out


def tolist(t):
    return t.tolist()


def unpack(agent, tup):
    enc, (x1, x2, x3), mask, y = tup[:4]
    pl = tup[4] if agent == "o" else None
    return enc, x1, x2, x3, mask, y, pl


def shapes(agent):
    return {"t": [3, 37], "c": [3, 37, 4], "l": [3, 37, 4], "o": [6, 37, 4]}[agent]


def check_rows(ctx, agent, kind, tup, rows, tokens, encs, what=("mask", "feat", "hist")):
    enc, x1, x2, x3, mask, y, pl = unpack(agent, tup)
    n = len(rows)
    ctx.prove("one sample per expected decision", And(*[list(t.shape)[0] == n for t in (enc, x1, x2, x3, mask, y)]),
              f"expected {n}, got {[list(t.shape)[0] for t in (enc, x1, x2, x3, mask, y)]}")
    ctx.prove("sample tensors have the documented shapes",
              And(list(enc.shape) == [n, 150], list(x1.shape) == [n] + shapes(agent), list(x2.shape) == [n, 7, 4],
                  list(x3.shape) == [n, 4], list(mask.shape) == [n, DIM[kind]], list(y.shape) == [n]))
    if not n:
        return
    L = tolist
    if "mask" in what:
        ctx.prove_all("the mask allows exactly the actions offered", eq_cells("mask", L(mask), [r[1] for r in rows]))
        ctx.prove_all("the label is the action taken, or pass", eq_cells("label", L(y), [r[2] for r in rows]))
        if pl is not None:
            ctx.prove_all("each sample carries the deciding player", eq_cells("player", L(pl), [r[3] for r in rows]))
        ok = []
        for r, yy, mm in zip(rows, L(y), L(mask)):
            ok.append(("label allowed", Or(*[And(yy == a, c == 1) for a, c in enumerate(mm)])))
        ctx.prove_all("the label is allowed by the mask", ok)
    if "feat" in what:
        f = [features(agent, r[0]) for r in rows]
        for nm, t, k in (("x1", x1, 0), ("x2", x2, 1), ("x3", x3, 2)):
            ctx.prove_all(f"features {nm} are the recorded state", eq_cells(nm, L(t), [g[k] for g in f]))
    if "hist" in what:
        exp = [[tokens[j] if j < e else 0 for j in range(150)] for e in encs]
        ctx.prove_all("the history is exactly the tokens before the decision", eq_cells("enc", L(enc), exp))


def one_turn(ctx, what):
    P = ctx.params
    agent, kind = P["agent"], P["kind"]
    if "mask" in what and "feat" not in what and kind != "discard":
        rich = False
    else:
        rich = True
    turn, rows = make_turn(ctx, "a", kind, P, rich=rich, enc=0)
    tup, out = call_builder(ctx, agent, kind, [turn], [])
    check_rows(ctx, agent, kind, tup, rows, [], [0] * len(rows), what)
    for k in KINDS:
        if k != kind:
            ctx.prove("a decision point yields samples of its own kind only", list(out[KINDS.index(k)][2].shape) == [0, DIM[k]])
    ctx.cover("one turn")
    if rows:
        ctx.cover("rows")


def c15_turn(ctx):
    one_turn(ctx, ("mask",))


def c17_turn(ctx):
    one_turn(ctx, ("feat",))


def seq_opts(kind, i):
    if kind == "during":
        return [(1, 1, 1), (0, 0, 0), (0, 0, 2)][i % 3]
    if kind == "post":
        return [((0, 0), (1, 1), (0, 1)), ((0, 0), (0, 0), (0, 0)), ((0, 2), (0, 0), (1, 0))][i % 3]
    return None


def several(ctx):
    """Several decision points of one kind in one round: rows in order, nothing mixed up."""
    P = ctx.params
    agent, kind = P["agent"], P["kind"]
    ntok = 6
    toks = [ctx.int(f"tok{i}", 1, (1 << 17) - 1) for i in range(ntok)]
    turns, rows, encs = [], [], []
    for i in range(P["n"]):
        e = (2 * i + 1) % (ntok + 1)
        t, r = make_turn(ctx, f"t{i}_", kind, {"player": (P["player"] + i) % 4, "opts": seq_opts(kind, i + P["shift"])},
                         rich=True, enc=e)
        turns.append(t)
        rows += r
        encs += [e] * len(r)
    tup, _ = call_builder(ctx, agent, kind, turns, toks)
    check_rows(ctx, agent, kind, tup, rows, toks, encs)
    ctx.cover("several")


def history(ctx):
    """Every recorded position in a round of any length up to 150 tokens."""
    P = ctx.params
    agent, kind, L = P["agent"], P["kind"], P["len"]
    toks = [ctx.int(f"tok{i}", 1, (1 << 17) - 1) for i in range(L)]
    e = ctx.conc(ctx.int("enc", 0, min(L, 149)))
    spec = {"player": 1, "opts": (1, 0, 0) if kind == "during" else ((1, 0), (0, 0), (0, 0))}
    t, rows = make_turn(ctx, "a", kind, dict(spec), rich=False, enc=e) if kind != "discard" else \
        make_turn_fixed_discard(ctx, e)
    tup, _ = call_builder(ctx, agent, kind, [t], toks)
    check_rows(ctx, agent, kind, tup, rows, toks, [e] * len(rows), ("hist",))
    ctx.cover("history")


def make_turn_fixed_discard(ctx, e):
    T = ctx.mod("MahjongAI.turn")
    st = make_state(ctx, "a", 1, False)
    st.hand[0] = 1
    st.obj.hand_tensor[0] = 1
    return T.DiscardTurn(1, st.obj, 0, e), [(st, None, 0, 1)]


def batches(ctx):
    """prepare_batches: rounds of all games, concatenated in order, kinds kept apart."""
    P = ctx.params
    agent = P["agent"]
    games_t, games_k, exp = [], [], {k: [] for k in KINDS}
    n = 0
    for g, rounds in enumerate(P["layout"]):
        gt, gk = [], []
        for r, kinds in enumerate(rounds):
            toks = [ctx.int(f"tok{g}_{r}_{i}", 1, (1 << 17) - 1) for i in range(2)]
            turns = []
            for i, kind in enumerate(kinds):
                e = (i + r) % 3
                t, rows = make_turn(ctx, f"g{g}r{r}t{i}_", kind, {"player": n % 4, "opts": seq_opts(kind, n), "may": n in P["may"]}, rich=True, enc=e)
                n += 1
                turns.append(t)
                exp[kind] += [(row, toks, e) for row in rows]
            gt.append(turns)
            gk.append(toks)
        games_t.append(gt)
        games_k.append(gk)
    m = ctx.mod(AG[agent])
    out = processor(ctx, m).prepare_batches(games_t, games_k)
    for ki, kind in enumerate(KINDS):
        rows = [x[0] for x in exp[kind]]
        enc, x1, x2, x3, mask, y, pl = unpack(agent, out[ki])
        check_rows(ctx, agent, kind, out[ki], rows, [], [0] * 0, ("mask", "feat"))
        if rows:
            e2 = [[tk[j] if j < e else 0 for j in range(150)] for _, tk, e in exp[kind]]
            ctx.prove_all("the history is exactly the tokens before the decision", eq_cells("enc", tolist(enc), e2))
    ctx.cover("batches")


# ------------------------------------------------------------------ forward(): sampling and alignment
def forward(ctx):
    P = ctx.params
    agent = P["agent"]
    m = ctx.mod(AG[agent])
    torch = m.torch
    cls = [c for n, c in vars(m).items() if isinstance(c, type) and n.startswith("Transformer") and n.endswith("Model")][0]
    model = object.__new__(cls)
    if not ctx.symbolic:
        torch.nn.Module.__init__(model)
    sizes = P["sizes"]
    tens = []
    for kind, n in zip(KINDS, sizes):
        def col(nm, *shape):
            def rec(sh, path):
                if not sh:
                    return ctx.int(f"{kind}{nm}{path}", 0, 9)
                return [rec(sh[1:], path + [j]) for j in range(sh[0])]
            v = rec([n] + list(shape), [])
            return torch.tensor(v, dtype=torch.int64) if n else torch.empty(*([0] + list(shape)))
        tup = (col("e", 2), (col("x", 1), col("y", 1), col("z", 1)), col("m", 2), col("l"))
        if agent == "o":
            tup += (col("p"),)
        tens.append(tup)
    perm = None

    class TP:
        def prepare_batches(self, a, b):
            return tuple(tens)

    log = []

    def enc(tokens, *pl):
        log.append([tokens] + list(pl))
        return "enc"

    def dec(e, st, mask, y, head):
        log[-1] += [e, st, mask, y, head]
        return "logits", "loss"
    d = vars(model)
    d["tensor_processor"], d["encoder"], d["decoder"] = TP(), enc, dec
    if ctx.symbolic:
        perms = {}
        import itertools

        def rp(n):
            pm = perms.setdefault(n, None)
            import random
            order = list(range(n))
            which = ctx.conc(ctx.int(f"perm{n}_{len(log)}", 0, 2))
            order = order if which == 0 else order[::-1] if which == 1 else order[1:] + order[:1]
            return torch.tensor(order, dtype=torch.int64)
        ctx.tags["randperm"] = rp
    res = list(model.forward([], [], sample=P["sample"], sample_size=P["limit"]))
    heads = [k for k, n in zip(KINDS, sizes) if n]
    ctx.prove("one result per kind with samples, in order", And([l[-1] for l in log] == heads, len(res) == len(heads)))
    for l, kind in zip(log, heads):
        tup = tens[KINDS.index(kind)]
        n = sizes[KINDS.index(kind)]
        want = min(n, P["limit"]) if P["sample"] else n
        off = 1 if agent == "o" else 0
        got_cols = [l[0], *l[2 + off], l[3 + off], l[4 + off]] + ([l[1]] if off else [])
        src_cols = [tup[0], *tup[1], tup[2], tup[3]] + ([tup[4]] if off else [])
        ctx.prove("the encoder output goes to the decoder", l[1 + off] == "enc")
        ctx.prove("sample size respected", And(*[list(t.shape)[0] == want for t in got_cols]))
        gl, sl = [tolist(t) for t in got_cols], [tolist(t) for t in src_cols]

        def flat(x):
            return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]

        def same_row(i, j):
            return And(*[a == b for g, s in zip(gl, sl) for a, b in zip(flat(g[i]), flat(s[j]))])
        ctx.prove_all("tokens, state, mask, label and player of a sample stay together",
                      [(f"row {i}", Or(*[same_row(i, j) for j in range(n)])) for i in range(want)])
    ctx.cover("forward")


# ------------------------------------------------------------------ encoder
TABLES = {"type_embedding": "kind", "tile_embedding": "tile", "tsumogiri_embedding": "drawn",
          "during_naki_embedding": "own", "post_naki_embedding": "reaction"}


def token_fields(ctx, name, kind):
    """An arbitrary token the library can emit, described by its fields (C05)."""
    who = ctx.int(name + "w", 0, 3)
    if kind == "pad":
        return 0, None
    if kind == "discard":
        tile, dr = ctx.int(name + "t", 0, 36), ctx.int(name + "d", 0, 1)
        return (1 << 13) + (1 << 10) + who * 256 + dr * 128 + tile, dict(kind=1, tile=tile, who=who, drawn=dr)
    if kind == "own":
        a = ctx.int(name + "a", 3, 70)
        return (2 << 13) + (2 << 10) + who * 256 + a, dict(kind=2, who=who, own=a)
    if kind == "riichi":
        return (2 << 13) + (3 << 10) + who * 256 + 2, dict(kind=3, who=who)
    if kind == "reaction":
        a = ctx.int(name + "a", 2, 153)
        return (3 << 13) + (2 << 10) + who * 256 + a, dict(kind=2, who=who, reaction=a)
    tile = ctx.int(name + "t", 0, 36)
    return (4 << 13) + (4 << 10) + tile, dict(kind=4, tile=tile)


TOKEN_KINDS = ["pad", "discard", "own", "riichi", "reaction", "dora"]


def named_tables(enc, m):
    """The encoder's tables, each row standing for itself."""
    from pv import torchshim as TS
    for attr, v in list(vars(enc).items()):
        if isinstance(v, TS.Embedding):
            v.name = TABLES.get(attr, attr)
        elif isinstance(v, TS.Tensor) and v.ndim == 2 and v.shape[1] == m.EMBD_SIZE:
            nm = "player" if v.shape[0] == 4 else "position" if v.shape[0] == 150 else attr
            setattr(enc, attr, TS.atom_table(nm, v.shape[0], v.shape[1]))


def encoder(ctx):
    P = ctx.params
    agent, T = P["agent"], P["T"]
    m = ctx.mod(AG[agent])
    torch = m.torch
    B = 2
    toks, info = [], []
    for b in range(B):
        rt, ri = [], []
        for t in range(T):
            kind = TOKEN_KINDS[(t + b + P["shift"]) % 6] if T > 1 else P["kind"]
            v, f = token_fields(ctx, f"x{b}_{t}", kind)
            rt.append(v)
            ri.append(f)
        toks.append(rt)
        info.append(ri)
    players = [ctx.int(f"pl{b}", 0, 3) for b in range(B)]
    enc = m.Encoder(1)
    tt = torch.tensor(toks, dtype=torch.float32)
    args = (tt,) + ((torch.tensor(players, dtype=torch.int64),) if agent == "o" else ())
    if ctx.symbolic:
        from pv import torchshim as TS
        named_tables(enc, m)
        enc.blocks = []
        x = enc.forward(*args)
        ctx.prove("one vector per event", And(isinstance(x, TS.Emb), list(x.shape) == [B, T, m.EMBD_SIZE]))
        rows = {"kind": 4, "tile": 37, "drawn": None, "player": 4, "position": 150, "own": 71, "reaction": 154}
        pairs = []
        for b in range(B):
            for t in range(T):
                f = info[b][t]
                lc = x.a[b, t]
                names = {n for _, n, _ in lc.t} | set(rows)
                for n in names:
                    terms = [(c, i) for c, nn, i in lc.t if nn == n]
                    e = expected_row(f, n, t, players[b] if agent == "o" else None, agent)
                    if e is None:
                        c = And(*[k == 0 for k, _ in terms]) if terms else True
                    elif len(terms) == 1:
                        c = And(terms[0][0] == e[0], Or(e[0] == 0, e[1] is None or terms[0][1] == e[1]))
                    elif not terms:
                        c = e[0] == 0
                    else:
                        r = ctx.int(f"row_{b}_{t}_{n}", 0, 200)
                        c = Sum(ite(i == r, k, 0) for k, i in terms) == ite(r == e[1], e[0], 0)
                    if c is not True:
                        pairs.append((f"event {b},{t} table {n}", c))
        ctx.prove_all("an event is the sum of exactly the embeddings that apply to it", pairs)
    else:
        import numpy as np
        torch.nn.Module.eval(enc)
        with torch.no_grad():
            enc.blocks = torch.nn.Sequential()
            try:
                x = enc(*args).numpy()
            except IndexError as e:
                ctx.prove("only existing rows of the embedding tables are looked up", False, str(e))
        W = {v: getattr(enc, k).weight.detach().numpy() for k, v in TABLES.items()}
        W["player"], W["position"] = enc.player_coding_table.numpy(), enc.position_coding_table.numpy()
        for b in range(B):
            for t in range(T):
                exp = np.zeros(m.EMBD_SIZE, dtype=np.float64)
                for n in list(W):
                    e = expected_row(info[b][t], n, t, players[b] if agent == "o" else None, agent)
                    if e is not None and e[0]:
                        exp += e[0] * W[n][e[1] if e[1] is not None else 0]
                ctx.prove("an event is the sum of exactly the embeddings that apply to it",
                          bool(np.allclose(x[b, t], exp, atol=1e-4)), f"event {b},{t} {info[b][t]}")
    ctx.cover("encoder")


def expected_row(f, table, t, pov, agent):
    """(coefficient, row) of the row of `table` an event contributes, or None"""
    if f is None:
        return None
    if table == "kind":
        return 1, f["kind"] - 1
    if table == "position":
        return 1, t
    if table == "tile":
        return (1, f["tile"]) if "tile" in f else None
    if table == "player":
        if "who" not in f:
            return None
        return 1, (f["who"] if pov is None else (f["who"] - pov) % 4)
    if table == "drawn":
        return (f["drawn"], 1 if agent == "o" else 0) if "drawn" in f else None
    if table == "own":
        return (1, f["own"]) if "own" in f else None
    if table == "reaction":
        return (1, f["reaction"]) if "reaction" in f else None
    return None


# ------------------------------------------------------------------ decoder
def decoder(ctx):
    P = ctx.params
    agent, head = P["agent"], P["head"]
    m = ctx.mod(AG[agent])
    torch = m.torch
    B, dim = 2, DIM[head]
    if ctx.symbolic:
        mask = [[ctx.int(f"m{b}_{a}", -2, 3) for a in range(dim)] for b in range(B)]
    else:
        bad = ctx.int("bad", 0, 5)
        mask = [[ctx.int(f"m{b}_{a}", 0, 1) for a in range(dim)] for b in range(B)]
        if bad == 1:
            r, a = ctx.int("br", 0, B - 1), ctx.int("ba", 0, dim - 1)
            mask[r][a] = ctx.int("bv", 2, 3)
        if bad == 2:
            r = ctx.int("br", 0, B - 1)
            mask[r] = [0] * dim
    y = [ctx.int(f"y{b}", 0, dim - 1) for b in range(B)]
    raw = []
    dec = m.Decoder(1)
    E = m.EMBD_SIZE
    if ctx.symbolic:
        from pv import torchshim as TS

        def linear(mod, x):
            if mod.out_features in (37, 71, 154) and mod.in_features == E:
                k = len(raw)
                sh = tuple(x.shape[:-1]) + (mod.out_features,)
                n = 1
                for s in sh:
                    n *= s
                t = torch.tensor([ctx.int(f"z{k}_{j}", None, None) for j in range(n)]).reshape(sh)
                raw.append(t)
                return t.clone()
            return TS.opaque(tuple(x.shape[:-1]) + (mod.out_features,))
        ctx.tags["linear"] = linear
        mk = TS.opaque
    else:
        torch.manual_seed(P.get("seed", 0) + ctx.int("seed", 0, 1000))
        torch.nn.Module.eval(dec)

        M = ctx.pick("magnitude", [5, 100, 10 ** 6, 3 * 10 ** 9])

        def hook(mod, inp, out):                # any scores are possible: replace those of the random weights
            if mod.out_features in (37, 71, 154) and mod.in_features == E:
                k = len(raw)
                t = torch.tensor([float(ctx.int(f"z{k}_{j}", -M, M)) for j in range(out.numel())],
                                 dtype=torch.float32).reshape(out.shape)
                raw.append(t)
                return t.clone()
        for mod in dec.modules():
            if isinstance(mod, torch.nn.Linear):
                mod.register_forward_hook(hook)
        mk = lambda sh: torch.randn(*sh)
    x1 = [B] + shapes(agent)
    st = (mk(x1), mk([B, 7, 4]), mk([B, 4]))
    ok = And(*[Or(v == 0, v == 1) for r in mask for v in r] + [Or(*[v != 0 for v in r]) for r in mask])
    try:
        logits, loss = dec.forward(mk([B, 150, E]), st, torch.tensor(mask, dtype=torch.float32),
                                   torch.tensor(y, dtype=torch.int64), head)
    except AssertionError:
        ctx.prove("a valid mask is accepted", Not(ok))
        ctx.cover("rejected")
        return
    ctx.prove("a non-binary mask or one without an allowed action is rejected", ok)
    ctx.prove("one score per action", list(logits.shape) == [B, dim])
    raws = [r for r in raw if list(r.shape)[-1] == dim]
    ctx.prove("the scores come from the requested head", And(len(raws) == 1, len(raw) == 1))
    z = tolist(raws[0].reshape(B, dim))
    g = tolist(logits)
    pairs = []
    for b in range(B):
        for a in range(dim):
            if ctx.symbolic:
                c = g[b][a] == ite(mask[b][a] == 0, -10 ** 9, z[b][a])
            else:
                c = abs(g[b][a] - (-1e9 if mask[b][a] == 0 else z[b][a])) <= 1e-5 * max(1, abs(g[b][a]))
            pairs.append((f"row {b} action {a}", c))
    ctx.prove_all("forbidden actions score -1e9, allowed actions keep their score", pairs)
    if ctx.symbolic:
        calls = ctx.tags.get("cross_entropy", [])
        ctx.prove("the loss is taken on the masked scores and the labels",
                  And(len(calls) == 1, *([c for _, c in eq_cells("l", tolist(calls[0][0]), g)] +
                                         [c for _, c in eq_cells("y", tolist(calls[0][1]), y)] if calls else [False])))
    ctx.cover("accepted")


def alpha(xs):
    return [{"agent": a, **x} for a in "tclo" for x in xs]


DUR = [(a, r, n) for a in (0, 1) for r in (0, 1) for n in (0, 1, 2, 4)]
POST = [((0, 0), (0, 0), (0, 0)), ((1, 8), (0, 0), (0, 0)), ((0, 0), (1, 3), (0, 0)), ((0, 0), (0, 0), (1, 3)),
        ((1, 2), (1, 1), (1, 1)), ((0, 1), (1, 0), (0, 2)), ((0, 2), (0, 0), (0, 1)), ((1, 0), (0, 1), (0, 0)),
        ((0, 0), (1, 2), (1, 2))]
TURN_CASES = alpha([{"kind": "during", "player": p, "opts": o} for p in range(4) for o in DUR]
                   + [{"kind": "discard", "player": p} for p in range(4)]
                   + [{"kind": "post", "player": p, "opts": o} for p in range(4) for o in POST])
FEAT_CASES = alpha([{"kind": "during", "player": p, "opts": (1, 0, 0)} for p in range(4)]
                   + [{"kind": "discard", "player": p} for p in range(4)]
                   + [{"kind": "post", "player": p, "opts": ((1, 0), (0, 0), (0, 1))} for p in range(4)])
SEQ_CASES = alpha([{"kind": k, "n": n, "player": 1, "shift": s} for k in KINDS for n, s in ((0, 0), (2, 0), (3, 1))])
HIST_CASES = alpha([{"kind": k, "len": n} for k in KINDS for n in (0, 1, 2, 37, 100, 149, 150)])
BATCH_CASES = alpha([{"layout": [[["during", "discard", "post"], ["post", "during"]], [["discard", "during", "post", "discard"]]], "may": m} for m in ([0, 8], [2], [3, 4], [6, 7])]
                    + [{"layout": [[["discard"], []], [["discard"]]], "may": []}])
FWD_CASES = alpha([{"sizes": s, "sample": sm, "limit": l} for s, sm, l in
                   (([3, 2, 4], True, 2), ([3, 0, 1], True, 2), ([2, 3, 2], False, 2), ([0, 3, 0], True, 3), ([1, 1, 5], True, 3))])
ENC_CASES = alpha([{"T": 150, "shift": s} for s in range(6)] + [{"T": 1, "kind": k, "shift": 0} for k in TOKEN_KINDS])
DEC_CASES = alpha([{"head": h} for h in KINDS])


def fn(*names):
    return [f"agents.{AG[a].split('.')[-1]}.{n}" for a in "tclo" for n in names]


TP = "TransformerTensorProcessor."
UNITS = [
    Unit("agents.turn", c15_turn, "int", TURN_CASES, env="agents", covers=["one turn", "rows"], search=600, smoke=60,
         functions=fn(TP + "build_tensors", TP + "_build_during_tensor", TP + "_build_discard_tensor", TP + "_build_post_tensor")),
    Unit("agents.features", c17_turn, "int", FEAT_CASES, env="agents", covers=["rows"], search=200, smoke=40,
         functions=fn(TP + "_convert_state_obj_to_tensors")),
    Unit("agents.sequence", several, "int", SEQ_CASES, env="agents", covers=["several"], search=120, smoke=24,
         functions=fn(TP + "build_tensors")),
    Unit("agents.history", history, "int", HIST_CASES, env="agents", covers=["history"], search=600, smoke=60, time_limit=400,
         functions=fn(TP + "_build_during_tensor", TP + "_build_discard_tensor", TP + "_build_post_tensor")),
    Unit("agents.batches", batches, "int", BATCH_CASES, env="agents", covers=["batches"], search=60, smoke=16,
         functions=fn(TP + "prepare_batches", TP + "stack_batches")),
    Unit("agents.forward", forward, "int", FWD_CASES, env="agents", covers=["forward"], search=100, smoke=20,
         functions=[f"agents.{AG[a].split('.')[-1]}.Transformer*Model.forward" for a in "tclo"]),
    Unit("agents.encoder", encoder, "bv", ENC_CASES, env="agents", covers=["encoder"], search=80, smoke=24,
         functions=fn("Encoder.forward", "Encoder.__init__")),
    Unit("agents.decoder", decoder, "int", DEC_CASES, env="agents", covers=["accepted", "rejected"], search=120, smoke=24,
         functions=fn("Decoder.forward")),
]
PROPS = {"C15": ["agents.turn", "agents.sequence"], "C16": ["agents.history", "agents.sequence", "agents.batches"],
         "C17": ["agents.features", "agents.sequence", "agents.batches", "agents.forward"],
         "C18": ["agents.encoder"], "C19": ["agents.decoder"]}
_A = ["torch is represented by /verif/pv/torchshim.py (tensor shape, indexing and element-wise semantics), cross-checked against the real torch on random inputs",
      "float32 holds the integers involved (tokens < 2^17, scores, counts) exactly"]
_N = ("any game and round: any number of decision points, options, earlier turns (up to the 150-token limit of the encoder), any player; "
      "for the four models. The agents.* units repeat this on small concrete shapes, where a refutation is replayed on the real code.")
INFO = {"C15": {"note": _N, "assumptions": _A + ["a call's action number satisfies C04", "options of one decision point have distinct action numbers (C06)",
                                                 "at most one option of a decision point is marked as taken (C08)"]},
        "C16": {"note": _N, "assumptions": _A}, "C17": {"note": _N, "assumptions": _A},
        "C18": {"note": "a batch of any size of 150-event sequences, every event of any kind with any fields; the four models.",
                "assumptions": _A + ["tokens satisfy C05"]},
        "C19": {"note": "a batch of any size, any mask, any scores; three heads, four models.",
                "assumptions": _A + ["layers before the heads are opaque: any scores are possible"]}}
