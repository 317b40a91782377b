"""C13 (grouping and rejection of logs), C21 (data loader), C22 (checkpoints)."""
import os
import random
import re
import tempfile
import shutil

from pv.ops import *

SL = "MahjongAI.supervised_learning"
DL = "MahjongAI.utils.dataloader"
PX = "MahjongAI.process_xml"


# --------------------------------------------------------------------------- C22
MODELS = ["transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_large_3",
          "transformer_conv_ordered", "transformer_conv_ordered_large_2", "transformer_conv_ordered_large_3",
          "transformer_conv_ordered_large_4", "transformer_conv_ordered_large_5"]
DIRS = ["saved_models", "runs/model_transformer_checkpoint_iter_9.pt"]


class Files:
    """The loop over the files of a directory, under the invariant: (best number so far, its file)."""

    def __init__(self, ctx, lang, wrap):
        self.ctx, self.lang, self.wrap = ctx, lang, wrap
        self.name, self.dir, self.phase = ctx.params["model"], ctx.params["dir"], ctx.params["phase"]
        self.elem = None
        self.k_heads = 0

    def spec_file(self, tag):
        import z3
        from pv.symstr import SymStr
        d = z3.String(tag + "_digits")
        t = z3.Concat(z3.StringVal(f"model_{self.name}_checkpoint_iter_"), d, z3.StringVal(".pt"))
        self.ctx.assume(mk_bool(z3.InRe(d, z3.Plus(z3.Range("0", "9")))))
        from pv.symstr import number_of
        return SymStr(t), number_of(d)

    def head(self, frame, k):
        from pv import cut
        import z3
        from pv.symstr import SymStr
        c = self.ctx
        roles, changing = c.tags["roles"]
        loc = cut.get_locals(frame)
        if k == 0:
            self.init = loc
            new = {n: cut.Poison(n) for n in changing if n not in roles}
            self.had = c.phase_had
            if self.had:
                self.F, self.M = self.spec_file("best")
                self.F = self.wrap(self.F)
                for n, r in roles.items():
                    new[n] = {"M": self.M, "F": self.F}[r]
            cut.set_locals(frame, new)
            if self.phase == "exit":
                c.cover("loop left")
                raise StopIteration
            if c.params["elem"] == "checkpoint":
                e, self.v = self.spec_file("elem")
            else:
                e, self.v = SymStr(z3.String("elem")), None
                spec = z3.Concat(z3.Re(f"model_{self.name}_checkpoint_iter_"), z3.Plus(z3.Range("0", "9")), z3.Re(".pt"))
                if self.lang is not None:
                    c.assume(mk_bool(z3.InRe(e.t, self.lang)))
                c.assume(mk_bool(z3.Not(z3.InRe(e.t, spec))))
                c.assume(mk_bool(z3.Not(z3.Contains(e.t, z3.StringVal("/")))))
            self.E = self.wrap(e)
            c.cover("file")
            return self.E
        # the invariant after one more file
        for n, r in roles.items():
            x = loc.get(n)
            if r == "M":
                if self.v is None:
                    c.prove("best number kept", (x == self.M) if self.had else x == self.init.get(n))
                elif self.had:
                    c.prove("best number is the maximum", x == ite(self.v > self.M, self.v, self.M))
                else:
                    c.prove("best number is the maximum", x == self.v)
            else:
                if self.v is None:
                    c.prove("best file kept", (x is self.F) if self.had else x is self.init.get(n))
                elif self.had:
                    c.prove("best file has the best number", Or(And(x is self.E, self.v >= self.M), And(x is self.F, self.M >= self.v)))
                else:
                    c.prove("best file has the best number", x is self.E)
        raise PathEnd


def find_checkpoint(ctx):
    import z3
    from pv import cut, symstr, osshim
    sl = ctx.mod(SL)
    p = ctx.params
    spec = z3.Concat(z3.Re(f"model_{p['model']}_checkpoint_iter_"), z3.Plus(z3.Range("0", "9")), z3.Re(".pt"))

    # ---- which locals carry the invariant: one concrete run
    pre = f"model_{p['model']}_checkpoint_iter_"
    names = ["notes.txt", pre + "3.pt", f"model_{p['model']}_x_checkpoint_iter_90.pt", pre + "12.pt", pre + "5.pt", pre + "7.pt.bak"]
    paths = {"glob": [os.path.join(p["dir"], n) for n in names], "listdir": names}
    samples, seen = [], []

    def sample_seq(kind, fn=lambda x: x):
        best = [None, None]

        def head(frame, k):
            loc = cut.get_locals(frame)
            seen.append(loc)
            if best[0] is not None:
                samples.append((loc, {"M": best[0], "F": best[1]}))
            if k == len(names):
                raise StopIteration
            m = re.fullmatch(re.escape(pre) + r"(\d+)\.pt", names[k])
            if m and (best[0] is None or int(m.group(1)) > best[0]):
                best[:] = [int(m.group(1)), fn(paths[kind][k])]
            return fn(paths[kind][k])
        s = cut.GhostSeq(head)
        s.map = lambda g: sample_seq(kind, lambda x: g(fn(x)))
        return s
    ctx.tags["glob"] = lambda pat, **k: sample_seq("glob")
    ctx.tags["listdir"] = lambda d: sample_seq("listdir")
    r = sl.find_latest_checkpoint(p["model"], p["dir"])
    ctx.prove("sample run", isinstance(r, tuple) and len(r) == 2 and r[0] == 12 and r[1] == paths["glob"][3])
    if not samples:
        raise Unsupported("the loop over the directory was not met")
    roles = cut.infer(samples, ["M", "F"])
    if set(roles.values()) != {"M", "F"}:
        raise Unsupported("no local carries the loop invariant")
    changing = {n for n in set().union(*seen) if any(n not in s or s[n] is not seen[0].get(n) for s in seen)}
    ctx.tags["roles"] = (roles, changing)

    # ---- the proof
    ctx.phase_had = p["had"]
    st = {}

    def listing(kind):
        def f(arg, **k):
            if kind == "glob":
                ctx.prove("looks in the given directory", os.path.dirname(arg) == p["dir"])
                lang = symstr.glob_lang(os.path.basename(arg))
                x = z3.String("any_name")
                ctx.prove("every checkpoint of the model is listed", mk_bool(z3.Implies(z3.InRe(x, spec), z3.InRe(x, lang))))
                wrap = lambda b: osshim.PathOf(p["dir"], b)
            else:
                ctx.prove("looks in the given directory", os.path.normpath(arg) == os.path.normpath(p["dir"]))
                lang, wrap = None, (lambda b: b)
            st["kind"] = kind
            st["files"] = Files(ctx, lang, wrap)
            if p["phase"] == "empty":
                return []
            return seq(st["files"])
        return f

    def seq(files):
        def map_(g):
            w = files.wrap
            files.wrap = lambda b: g(w(b))
            return seq(files)
        s = cut.GhostSeq(files.head)
        s.map = map_
        return s
    ctx.tags["glob"] = listing("glob")
    ctx.tags["listdir"] = listing("listdir")
    r = sl.find_latest_checkpoint(p["model"], p["dir"])
    ctx.cover("returned")
    if p["phase"] == "empty" or not p["had"]:
        ctx.prove("nothing found", isinstance(r, tuple) and len(r) == 2 and r[0] == 0 and r[1] is None)
        return
    f = st["files"]
    F = f.F if isinstance(f.F, osshim.PathOf) else osshim.PathOf(p["dir"], f.F)
    ctx.prove("the newest checkpoint and its number", And(r[0] == f.M, r[1] == F))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="pvscratch")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def find_checkpoint_native(ctx):
    sl = ctx.mod(SL)
    seed = ctx.int("seed", 0, 10 ** 9)
    rng = random.Random(seed)
    model = rng.choice(MODELS)
    names = set()
    if rng.random() < 0.08:                               # a long run: many checkpoints of one model
        names |= {f"model_{model}_checkpoint_iter_{n}.pt" for n in rng.sample(range(rng.choice([300, 1200, 20000])), rng.randint(60, 250))}
    for _ in range(rng.randint(0, 8)):
        m = rng.choice([model, model, model, rng.choice(MODELS), "old_" + model, model + "x", "my_model_" + model])
        n = rng.choice([str(rng.randint(0, 12)), str(rng.randint(0, 3000)), "007", "", "x", "3a"])
        ext = rng.choice([".pt", ".pt", ".pt", ".pt.bak", ".ptx", "_pt", "pt"])
        pre = rng.choice(["model_", "model_", "model_", "a_model_", "Model_"])
        names.add(f"{pre}{m}_checkpoint_iter_{n}{ext}")
    with Scratch() as d:
        d = os.path.join(d, rng.choice(["saved_models", f"model_{model}_checkpoint_iter_55.pt"]))
        os.makedirs(d)
        for n in names:
            open(os.path.join(d, n), "w").close()
        r = sl.find_latest_checkpoint(model, d)
        best = None
        for n in names:
            m = re.fullmatch(re.escape(f"model_{model}_checkpoint_iter_") + r"([0-9]+)\.pt", n)
            if m and (best is None or int(m.group(1)) > best):
                best = int(m.group(1))
        if best is None:
            ctx.prove("nothing found", tuple(r) == (0, None), [sorted(names), repr(r)])
        else:
            ctx.prove("highest number", r[0] == best, [sorted(names), repr(r)])
            m = re.fullmatch(re.escape(f"model_{model}_checkpoint_iter_") + r"([0-9]+)\.pt", os.path.basename(r[1]))
            ctx.prove("its file", os.path.dirname(r[1]) == d and m and int(m.group(1)) == best, [sorted(names), repr(r)])


class FakeModel:
    def __init__(self, *a, **k):
        self.loaded = None

    def to(self, d):
        return self

    def parameters(self):
        return []

    def load_state_dict(self, s, *a, **k):
        self.loaded = s

    def state_dict(self):
        return {"w": 1}

    def train(self, *a):
        return self
    eval = train

    def __call__(self, *a, **k):
        return iter(())


class FakeOpt:
    def __init__(self, *a, **k):
        self.param_groups = [{"lr": 0.0}]

    def zero_grad(self): pass
    def step(self): pass


class FakeLoss:
    def backward(self): pass
    def item(self): return 0.5


class FakeLoader:
    def __init__(self, *a, **k): pass
    def __iter__(self): return iter([([], []), ([], [])])
    def reset(self): pass
    def __repr__(self): return "fake"


def train_run(ctx, ev, made, answer):
    """train()'s surroundings replaced by recorders; `answer` is what looking for a checkpoint gives."""
    sl = ctx.mod(SL)

    class M(FakeModel):
        def __init__(self, *a, **k):
            super().__init__()
            made.append(self)

        def __call__(self, *a, **k):
            return iter([("logits", FakeLoss()), ("logits", FakeLoss())])
    for n in ("TransformerModel", "TransformerConvModel", "TransformerConvLargeModel", "TransformerConvOrderedModel"):
        ctx.patch(sl, n, M)
    ctx.patch(sl, "DataLoader", FakeLoader)
    ctx.patch(sl, "log_message", lambda m: None)
    ctx.patch(sl, "estimate_loss", lambda *a, **k: 0.0)
    ctx.patch(sl.torch.optim, "AdamW", FakeOpt)
    ctx.patch(sl.torch.optim.lr_scheduler, "LambdaLR", FakeOpt)
    ctx.patch(sl.torch, "load", lambda p, **k: (ev.append(("load", p)), ("state of", p))[1])
    ctx.patch(sl.torch, "save", lambda s, p, *a, **k: ev.append(("save", p)))

    def found(name, d):
        ev.append(("find", name, d))
        return answer
    ctx.patch(sl, "find_latest_checkpoint", found)
    if ctx.symbolic:
        ctx.tags["makedirs"] = lambda *a, **k: None
        ctx.tags["open"] = None
    else:
        ctx.patch(sl.os, "makedirs", lambda *a, **k: None)
    return sl


def loaded_right(ctx, ev, made, model, path):
    finds = [e for e in ev if e[0] == "find"]
    ctx.prove("looks for checkpoints of this model", len(finds) == 1 and finds[0][1] == model)
    loads = [e[1] for e in ev if e[0] == "load"]
    ctx.prove("loads exactly the newest checkpoint", len(loads) == (path is not None) and all(x is path for x in loads), loads)
    ctx.prove("the model gets the loaded state",
              len(made) == 1 and (made[0].loaded is None if path is None else made[0].loaded is not None and made[0].loaded[1] is path))
    return finds[0][2]


def resume(ctx):
    """train() continues after the newest checkpoint and saves under the name it will look for (three numbers, two iterations)."""
    model, last = ctx.params["model"], ctx.params["last"]
    ev, made = [], []
    path = None if last is None else f"saved_models/model_{model}_checkpoint_iter_{last}.pt"
    sl = train_run(ctx, ev, made, (0, None) if last is None else (last, path))
    sl.train(model, 2)
    ctx.cover("resume")
    d = loaded_right(ctx, ev, made, model, path)
    start = 0 if last is None else last + 1
    saves = [e[1] for e in ev if e[0] == "save"]
    want = [os.path.join(d, f"model_{model}_checkpoint_iter_{start + i}.pt") for i in range(2)]
    ctx.prove("saves each iteration under the name looked for, numbered on from the newest", saves == want, saves)


def resume_any(ctx):
    """The same for any checkpoint number and any number of iterations: the loop over the iterations is cut, an
    arbitrary iteration is run from arbitrary values of the counters it keeps."""
    from pv import cut
    from pv.symstr import NumStr
    model, phase = ctx.params["model"], ctx.params["phase"]
    # ---- which locals the loop changes: a concrete run
    seen = []

    def sample(*a):
        if len(range(*a)) != 977:
            return None
        start = range(*a)[0]

        def head(frame, k):
            seen.append(cut.get_locals(frame))
            if k == 3:
                raise StopIteration
            return start + k
        return cut.GhostSeq(head)
    ctx.tags["range"] = sample
    sl = train_run(ctx, [], [], (7, "some path"))
    sl.train(model, 977)
    if not seen:
        raise Unsupported("the loop over the iterations was not met")
    changing = {n for n in set().union(*seen) if any(n not in s or s[n] is not seen[0].get(n) for s in seen)}
    counters = {n for n in changing if n in seen[0] and all(type(s[n]) is int for s in seen)}
    # ---- the proof
    had = ctx.params["had"]
    last, iters = ctx.int("last", 0, None), ctx.int("iters", 0, None)
    ev, made, st = [], [], {}
    path = ("the newest checkpoint",) if had else None
    start = last + 1 if had else 0

    def loop(*xs):
        if not any(isinstance(x, Sym) for x in xs):
            return None
        a, b, step = (0, xs[0], 1) if len(xs) == 1 else tuple(xs) + (1,) if len(xs) == 2 else xs
        if st:
            raise Unsupported("two loops over the iterations")
        st["loop"] = True
        if step != 1:
            raise Unsupported("a loop over the iterations in steps")
        ctx.prove("as many iterations as asked for", b - a == iters)

        def head(frame, k):
            if k == 0:
                st["dir"] = loaded_right(ctx, ev, made, model, path)
                ctx.prove("nothing is saved before the first iteration", not any(e[0] == "save" for e in ev))
                new = {n: cut.Poison(n) for n in changing}
                for n in counters:
                    new[n] = ctx.int("any_" + n, None, None)
                cut.set_locals(frame, new)
                del ev[:]
                if phase == "exit":
                    raise StopIteration
                st["i"] = ctx.int("i", 0, None)
                ctx.assume(st["i"] < iters)
                return a + st["i"]
            saves = [e[1] for e in ev if e[0] == "save"]
            p = saves[0] if len(saves) == 1 else None
            want = NumStr.make(f"model_{model}_checkpoint_iter_", start + st["i"], ".pt")
            if isinstance(p, str) and "<?" in p:
                raise Unsupported("the name of the checkpoint")
            ok = p is not None and hasattr(p, "dir") and p.dir == st["dir"].rstrip("/")
            ctx.prove("saves each iteration once, under the name looked for, numbered on from the newest", And(ok, p.base == want) if ok else False, repr(saves))
            ctx.cover("iteration")
            raise PathEnd
        return cut.GhostSeq(head)
    ctx.tags["range"] = loop
    sl = train_run(ctx, ev, made, (last, path) if had else (0, None))
    sl.train(model, iters)
    ctx.prove("the iterations are run", bool(st))
    ctx.prove("nothing is loaded or saved after the last iteration", not ev)
    ctx.cover("resumed")


# --------------------------------------------------------------------------- C21
class Name:
    """the i-th directory entry"""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "<entry>"
    __str__ = __repr__

    def __format__(self, s):
        return "<entry>"


class Listing:
    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of an arbitrary listing")
        if bool(Or(i >= self.n, i < 0)):
            raise IndexError("list index out of range")
        return Name(i)

    def __symlist__(self):
        return Listing(self.n)

    copy = __copy__ = __symlist__

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary listing")

    def __len__(self):
        raise Unsupported("length of an arbitrary listing")


OUTCOMES = ["usable", "invalid", "assertion", "error"]


def outcome(ctx, dl, kind, h, t):
    if kind == "usable":
        return h, t
    if kind == "invalid":
        raise dl.InvalidGameException("bots") if hasattr(dl, "InvalidGameException") else ctx.mod(PX).InvalidGameException("bots")
    if kind == "assertion":
        raise AssertionError("bad log")
    raise ValueError("not a log")


def dl_sample_roles(ctx, dl):
    """Which locals of __next__ hold the results so far."""
    from pv import cut
    ctx.tags["listdir"] = lambda d: ["a", "b", "c", "d"]
    H = {n: ["H" + n] for n in "abcd"}
    T = {n: ["T" + n] for n in "abcd"}
    state = {"H": [], "T": [], "P": []}
    samples, seen = [], []

    def process(path, *a, **k):
        n = os.path.basename(path)
        if n == "b":
            return outcome(ctx, dl, "invalid", 0, 0)
        state["H"] = state["H"] + [H[n]]
        state["T"] = state["T"] + [T[n]]
        state["P"] = state["P"] + [(H[n], T[n])]
        return H[n], T[n]
    ctx.patch(dl, "process", process)

    def head(frame):
        if frame.f_code.co_name != "__next__":
            return True
        loc = cut.get_locals(frame)
        seen.append(dict(loc))
        # copies: the lists grow in place
        samples.append(({k: (list(v) if type(v) is list else v) for k, v in loc.items()}, {k: list(v) for k, v in state.items()}))
        return True
    ctx.tags["while"] = head
    o = dl.DataLoader("dir", 3, lambda m: None)
    before = dict(vars(o))
    r = next(o)
    ctx.prove("sample run", cut.same(list(r), [[H["a"], H["c"], H["d"]], [T["a"], T["c"], T["d"]]]))
    ctx.tags["while"] = None
    if len(samples) < 4:
        raise Unsupported("the loop over the files was not met")
    roles = cut.infer(samples, ["H", "T", "P"])
    if not ({"H", "T"} <= set(roles.values()) or "P" in roles.values()):
        raise Unsupported("no local carries the loop invariant")
    changing = {n for n in set().union(*seen) if n not in ("self",) and any(n not in s or s[n] is not seen[0].get(n) for s in seen)}
    counters = [a for a, v in vars(o).items() if type(v) is int and a not in ("current_index", "batch_size") and v != before.get(a)]
    return roles, changing, counters


class Counter:
    """A number the loader keeps for its log messages: any value, and nothing may depend on it."""

    def __add__(self, o):
        return Counter()
    __radd__ = __sub__ = __mul__ = __add__

    def _bad(self, *a):
        raise Unsupported("the course of a batch depends on a counter the contract knows nothing about")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __int__ = __index__ = __mod__ = __floordiv__ = __truediv__ = __hash__ = _bad

    def __str__(self):
        return "<counter>"
    __repr__ = __str__

    def __format__(self, s):
        return "<counter>"


def loader_next(ctx):
    from pv import cut
    dl = ctx.mod(DL)
    roles, changing, counters = dl_sample_roles(ctx, dl)
    phase = ctx.params["phase"]
    n = ctx.int("files", 0, None)
    bs = ctx.int("batch_size", 1, None)
    k0 = ctx.int("position", 0, None)
    ctx.assume(k0 <= n)
    got = {}

    def listdir(d):
        got["dir"] = d
        return Listing(n)
    ctx.tags["listdir"] = listdir
    logs = []
    o = dl.DataLoader("dir", bs, lambda m: logs.append(m))
    ctx.prove("the given directory is listed", got.get("dir") == "dir")
    ctx.prove("a pass starts at the first file", o.current_index == 0)
    for a in counters:
        setattr(o, a, Counter())
    ctx.persist(o, ("current_index", *counters))
    o.current_index = k0
    ctx.cover("loader")
    S = {"heads": 0, "calls": []}

    def process(path, *a, **k):
        from pv.osshim import PathOf
        S["calls"].append(path)
        if phase == "exit":
            raise PathEnd
        kind = ctx.params["outcome"]
        ctx.prove("the file processed is the next one of the directory",
                  And(isinstance(path, PathOf) and path.dir == "dir" and isinstance(path.base, Name),
                      path.base.i == S["k"] if isinstance(path, PathOf) and isinstance(path.base, Name) else False))
        S["H"], S["T"] = ["H"], ["T"]
        return outcome(ctx, dl, kind, S["H"], S["T"])
    ctx.patch(dl, "process", process)

    def head(frame):
        if frame.f_code.co_name != "__next__":
            return True
        loc = cut.get_locals(frame)
        S["heads"] += 1
        if S["heads"] == 1:
            ctx.prove("starts where the previous batch ended", o.current_index == k0)
            for nme, r in roles.items():
                ctx.prove("a batch starts empty", type(loc[nme]) is list and loc[nme] == [])
                kept = [v for h in (o.__dict__, *[vars(c) for c in type(o).__mro__], vars(dl)) for v in h.values()]
                ctx.prove("a batch does not share its lists with an earlier one",
                          not any(v is loc[nme] or type(v) in (list, tuple) and any(w is loc[nme] for w in v) for v in kept))
            if phase == "base":
                raise PathEnd
            ci = ctx.int("at", 0, None)
            ctx.assume(And(ci >= k0, ci <= n))
            m = ctx.int("collected", 0, None)
            ctx.assume(And(m <= bs, m <= ci - k0))
            o.current_index = ci
            S["k"], S["m"] = ci, m
            # already collected: the results of the usable files among k0..ci-1
            S["lists"] = {r: cut.GhostList(r, m) for r in set(roles.values())}
            new = {x: cut.Poison(x) for x in changing if x not in roles}
            new.update({x: S["lists"][r] for x, r in roles.items()})
            cut.set_locals(frame, new)
            return True
        # second head
        ctx.cover("one file")
        ctx.prove("exactly one file was processed", len(S["calls"]) == 1)
        ctx.prove("the position moves past that file", o.current_index == S["k"] + 1)
        us = ctx.params["outcome"] == "usable"
        for nme, r in roles.items():
            L = loc[nme]
            ctx.prove("same list", L is S["lists"][r])
            want = {"H": [S.get("H")], "T": [S.get("T")], "P": [(S.get("H"), S.get("T"))]}[r] if us else []
            ok = len(L.tail) == len(want) and all((a is b) or (r == "P" and tuple(a)[0] is b[0] and tuple(a)[1] is b[1]) for a, b in zip(L.tail, want))
            ctx.prove("exactly the usable result is collected", ok)
        ctx.prove("the batch stays within its size", S["m"] + (1 if us else 0) <= bs)
        raise PathEnd
    ctx.tags["while"] = head
    ended = False
    try:
        r = o.__next__()
    except StopIteration:
        ended = True
    if phase == "base":
        ctx.prove("before the loop a pass ends only after the last file", And(ended, k0 >= n))
        ctx.cover("pass over")
        return
    if S["heads"] == 0:
        ctx.prove("a pass ends only after the last file", And(ended, k0 >= n))
        return
    # the loop was left from an arbitrary state of the invariant
    ctx.prove("no file is processed after the loop", len(S["calls"]) == 0)
    ctx.prove("position kept", o.current_index == S["k"])
    if ended:
        ctx.prove("a pass ends only when nothing usable is left", And(S["k"] >= n, S["m"] == 0))
        ctx.cover("no batch")
        return
    ctx.cover("batch")
    ctx.prove("a batch is never empty", S["m"] > 0)
    ctx.prove("a batch is full unless the files are used up", Or(S["m"] == bs, S["k"] >= n))
    ok = isinstance(r, tuple) and len(r) == 2
    if "H" in S["lists"]:
        ok = ok and r[0] is S["lists"]["H"] and r[1] is S["lists"]["T"] and not r[0].tail and not r[1].tail
    else:
        raise Unsupported("batch built from pairs")
    ctx.prove("the batch is what was collected, results and tokens in step", ok)


def loader_reset(ctx):
    dl = ctx.mod(DL)
    n = ctx.int("files", 0, None)
    ctx.tags["listdir"] = lambda d: Listing(n)
    o = dl.DataLoader("dir", 2, lambda m: None)
    fl = o.file_list
    o.current_index = ctx.int("position", 0, None)
    ctx.prove("iterating is the loader itself", iter(o) is o)
    o.reset()
    ctx.cover("reset")
    ctx.prove("after a reset the next pass starts over", And(o.current_index == 0, o.file_list is fl, o.path == "dir", o.batch_size == 2))


def loader_native(ctx):
    dl = ctx.mod(DL)
    px = ctx.mod(PX)
    rng = random.Random(ctx.int("seed", 0, 10 ** 9))
    names = [rng.choice(["f%d", "f%d", "f%d.xml", ".f%d", "f %d", "f%d.mjlog.gz", "~f%d"]) % i for i in range(rng.randint(0, 9))]
    bs = rng.randint(1, 4)
    bias = rng.choice([0.2, 0.6, 0.9, 1.0, 0.0])
    kinds = {n: "usable" if rng.random() < bias else rng.choice(OUTCOMES[1:]) for n in names}
    calls = []
    empty = {n for n in names if rng.random() < 0.2}      # a log without a single round is usable too

    def results(n):
        return ([], []) if n in empty else (["H" + n], ["T" + n])

    def process(path, *a, **k):
        n = os.path.basename(path)
        calls.append(path)
        return outcome(ctx, dl, kinds[n], *results(n))
    with Scratch() as d:
        for n in names:
            open(os.path.join(d, n), "w").close()
        order = os.listdir(d)
        ctx.patch(dl, "process", process)
        o = dl.DataLoader(d, bs, lambda m: None)
        stop = rng.randint(1, 3)
        if rng.random() < 0.3:
            o.reset()
        for rep in range(3):
            calls.clear()
            seen, had = [], []
            full = rep != 1
            for b in o:
                had.append((b, [list(b[0]), list(b[1])]))
                ctx.prove("pair of lists", len(b) == 2 and len(b[0]) == len(b[1]))
                ctx.prove("batch size", 1 <= len(b[0]) <= bs, [kinds, bs, repr(b)])
                seen += list(zip(b[0], b[1]))
                if not full and len(seen) >= stop:
                    break
            ctx.prove("a batch stays as it was delivered", all([list(b[0]), list(b[1])] == c for b, c in had), [kinds, bs])
            want = [results(n) for n in order if kinds[n] == "usable"]
            if full:
                ctx.prove("every usable game once, in listing order", seen == want, [kinds, bs, repr(seen)])
                ctx.prove("each file read once", calls == [os.path.join(d, n) for n in order], [kinds, calls])
            else:
                ctx.prove("a prefix of the usable games", seen == want[:len(seen)], [kinds, bs, repr(seen)])
            o.reset()


# --------------------------------------------------------------------------- C13
SKIP = ["mjloggm", "SHUFFLE", "UN", "GO", "TAIKYOKU"]


class Elem:
    """one element of a log: tag, attributes, no children"""

    def __init__(self, tag, attrib, children=(), gos=None):
        self.tag, self.attrib, self.children, self.gos = tag, attrib, children, gos

    def __iter__(self):
        return iter(self.children)

    def __symlen__(self):
        raise Unsupported("number of children")

    def findall(self, t):
        if t not in ("GO", "./GO"):
            raise Unsupported("findall")
        return list(self.gos)

    def iter(self, tag=None):
        """this element and everything below it"""
        from pv import cut
        if tag is not None or any(type(c) is not Elem or c.children for c in (self.children if type(self.children) in (list, tuple) else ())):
            raise Unsupported("element.iter")
        if isinstance(self.children, cut.GhostSeq):
            return self.all_seq
        return iter([self] + list(self.children))

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("element." + a)


class Tree:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root


def item_ok(it, el):
    return isinstance(it, dict) and set(it) == {"event", "attr"} and it["event"] is el.tag and it["attr"] is el.attrib


def group_spec(tags):
    rounds, cur = [], None
    for i, t in enumerate(tags):
        if t in SKIP:
            continue
        if t == "INIT":
            if cur is not None:
                rounds.append(cur)
            cur = []
        cur.append(i)
    return rounds, cur


def grouping(ctx):
    from pv import cut, symstr
    import io
    px = ctx.mod(PX)
    p = ctx.params
    phase = p["phase"]

    # ---- sample run
    tags = ["SHUFFLE", "GO", "UN", "TAIKYOKU", "INIT", "T1", "D2", "AGARI", "INIT", "U3", "UN", "RYUUKYOKU"]
    els = [Elem(t, {"type": "9"} if t == "GO" else {"n": str(i)}) for i, t in enumerate(tags)]
    root = Elem("mjloggm", {"ver": "2"})
    root.gos = [els[1]]
    A, Bs, seenB, seenA = [], [], [], []
    dicts = [{"event": e.tag, "attr": e.attrib} for e in [root] + els]

    def headA(frame, k):
        loc = cut.get_locals(frame)
        seenA.append((frame.f_code.co_name, loc))
        A.append(({n: (list(v) if type(v) is list else v) for n, v in loc.items()}, {"events": dicts[:k + 1]}))
        if k == len(els):
            for n, v in loc.items():
                if type(v) is list and cut.same(v, dicts):
                    g = cut.GhostList("events", 0)
                    g._iter = cut.GhostSeq(headB)
                    cut.set_locals(frame, {n: g})
            raise StopIteration
        return els[k]

    def headB(frame, k):
        loc = cut.get_locals(frame)
        seenB.append(loc)
        r, c = group_spec([d["event"] for d in dicts[:k]])
        r = [[dicts[i] for i in x] for x in r]
        c = None if c is None else [dicts[i] for i in c]
        Bs.append(({n: ([list(y) if type(y) is list else y for y in v] if type(v) is list else v) for n, v in loc.items()},
                   {"rounds": r, "cur": c, "all": r + ([] if c is None else [c]), "ev": dicts[k - 1] if k else None}))
        if k == len(dicts):
            raise StopIteration
        return dicts[k]
    root.children = cut.GhostSeq(headA)
    mapped = []

    def headA_all(frame, k):            # root.iter(): the log element itself comes first
        if k == 0:
            return root
        return headA(frame, k - 1)

    def map_(fn):                       # [... for element in root.iter()]
        r = [fn(e) for e in [root] + els]
        ctx.prove("sample run: events", cut.same(r, dicts))
        mapped.append(True)
        g = cut.GhostList("events", 0)
        g._iter = cut.GhostSeq(headB)
        return g
    root.all_seq = cut.GhostSeq(headA_all)
    root.all_seq.map = map_
    ctx.tags["open"] = lambda *a, **k: io.BytesIO(b"")
    ctx.tags["et_parse"] = lambda f, *a: Tree(root)
    gi, rounds = px._get_rounds("log.xml")
    r, c = group_spec([d["event"] for d in dicts])
    ctx.prove("sample run", cut.same(rounds, [[dicts[i] for i in x] for x in r + [c]]))
    if (len(A) < 2 and not mapped) or len(Bs) < 2:
        raise Unsupported("the loops over the log were not met")
    rolesA = cut.infer(A, ["events"]) if A else {}
    rolesB = cut.infer(Bs, ["rounds", "cur", "all"])
    if set(rolesA.values()) != ({"events"} if A else set()) or set(rolesB.values()) not in ({"rounds", "cur"}, {"all"}, {"all", "cur"}):
        raise Unsupported("no local carries the loop invariant")
    chB = {n for n in set().union(*seenB) if any(n not in s or s[n] is not seenB[0].get(n) for s in seenB)}
    chB -= set(rolesA)

    # ---- the proof
    import z3
    st = {}
    root2 = Elem("mjloggm", {"ver": "2"})
    gt = ctx.int("type", 0, None)
    root2.gos = [Elem("GO", {"type": symstr.NumStr(gt)})]

    def headA2(frame, k):
        loc = cut.get_locals(frame)
        (n, _), = rolesA.items()
        if k == 0:
            L = loc[n]
            ctx.prove("the first event is the log element itself", type(L) is list and len(L) == 1 and item_ok(L[0], root2))
            if phase == "A-base":
                raise PathEnd
            st["L"] = cut.GhostList("events", ctx.int("n_events", 1, None))
            st["L"]._iter = cut.GhostSeq(headB2)
            cut.set_locals(frame, {n: st["L"]})
            if phase != "A-step":
                raise StopIteration
            st["E"] = Elem(symstr.SymStr(z3.String("tag")), {"k": "v"})
            ctx.cover("element")
            return st["E"]
        ctx.prove("each element becomes exactly one event, in order",
                  loc[n] is st["L"] and len(st["L"].tail) == 1 and item_ok(st["L"].tail[0], st["E"]))
        raise PathEnd

    def headA2_all(frame, k):
        if k == 0:
            st["first"] = True
            return root2
        return headA2(frame, k - 1)

    def map2(fn):
        if phase == "A-base":
            ctx.prove("the first event is the log element itself", item_ok(fn(root2), root2))
            raise PathEnd
        if phase == "A-step":
            E = Elem(symstr.SymStr(z3.String("tag")), {"k": "v"})
            ctx.cover("element")
            ctx.prove("each element becomes exactly one event, in order", item_ok(fn(E), E))
            raise PathEnd
        st["L"] = cut.GhostList("events", ctx.int("n_events", 1, None))
        st["L"]._iter = cut.GhostSeq(headB2)
        return st["L"]

    def headB2(frame, k):
        loc = cut.get_locals(frame)
        inv = {r: n for n, r in rolesB.items()}
        whole = "all" in inv            # finished rounds and the current one in one list
        if k == 0:
            R = loc[inv["all" if whole else "rounds"]]
            ctx.prove("no rounds before the first event", type(R) is list and R == [] and ("cur" not in inv or loc[inv["cur"]] is None))
            if phase == "B-base":
                raise PathEnd
            n = 0
            st["cur"] = None
            if p["open"]:
                n = ctx.int("n_rounds", 0, None)
                st["cur"] = cut.GhostList("cur", ctx.int("n_cur", 1, None))
            st["rounds"] = cut.GhostList("rounds", n)
            st["all"] = cut.GhostList("all", n, [st["cur"]] if p["open"] else [])
            new = {x: cut.Poison(x) for x in chB if x not in rolesB}
            new.update({x: st[r] for x, r in rolesB.items()})
            cut.set_locals(frame, new)
            if phase == "B-exit":
                raise StopIteration
            t = symstr.SymStr(z3.String("tag"), consts=tuple(SKIP) + ("BYE", "INIT"))
            kind = p["tag"]
            if kind == "skip":
                ctx.assume(Or(*[t == x for x in SKIP]))
            elif kind in ("BYE", "INIT"):
                ctx.assume(t == kind)
            else:
                ctx.assume(And(*[t != x for x in SKIP + ["BYE", "INIT"]]))
            st["ev"] = {"event": t, "attr": {}}
            ctx.cover("event")
            return st["ev"]
        ctx.prove("a disconnect rejects the log", p["tag"] != "BYE")
        if whole:
            R, cur = loc[inv["all"]], st["cur"]
            old = [cur] if p["open"] else []
            kept = R is st["all"] and len(R.tail) >= len(old) and all(x is y for x, y in zip(R.tail, old))
            ctx.prove("rounds kept", kept)
            new = R.tail[len(old):] if kept else None
            if p["tag"] == "skip":
                ctx.prove("game-level elements are dropped", new == [] and (cur is None or not cur.tail))
            elif p["tag"] == "INIT":
                ctx.prove("the finished round is kept whole", cur is None or not cur.tail)
                ctx.prove("a new round starts with its start event",
                          bool(new) and len(new) == 1 and type(new[0]) is list and len(new[0]) == 1 and new[0][0] is st["ev"])
            else:
                ctx.prove("the event joins the current round, in order", new == [] and cur is not None and len(cur.tail) == 1 and cur.tail[0] is st["ev"])
            if "cur" in inv:
                last = R.tail[-1] if kept and R.tail else None
                ctx.prove("the current round is the last one", loc[inv["cur"]] is last)
            raise PathEnd
        R, C = loc[inv["rounds"]], loc[inv["cur"]]
        ctx.prove("rounds kept", R is st["rounds"])
        if p["tag"] == "skip":
            ctx.prove("game-level elements are dropped", C is st["cur"] and not R.tail and (C is None or not C.tail))
        elif p["tag"] == "INIT":
            ctx.prove("the finished round is kept whole", (len(R.tail) == 1 and R.tail[0] is st["cur"] and not st["cur"].tail)
                      if p["open"] else not R.tail)
            ctx.prove("a new round starts with its start event", type(C) is list and len(C) == 1 and C[0] is st["ev"])
        else:
            ctx.prove("the event joins the current round, in order", C is st["cur"] and not R.tail and len(C.tail) == 1 and C.tail[0] is st["ev"])
        raise PathEnd
    root2.children = cut.GhostSeq(headA2)
    root2.all_seq = cut.GhostSeq(headA2_all)
    root2.all_seq.map = map2
    ctx.tags["et_parse"] = lambda f, *a: Tree(root2)
    try:
        gi, rounds = px._get_rounds("log.xml")
    except px.InvalidGameException:
        ctx.prove("only a disconnect rejects the log here", phase == "B-step" and p["tag"] == "BYE")
        ctx.cover("disconnect")
        return
    ctx.cover("grouped")
    if "all" in rolesB.values():
        ctx.prove("all rounds, the last one included", rounds is st["all"] and (
            len(rounds.tail) == 1 and rounds.tail[0] is st["cur"] and not st["cur"].tail if p["open"] else not rounds.tail))
    else:
        ctx.prove("all rounds, the last one included", rounds is st["rounds"] and
                  ((len(rounds.tail) == 1 and rounds.tail[0] is st["cur"] and not st["cur"].tail) if p["open"] else not rounds.tail))
    ctx.prove("header of the log", gi.go == gt)


def bad_header(ctx):
    """a missing or unreadable game-type element is an error"""
    import io
    px = ctx.mod(PX)
    gos = {"none": [], "two": [{"type": "9"}, {"type": "9"}], "no type": [{}], "text": [{"type": "x"}], "empty": [{"type": ""}]}[ctx.params["go"]]
    if ctx.symbolic:
        root = Elem("mjloggm", {})
        g = [Elem("GO", a) for a in gos]
        root.gos = g
        root.children = g + [Elem("INIT", {})]
        ctx.tags["open"] = lambda *a, **k: io.BytesIO(b"")
        ctx.tags["et_parse"] = lambda f, *a: Tree(root)
        path = "log.xml"
    else:
        path = os.path.join(os.getcwd(), "bad.xml")
        with open(path, "w") as f:
            f.write("<mjloggm>" + "".join("<GO " + " ".join(f'{k}="{v}"' for k, v in a.items()) + "/>" for a in gos) + "<INIT/></mjloggm>")
    for fn in (px._get_rounds, px.process):
        try:
            fn(path)
            err = False
        except Exception:
            err = True
        ctx.prove("an error, never samples", err)
    ctx.cover("bad header")


def rejection(ctx):
    px = ctx.mod(PX)
    GameInfo = ctx.mod("MahjongAI.gameinfo").GameInfo
    go = ctx.int("go", 0, None)
    n = ctx.int("n_rounds", 0, None)
    b = lambda k: (go // (1 << k)) % 2
    good = And(b(0) == 1, b(1) == 0, b(2) == 0, b(4) == 0)
    if ctx.symbolic:                # any number of rounds; what happens in them is the subject of other contracts
        from pv import cut

        def head(frame, k):
            raise StopIteration
        rounds = cut.GhostSeq(head, n)
    else:
        rounds = [] if good else [[{"event": "INIT", "attr": {}}]] * (n % 20)
    ctx.patch(px, "_get_rounds", lambda path: (GameInfo(go), rounds))
    try:
        r = px.process("log.xml")
    except px.InvalidGameException:
        ctx.prove("only unsuitable games are rejected", Not(good))
        ctx.cover("rejected")
        return
    ctx.prove("unsuitable games are rejected", good)
    ctx.prove("one entry per round", tuple(r) == ([], []))
    ctx.cover("accepted")


def grouping_native(ctx):
    px = ctx.mod(PX)
    rng = random.Random(ctx.int("seed", 0, 10 ** 9))
    go = rng.choice([9, 161, 1, 169, rng.randint(0, 255)])
    body = [("SHUFFLE", {"seed": "x"}), ("GO", {"type": str(go)}), ("UN", {"n0": "a"}), ("TAIKYOKU", {"oya": "0"})]
    n = rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(0, 24)])
    evs = []
    for r in range(n):
        evs.append(("INIT", {"r": str(r)}))
        for j in range(rng.randint(0, 5)):
            evs.append((rng.choice(["T1", "D5", "N", "REACH", "DORA", "UN", "AGARI", "RYUUKYOKU", "U22", "TAIKYOKU"]), {"j": str(j)}))
    bye = rng.random() < 0.25
    if bye:
        evs.insert(rng.randint(0, len(evs)), ("BYE", {"who": "1"}))
    if rng.random() < 0.5:
        k = rng.randint(0, len(evs))
        evs.insert(k, ("UN", {"n1": "b"}))
    allv = body + evs
    path = os.path.join(os.getcwd(), "log.xml")
    with open(path, "w") as f:
        f.write('<mjloggm ver="2.3">' + "".join("<%s %s/>" % (t, " ".join(f'{k}="{v}"' for k, v in a.items())) for t, a in allv) + "</mjloggm>")
    try:
        gi, rounds = px._get_rounds(path)
        err = None
    except px.InvalidGameException:
        err = "invalid"
    ctx.prove("a disconnect, and only that, rejects while grouping", (err == "invalid") == bye, [allv])
    if err:
        try:
            px.process(path)
            ok = False
        except px.InvalidGameException:
            ok = True
        ctx.prove("a disconnect is rejected", ok)
        return
    want, cur = [], None
    for t, a in allv:
        if t in SKIP:
            continue
        if t == "INIT":
            cur = []
            want.append(cur)
        cur.append({"event": t, "attr": a})
    ctx.prove("rounds", rounds == want, [allv, rounds])
    ctx.prove("header", gi.go == go)
    bad = not (go & 1) or go & 2 or go & 4 or go & 16
    if bad:
        try:
            px.process(path)
            ok = False
        except px.InvalidGameException:
            ok = True
        ctx.prove("unsuitable games are rejected", ok, go)


_ck = []
for _m in MODELS:
    for _d in DIRS:
        _ck.append({"model": _m, "dir": _d, "phase": "empty", "had": False, "elem": None})
        for _h in (False, True):
            _ck.append({"model": _m, "dir": _d, "phase": "exit", "had": _h, "elem": None})
            for _e in ("checkpoint", "other"):
                _ck.append({"model": _m, "dir": _d, "phase": "step", "had": _h, "elem": _e})
_gr = [{"phase": "A-base"}, {"phase": "A-step"}, {"phase": "B-base"}]
for _o in (True, False):
    _gr.append({"phase": "B-exit", "open": _o})
    for _t in ("skip", "BYE", "INIT") + (("other",) if _o else ()):
        _gr.append({"phase": "B-step", "open": _o, "tag": _t})

UNITS = [
    Unit("ckpt.find", find_checkpoint, "int", _ck, env="files", covers=["file", "returned", "loop left"],
         functions=["supervised_learning.find_latest_checkpoint"], native_fn=find_checkpoint_native, replayable=False, search=3000, smoke=60),
    Unit("ckpt.resume", resume, "int", [{"model": m, "last": l} for m in MODELS for l in (None, 0, 7)], env="files",
         covers=["resume"], functions=["supervised_learning.train"], search=30, smoke=5),
    Unit("ckpt.resume_any", resume_any, "int", [{"model": m, "had": h, "phase": p} for m in MODELS for h in (False, True) for p in ("step", "exit")],
         env="files", covers=["iteration", "resumed"], functions=["supervised_learning.train"], native=False, replayable=False),
    Unit("loader.next", loader_next, "int", [{"phase": "base"}, {"phase": "exit"}] + [{"phase": "step", "outcome": o} for o in OUTCOMES],
         env="files", covers=["loader", "pass over", "one file", "no batch", "batch"], functions=["utils.dataloader.DataLoader.__init__",
         "utils.dataloader.DataLoader.__next__"], native_fn=loader_native, replayable=False, search=4000, smoke=100),
    Unit("loader.reset", loader_reset, "int", env="files", covers=["reset"], functions=["utils.dataloader.DataLoader.reset",
         "utils.dataloader.DataLoader.__iter__"], native_fn=loader_native, replayable=False, search=100, smoke=5),
    Unit("log.grouping", grouping, "int", _gr, env="files", covers=["element", "event", "grouped", "disconnect"],
         functions=["process_xml._get_rounds"], native_fn=grouping_native, replayable=False, search=2000, smoke=60),
    Unit("log.bad_header", bad_header, "int", [{"go": g} for g in ("none", "two", "no type", "text", "empty")], env="files",
         covers=["bad header"], functions=["process_xml._get_rounds"], search=20, smoke=5),
    Unit("log.rejection", rejection, "int", env="files", covers=["rejected", "accepted"], functions=["process_xml.process"],
         exhaustive=300, search=300),
]
PROPS = {"C22": ["ckpt.find", "ckpt.resume", "ckpt.resume_any"], "C21": ["loader.next", "loader.reset"],
         "C13": ["log.grouping", "log.bad_header", "log.rejection", "header.flags"]}
INFO = {
    "C22": {"assumptions": ["file names contain no newline; digits are ASCII", "glob.glob lists exactly the names matching the pattern",
                            "model names are the nine of train()", "train(): any checkpoint number and number of iterations; the model, the optimizer and the data loader are stand-ins (two batches, two steps each)",
                            "z3 string theory for the regular expressions"]},
    "C21": {"assumptions": ["process() either returns or raises an Exception (C13 and C07-C12 say which)", "os.listdir does not change during a pass"]},
    "C13": {"assumptions": ["ElementTree parses the file (trusted)", "elements of a log have no children (Tenhou format); the native cross-check uses real XML",
                            "no round event precedes the first round start"]},
}
