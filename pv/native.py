"""Run a unit's harness on the real, untransformed code with concrete inputs.

Executed with the repository's own interpreter (/opt/venv/bin/python):
  native.py replay UNIT CASEJSON INPUTSJSON     -> JSON result
  native.py search PROPERTY SEED BUDGET_S [UNIT] -> JSON result (first violation found, counts)
"""
import importlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Skip(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class NativeCtx:
    symbolic = False
    mode = "native"

    def __init__(self, source, params):
        self.source = source
        self.params = params
        self.inputs = {}
        self.patches = []
        self.tags = {}
        self.proved = 0

    def int(self, name, lo, hi):
        if lo == hi:
            v = lo
        else:
            v = self.source.int(name, lo, hi)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = bool(self.source.int(name, 0, 1))
        self.inputs[name] = v
        return v

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def conc(self, x):
        return x

    def assume(self, c):
        if not c:
            raise Skip

    def prove(self, label, cond, detail=None):
        self.proved += 1
        if not cond:
            raise Violation(label, detail)

    def prove_all(self, label, pairs):
        for d, c in pairs:
            self.prove(label, c, d)

    def cover(self, label):
        pass

    def note(self, key, value):
        pass

    def persist(self, o, may_change=()):
        return o

    def patch(self, obj, name, value):
        self.patches.append((obj, name, vars(obj).get(name, getattr(obj, name))))
        setattr(obj, name, value)

    def mod(self, name):
        return importlib.import_module(name)


class Given:
    def __init__(self, d):
        self.d = d

    def int(self, name, lo, hi):
        if name not in self.d:
            return lo if lo is not None else 0
        return int(self.d[name])


class Rand:
    def __init__(self, rng):
        self.rng = rng
        self.bias = rng.random()

    def int(self, name, lo, hi):
        lo = -50 if lo is None else lo
        hi = lo + 1000 if hi is None else hi
        if self.rng.random() < 0.15:
            return self.rng.choice([lo, hi])
        return self.rng.randint(lo, hi)


class Odometer:
    """Exhaustive enumeration in lexicographic order of the harness's own input requests."""

    def __init__(self):
        self.digits = []      # [value, lo, hi]
        self.pos = 0

    def start(self):
        self.pos = 0

    def int(self, name, lo, hi):
        if self.pos < len(self.digits):
            v = self.digits[self.pos][0]
        else:
            self.digits.append([lo, lo, hi])
            v = lo
        self.pos += 1
        return v

    def advance(self):
        del self.digits[self.pos:]
        while self.digits:
            d = self.digits[-1]
            if d[0] < d[2]:
                d[0] += 1
                return True
            self.digits.pop()
        return False


def run_once(unit, params, source):
    """-> (status, ctx, label, detail); status in ok/skip/violation"""
    c = NativeCtx(source, params)
    try:
        try:
            (unit.native_fn or unit.fn)(c)
            return "ok", c, None, None
        except Skip:
            return "skip", c, None, None
        except Violation as v:
            return "violation", c, v.label, v.detail
        except SystemExit as e:
            return "violation", c, "no unexpected exception", "SystemExit"
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            repo = os.environ.get("PV_REPO", "/repo").rstrip("/") + "/"
            w = [f for f in tb if f.filename.startswith(repo)]
            if not w:
                if isinstance(e, (AttributeError, ImportError, NameError)):
                    return "skip", c, None, f"interface differs: {e}"
                w = list(tb)
            return "violation", c, "no unexpected exception", f"{type(e).__name__}: {e} at {w[-1].filename}:{w[-1].lineno}"
    finally:
        for o, n, v in reversed(c.patches):
            setattr(o, n, v)


def setup(repo):
    sys.path.insert(0, repo)
    import tempfile
    d = tempfile.mkdtemp(prefix="pvnative")
    os.chdir(d)
    import atexit, shutil
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, str, float, bool)) or x is None:
        return x
    try:
        return int(x)
    except Exception:
        return repr(x)


def search(units, seed, budget, smoke=False):
    t_all = time.time()
    counts = {}
    units = [u for u in units if u.native]
    for u in units:
        t_unit = time.time()
        share = budget / max(1, len(units))
        rng = random.Random(f"{seed}:{u.name}")
        n = n_ok = 0
        want = u.smoke if smoke else u.search
        # exhaustive part
        if u.exhaustive and not smoke:
            for case in u.cases:
                od = Odometer()
                k = 0
                while k < u.exhaustive and time.time() - t_unit < share:
                    od.start()
                    st, c, lab, det = run_once(u, case, od)
                    k += 1
                    n += 1
                    n_ok += st == "ok"
                    if st == "violation":
                        return {"found": True, "unit": u.name, "case": jsonable(case), "inputs": jsonable(c.inputs),
                                "label": lab, "detail": det, "evaluations": n}
                    if not od.advance():
                        break
        k = 0
        tries = 0
        while k < want and tries < want * 50 and time.time() - t_unit < share:
            case = u.cases[rng.randrange(len(u.cases))] if len(u.cases) > 1 else u.cases[0]
            st, c, lab, det = run_once(u, case, Rand(rng))
            tries += 1
            n += 1
            if st == "ok":
                k += 1
                n_ok += 1
            if st == "violation":
                return {"found": True, "unit": u.name, "case": jsonable(case), "inputs": jsonable(c.inputs),
                        "label": lab, "detail": det, "evaluations": n}
        counts[u.name] = {"evaluations": n, "nontrivial": n_ok}
    return {"found": False, "counts": counts, "wall": time.time() - t_all}


def main():
    import contextlib, io
    cmd = sys.argv[1]
    repo = os.environ.get("PV_REPO", "/repo")
    setup(repo)
    from specs import registry
    out = io.StringIO()
    real = sys.stdout
    with contextlib.redirect_stdout(out):
        if cmd == "replay":
            unit = registry.unit(sys.argv[2])
            case = json.loads(sys.argv[3])
            inputs = json.loads(sys.argv[4]) if not sys.argv[4].startswith("@") else json.load(open(sys.argv[4][1:]))
            st, c, lab, det = run_once(unit, case, Given(inputs))
            res = {"status": st, "label": lab, "detail": jsonable(det), "inputs": jsonable(c.inputs), "proved": c.proved}
        else:
            prop, seed, budget = sys.argv[2], sys.argv[3], float(sys.argv[4])
            units = registry.units(prop)
            if len(sys.argv) > 5 and sys.argv[5]:
                units = [u for u in units if u.name == sys.argv[5]]
            res = search(units, seed, budget, smoke=(cmd == "smoke"))
    real.write(json.dumps(jsonable(res)) + "\n")


if __name__ == "__main__":
    main()
