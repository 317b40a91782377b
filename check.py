#!/usr/bin/env python3-vt
"""check.py PROPERTY  - discharge every obligation of one property on the current /repo tree."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("PV_REPO", "/repo")
VENV = "/opt/venv/bin/python"
NPROC = int(os.environ.get("PV_PROCS", "8"))


STOP = {}               # unit -> flag shared with the workers: its cases need not be run any more


def job(args):
    uname, ci, limit = args
    if STOP[uname].value:
        return {"unit": uname, "case": ci, "skipped": True}
    os.environ["PYTHONHASHSEED"] = "0"
    sys.setrecursionlimit(5000)
    from pv import sym
    from specs import registry, envs
    u = registry.unit(uname)
    case = u.cases[ci]
    t0 = time.time()
    try:
        env = envs.make(u.env, REPO).install()
    except Exception as e:
        return {"unit": uname, "case": ci, "error": f"env: {e!r}"}
    c = sym.Ctx(uname, mode=u.mode, timeout_ms=u.timeout_ms, max_paths=u.max_paths, params=case)
    c.env = env
    try:
        import io, contextlib
        rep = c.run(u.fn, min(time.time() + u.time_limit, limit))
    except BaseException as e:
        import traceback
        return {"unit": uname, "case": ci, "error": "engine: " + traceback.format_exc()[-1500:]}
    finally:
        env.uninstall()
    if rep.kept and not (u.native and u.replayable):
        # a call left something behind; what the next one finds was made by the harness, so only the real code can tell
        for f in rep.failed:
            f["kind"] = "undecided"
    try:
        import pickle
        pickle.dumps(rep.failed)
    except Exception:
        for f in rep.failed:
            f["detail"] = str(f["detail"])
            if f["inputs"] is not None:
                f["inputs"] = json.loads(json.dumps(f["inputs"], default=str))
    return {"unit": uname, "case": ci, "labels": rep.labels, "failed": rep.failed, "paths": rep.paths,
            "covers": rep.covers, "solver_s": rep.solver_s, "backends": rep.backends,
            "claims": rep.claims, "unsupported": rep.unsupported, "wall": time.time() - t0}


def venv(args, timeout):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PV_REPO=REPO)
    try:
        r = subprocess.run([VENV, os.path.join(HERE, "pv", "native.py")] + args, capture_output=True, text=True,
                           timeout=timeout, env=env, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return {"error": "native run timed out"}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"error": (r.stderr or r.stdout)[-1500:]}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from specs import registry
    units = registry.units(prop)
    limit = t0 + (500 if tier == "quick" else 6000)       # time is left for the search on the real code
    jobs = []
    for u in units:
        if u.bounded:
            continue
        for i in range(len(u.cases)):
            jobs.append((u.heavy, (u.name, i, limit)))
    jobs.sort(key=lambda j: -j[0])
    jobs = [j for _, j in jobs]
    results = []
    early = False
    nfail = {}
    nhard = 0
    for u in units:
        STOP[u.name] = mp.get_context("fork").Value("b", 0, lock=False)
    if jobs:
        with mp.get_context("fork").Pool(min(NPROC, len(jobs)), maxtasksperchild=40) as pool:
            for r in pool.imap_unordered(job, jobs):
                if r.get("skipped"):
                    early = True
                    continue
                results.append(r)
                if r.get("failed") or r.get("unsupported") or r.get("error"):
                    un = r["unit"]
                    nfail[un] = nfail.get(un, 0) + 1
                    nhard += any(f["kind"] == "refuted" for f in r.get("failed") or ())
                    if nfail[un] >= 4:
                        STOP[un].value = 1
                    if nhard >= 6 or sum(nfail.values()) >= 6 and time.time() - t0 > (240 if tier == "quick" else 3000):
                        early = True
                        pool.terminate()
                        break
    # ---- aggregate
    ob = dis = 0
    solver = 0.0
    back = {}
    paths = 0
    per_unit = {}
    problems = []            # (unit, case, failure dict)
    for r in results:
        pu = per_unit.setdefault(r["unit"], {"vcs": 0, "discharged": 0, "paths": 0, "labels": {}, "covers": {},
                                             "cases": 0, "wall": 0.0})
        pu["cases"] += 1
        if "error" in r:
            problems.append((r["unit"], r["case"], {"label": "engine", "kind": "error", "detail": r["error"], "inputs": None}))
            continue
        for lab, L in r["labels"].items():
            ob += L["n"]
            dis += L["ok"]
            pu["vcs"] += L["n"]
            pu["discharged"] += L["ok"]
            x = pu["labels"].setdefault(lab, [0, 0])
            x[0] += L["n"]
            x[1] += L["ok"]
        for k, v in r["covers"].items():
            pu["covers"][k] = pu["covers"].get(k, False) or v
        pu["paths"] += r["paths"]
        pu["wall"] += r["wall"]
        paths += r["paths"]
        solver += r["solver_s"]
        for k, v in r["backends"].items():
            back[k] = back.get(k, 0) + v
        for f in r["failed"]:
            problems.append((r["unit"], r["case"], f))
        if r["unsupported"] and not r["failed"]:
            problems.append((r["unit"], r["case"], {"label": "translation", "kind": "undecided",
                                                    "detail": r["unsupported"], "inputs": None}))
    # cases that split one arbitrary element must agree on what an iteration of a loop does (pv.glist.like_loop)
    agreed = {}
    for r in results:
        case = registry.unit(r["unit"]).cases[r["case"]]
        g = json.dumps({k: v for k, v in case.items() if k not in registry.unit(r["unit"]).split}, sort_keys=True)
        for loop, d in (r.get("claims") or {}).items():
            if agreed.setdefault((r["unit"], g, loop), d) != d:
                problems.append((r["unit"], r["case"], {"label": "the cases agree on what an iteration does", "kind": "undecided",
                                                        "detail": f"{loop}: {d[:300]}", "inputs": None}))
    if not early:
        for u in units:
            if u.bounded:
                continue
            pu = per_unit.get(u.name)
            if not pu or pu["vcs"] < u.min_vcs:
                if not any(p[0] == u.name for p in problems):
                    problems.append((u.name, 0, {"label": "vacuity", "kind": "undecided",
                                                 "detail": "no obligations generated", "inputs": None}))
            elif not any(p[0] == u.name for p in problems):
                for cv in u.covers:
                    if not pu["covers"].get(cv):
                        problems.append((u.name, 0, {"label": "cover " + cv, "kind": "undecided",
                                                     "detail": "precondition case not reachable", "inputs": None}))
    # ---- native: replay of counterexamples, CPython cross-check, bounded stand-ins
    violation = None
    order = sorted(range(len(problems)), key=lambda i: problems[i][2].get("inputs") is None)
    for i in order[:12]:
        un, ci, f = problems[i]
        u = registry.unit(un)
        if time.time() - t0 > (620 if tier == "quick" else 6400):
            break
        if f.get("inputs") is None or not u.native or not u.replayable:
            continue
        res = venv(["replay", un, json.dumps(u.cases[ci]), json.dumps(f["inputs"])], 120)
        f["replay"] = res
        if res.get("status") == "violation":
            violation = {"unit": un, "case": u.cases[ci], "inputs": f["inputs"], "label": res["label"],
                         "detail": res["detail"], "obligation": f["label"], "how": "verifier counterexample replayed on the real code"}
            break
        if res.get("status") == "ok":
            # the very inputs of the counterexample satisfy the contract on the real code: the
            # refutation comes from the translation, not from the code
            f["kind"] = "spurious"
    bounded_units = [u for u in units if u.bounded]
    native_stats = {}
    remaining = lambda: max(20, (800 if tier == "quick" else 7000) - (time.time() - t0))
    if not violation:
        if problems:
            names = []
            for un, _, _ in problems:
                if un not in names:
                    names.append(un)
            budget = min(240 if tier == "quick" else 1500, remaining() - 30)
            res = venv(["search", prop, str(seed), str(budget), names[0] if len(names) == 1 and registry.unit(names[0]).native else ""], budget + 120)
        else:
            budget = min(registry.native_budget(prop, tier), remaining() - 30)
            res = venv(["search" if (tier != "quick" or bounded_units) else "smoke", prop, str(seed), str(budget)], budget + 200)
        if res.get("found"):
            violation = dict(res, how="concrete search on the real code")
        elif "error" in res:
            native_stats = {"error": res["error"]}
        else:
            native_stats = res.get("counts", {})
    known = registry.known(prop)
    ev_n = sum(v.get("evaluations", 0) for v in native_stats.values()) if "error" not in native_stats else 0
    ev_ok = sum(v.get("nontrivial", 0) for v in native_stats.values()) if "error" not in native_stats else 0
    info = registry.info(prop)
    funcs = []
    for u in units:
        for fn in u.functions:
            if fn not in funcs:
                funcs.append(fn)
    proved_level = info["level"]
    cov = {"obligations": ob, "discharged": dis,
           "checker_cmd": f"python3-vt check.py {prop}",
           "trusted_base": info["trusted"] + ["pv VC generator (/verif/pv)", "z3 5.x", "cvc5 1.1.2 (fallback)", "CPython 3.12 semantics of untransformed code"],
           "functions_under_contract": funcs, "paths": paths, "solver_s": round(solver, 2),
           "back_ends": back, "units": {k: {"vcs": v["vcs"], "discharged": v["discharged"], "paths": v["paths"],
                                            "cases": v["cases"], "cpu_s": round(v["wall"], 1),
                                            "covers_reached": v["covers"], "labels": v["labels"]} for k, v in per_unit.items()},
           "cpython_cross_check": {"evaluations": ev_n, "nontrivial": ev_ok, "detail": native_stats},
           "bounded_units": {u.name: u.bounded for u in bounded_units},
           "evaluations": ev_n, "distinct_nontrivial": ev_ok,
           "rule": "random inputs drawn from the same precondition as the proof; non-trivial = precondition satisfied",
           "undischarged": [{"unit": a, "case": b, "label": f["label"], "kind": f["kind"], "detail": f.get("detail")} for a, b, f in problems][:20]}
    if not jobs:
        cov["explanation"] = "bounded stand-in only"
        cov["samples"] = [native_stats]
    hard = [p for p in problems if p[2]["kind"] == "refuted"]
    soft = [p for p in problems if p[2]["kind"] != "refuted"]
    if soft and not hard and not violation:
        proved_level = "exploration"
        cov["samples"] = [{"unit": a, "case": b, "native": native_stats} for a, b, _ in soft][:5]
        cov["explanation"] = ("on this tree the verifier could not translate or decide the units listed under "
                              "'undischarged'; for them the contracts were only evaluated on concrete inputs "
                              "(bounded stand-in, not a proof)")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": proved_level, "coverage": cov,
          "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": 1 if (violation or hard) else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {dis}/{ob} obligations discharged on {paths} paths in {time.time()-t0:.1f}s "
          f"(solver {solver:.1f}s, {back}); cross-check {ev_ok}/{ev_n}")
    native_broken = "error" in native_stats and not violation
    if native_broken:
        print("native harness error:", native_stats["error"][-800:])
    if soft and not hard and not violation and not native_broken and ev_ok == 0:
        native_broken, native_stats = True, {"error": "no input satisfied the preconditions"}
    if native_broken and (soft or bounded_units or not jobs):
        # neither proof nor bounded evidence
        hard.append(("native", 0, {"label": "native harness", "kind": "error", "detail": native_stats["error"], "inputs": None}))
        problems.append(hard[-1])
    for a, b, f_ in problems[:8]:
        print(f"  failed: {a}[{b}] {f_['label']} ({f_['kind']}): {str(f_.get('detail'))[:300]} inputs={str(f_.get('inputs'))[:300]}")
    if violation or hard:
        rp = os.path.join(HERE, "evidence", f"replay_{prop}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "violation": violation,
                       "failed_obligations": [{"unit": a, "case": b, **f_} for a, b, f_ in problems][:20],
                       "replay_cmd": None if not violation else
                       [VENV, "pv/native.py", "replay", violation["unit"], json.dumps(violation["case"]), json.dumps(violation["inputs"])]},
                      f, indent=1, default=str)
        if violation:
            print(f"  failing input: unit={violation['unit']} case={violation['case']} label={violation['label']} detail={str(violation['detail'])[:300]}")
            print(f"  inputs={str(violation['inputs'])[:600]}")
            print(f"VIOLATION property={prop} replay={rp}")
        else:
            print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        sys.exit(1)
    if soft:
        print(f"NOTE: {prop}: {len(soft)} obligation group(s) not translated or not decided; decided there by "
              f"bounded evaluation on the real code only ({ev_ok} non-trivial inputs)")
    sys.exit(0)


if __name__ == "__main__":
    main()
