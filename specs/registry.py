"""Which units decide which property."""
import importlib
import json
import os

MODULES = ["naki", "mask", "agents", "rows", "headers", "files", "game", "proc", "procwins"]
NA = {}
_cache = {}


def _load():
    if _cache:
        return
    _cache["units"] = {}
    _cache["props"] = {}
    _cache["info"] = {}
    for m in MODULES:
        mod = importlib.import_module("specs." + m)
        for u in mod.UNITS:
            assert u.name not in _cache["units"], u.name
            _cache["units"][u.name] = u
        for p, names in mod.PROPS.items():
            _cache["props"].setdefault(p, []).extend(names)
        for p, i in mod.INFO.items():
            _cache["info"][p] = i


def unit(name):
    _load()
    return _cache["units"][name]


def units(prop):
    _load()
    seen = []
    for n in _cache["props"][prop]:
        if n not in seen:
            seen.append(n)
    return [_cache["units"][n] for n in seen]


def props():
    _load()
    return sorted(_cache["props"])


def info(prop):
    _load()
    d = {"level": "proof", "trusted": [], "assumptions": [], "native_budget": 20}
    d.update(_cache["info"].get(prop, {}))
    return d


def native_budget(prop, tier):
    b = info(prop)["native_budget"]
    return b if tier == "quick" else b * 10


def known(prop):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k["what"] for k in json.load(open(p)).get("findings", []) if k["property"] == prop]
