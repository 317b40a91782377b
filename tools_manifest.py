"""Generates MANIFEST.json from the spec registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import registry
TECH = "contract-based deductive verification: verification conditions generated from the real source by symbolic execution, discharged by z3/cvc5"
NA = {}
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in registry.props():
        NA[p] = registry.NA.get(p, "contracts for this property are not built yet in this revision")
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy' && which cvc5", "checks": [],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p in registry.props():
    i = registry.info(p)
    m["checks"].append({"property": p, "quick_cmd": f"python3-vt check.py {p}",
                        "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p}",
                        "evidence_file": f"evidence/{p}.json", "technique": i.get("technique", TECH),
                        "level": i["level"],
                        "level_note": i.get("note", "all inputs of the stated preconditions; ") +
                        " Assumptions: " + "; ".join(i["assumptions"] or ["none beyond the trusted base"])})
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
