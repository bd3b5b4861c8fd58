#!/usr/bin/env python3
"""tools/plan.py -> MANIFEST.json (committed; run by hand after editing the plan)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TODO = "check under construction"
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "technique": PLAN[p].get("technique", "symbolic execution of the crate's LLVM IR with Z3 deciding every branch and assertion"),
        "level": "model_checking",
        "level_note": PLAN[p].get("note") or "Holds for every value within the stated bounds: " + PLAN[p]["bounds"] + ". Trusts the engine's LLVM IR semantics (each explored path is re-run natively and compared) and Z3.",
    } for p in ids if p in PLAN],
    "not_applicable": [{"property": p, "reason": NA.get(p, TODO)} for p in ids if p not in PLAN],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
