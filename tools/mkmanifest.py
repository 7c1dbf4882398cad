#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/proptable.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from proptable import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": P.get("technique", "contract-based deductive verification: Verus contracts on the functions of /repo, extracted mechanically on every run"),
            "level": P["level"],
            "level_note": P["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet: contracts for this part are not written")})
m["notes"] = "See DESIGN.md. Every check builds the extractor and the replay harness itself (offline, into /verif/.cache)."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
