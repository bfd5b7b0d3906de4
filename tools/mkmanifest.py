"""Write MANIFEST.json: every property whose module harness/cNN.py exists is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(here, "tools"))
from levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", i.lower() + ".py")) and i in LEVELS:
        mod, note = LEVELS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "technique": "TLA+ specification (spec/%s.tla) model checked with TLC; its behaviours are replayed into the real code" % mod,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "specification module not finished yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
