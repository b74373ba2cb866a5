"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV, MC = "translation_validation", "model_checking"
CLAIMED = {}
def claim(pid, level, technique, note): CLAIMED[pid] = (level, technique, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": CLAIMED[p["id"]][1],
                 "level": CLAIMED[p["id"]][0], "level_note": CLAIMED[p["id"]][2]} for p in props if p["id"] in CLAIMED],
     "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "The specification and its conformance check for this property are not built yet.")} for p in props if p["id"] not in CLAIMED],
     "notes": "Specifications in TLA+ (spec/), checked with TLC; conformance drivers in harness/ compiled from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
