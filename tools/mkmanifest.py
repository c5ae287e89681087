"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "TLA+ design model checked with TLC; histories recorded from the real code validated by TLC against the specification (%s)" % ", ".join(sorted({r["trace"] for r in c["runs"]})),
            "level": "model_checking",
            "level_note": c.get("note", "") or "Design model exhaustive within small constants; the code is bound to it by validating every recorded history (exhaustive small ones, TLC-generated ones, seeded random ones). Trusts TLC, the recording driver and the projection of the state."})
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the public API exposes the abstract state. Every check builds the driver crates in /verif/harness and /verif/macros against /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
