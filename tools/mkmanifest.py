"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "TLA+ specification, TLC; trace validation of the real code against it"),
                       "level": c.get("level", "model_checking"),
                       "level_note": c.get("note", "every recorded call is judged by TLC against the TLA+ specification in exact rational arithmetic with tracked rounding; inputs are sampled, seeded; trusts TLC, java/Q.java and java/Mat.java (checked by spec/MatSelf), the drivers' logging")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC; no hooks in /repo are needed: the drivers use public attributes, model functions and database files only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
