#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run after editing spec/props.py)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/spec")
from props import P
out, checks, na = [], [], []
for p in P:
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    import glob
    for f in p["files"]:
        assert glob.glob("/repo/" + f), (p["id"], f)
    assert len(p["title"]) <= 80, p["id"]
    if "reason" in p:
        na.append({"property": p["id"], "reason": p["reason"]})
    else:
        assert os.path.exists(V + "/checks/%s.py" % p["id"].lower()), p["id"]
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                       "technique": p["tech"], "level": "other", "level_note": p["note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in out))
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: every check re-reads /repo's sources (type-checked program or compiler IR); nothing of the library is executed. No hooks in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
