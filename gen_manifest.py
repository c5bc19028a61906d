#!/usr/bin/env python3
"""writes MANIFEST.json from lib/spec.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import spec as S
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in S.PROPS:
        p = S.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": "model_checking",
                       "level_note": S.COMMON_NOTE + p["note"]})
    else:
        na.append({"property": i, "reason": S.NOT_APPLICABLE.get(i, "no harness yet (work in progress)")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": checks, "not_applicable": na,
     "notes": "check.py rebuilds everything from /repo's working tree on each run; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
