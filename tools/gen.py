#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run from anywhere."""
import json, os
from props import P
from tech import T, N
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for a in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), a
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(f"{here}/harness/cmd/{i.lower()}/main.go"):
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration",
                       "level_note": N + T[i][1]})
    else:
        na.append({"property": i, "reason": "The check is not written yet."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check is a Go program in harness/cmd that imports the packages of /repo/src; run.sh builds and runs it. No hooks are needed in /repo."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
