#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/checks.json (claimed checks)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
cfg = json.load(open(root + "/tools/checks.json"))
claimed = cfg["checks"]
checks, na = [], []
for p in props:
    c = claimed.get(p["id"])
    if c and "not_applicable" not in c:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c["technique"],
            "level": c.get("level", "model_checking"),
            "level_note": c["level_note"],
        })
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("not_applicable", "check not built yet (work in progress); the approach is in DESIGN.md")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": cfg["hooks"], "checks": checks, "not_applicable": na,
     "notes": "Every check is one subcommand of the harness in /verif/harness, rebuilt against /repo's working tree by run.sh."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
