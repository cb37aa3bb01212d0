#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration of operands on the compiled code"
HW = "Reference: host processor arithmetic and an independent big-integer model that is itself compared with the processor. "
table = json.load(open(os.path.join(root, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = table.get(i)
    if c and "na" not in c:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", ENUM),
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": (c or {}).get("na", "no check built for this property")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
hooks = os.path.join(root, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
