#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
conf = json.load(open(os.path.join(V, "tools/checks.json")))
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specification in TLA+ (spec/), checked with TLC; the harness (harness/) uses only the public API of /repo, so there are no hooks."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
