#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/levelnotes.json")) if os.path.exists(V + "/tools/levelnotes.json") else {}
DEF_TECH = "property-based testing: tape-driven generation with shrinking, independent point-wise reference model"
DEF_NOTE = ("Search over generated inputs; no absence claim. Trusts the reference model in harness/model.cc, "
            "the compiler and GMP; every violation is re-run in isolation and shrunk to a replay file.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/p_{i}.cc") or os.path.exists(f"{V}/tools/check_{i}.py"):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n.get("technique", DEF_TECH),
                       "level": "exploration", "level_note": n.get("note", DEF_NOTE)})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Harness sources in harness/, driver run.py, builds of /repo's working tree in build/ (untracked)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
