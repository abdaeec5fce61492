#!/usr/bin/env python3
"""addfix.py PROP COMMIT WHAT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(p)) if os.path.exists(p) else []
l.append({"property": sys.argv[1], "status": "fixed", "commit": sys.argv[2], "what": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
json.dump(l, open(p, "w"), indent=1); open(p, "a").write("\n")
