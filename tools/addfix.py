#!/usr/bin/env python3
"""addfix.py PID COMMIT text: appends a fixed entry to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
open(p, "w").write(json.dumps(d, indent=1) + "\n")
