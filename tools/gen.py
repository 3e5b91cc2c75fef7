#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
try:
    from checks_meta import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
       "hooks": {"guard": "PYWR_VERIF", "enable": "no hooks were needed: the checks observe the public API of an out-of-tree rebuild", "source_commits": []},
       "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        man["checks"].append({"property": i, "quick_cmd": f"bash /verif/run_check.sh {i} quick",
            "thorough_cmd": f"bash /verif/run_check.sh {i} thorough",
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction; not claimed yet")})
json.dump(man, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
