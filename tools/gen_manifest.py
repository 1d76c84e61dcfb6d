#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import CHECKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
               technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in props if i in CHECKS]
na = [dict(property=i, reason="No check has been built for it yet.") for i in props if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors sit at the public API, the system call boundary (linker --wrap) and the wire.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
