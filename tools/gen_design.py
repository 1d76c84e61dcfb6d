#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_body.md, config.py and seeded/ (not read by any check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from config import CHECKS
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
# seconds of the quick tier on the 8 cores of the sandbox, built already
COSTS = dict(C01=11, C02=9, C03=9, C04=4, C05=7, C06=9, C07=20, C08=16, C09=15, C10=3, C11=6, C12=24, C13=12, C14=15, C15=11, C16=17, C17=11,
             C18=21, C19=12, C20=27, C21=1, C22=13, C23=28, C24=22, C25=35,
             C26=33, C27=22, C28=14, C29=25, C30=30)
rows = ["| | property | decided by | generated and observed | bounds and assumptions | quick |", "|---|---|---|---|---|---|"]
for p in P:
    c = CHECKS[p["id"]]
    cost = "%s s" % COSTS.get(p["id"], "?")
    rows.append("| %s | %s | %s | %s | %s | %s |" % (p["id"], p["title"], c["technique"], c["rule"], c["note"].replace("AddressSanitizer, UndefinedBehaviorSanitizer and the checked standard library watch every case; any report is a violation.", "").strip(), cost))
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], caught.get(s, m["property"])))
t = open(V + "/tools/design_body.md").read()
more = open(V + "/tools/design_more.txt").read().strip() if os.path.exists(V + "/tools/design_more.txt") else ""
open(V + "/DESIGN.md", "w").write(t.replace("@TABLE@", "\n".join(rows)).replace("@SEEDED@", "\n".join(seeds)).replace("@MORE@", more))
