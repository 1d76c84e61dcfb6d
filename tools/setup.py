#!/usr/bin/env python3
"""Builds what the quick checks need (each check rebuilds what it doesn't find, or what has changed)."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
os.makedirs(check.BUILD, exist_ok=True)
jobs = {}
for i, c in check.CHECKS.items():
    for p in c["parts"]:
        if p.get("tier") != "thorough":
            jobs[repr((p.get("harness", c["harness"]), p["flavor"], p.get("build", {})))] = (i, p.get("harness", c["harness"]), p["flavor"], p.get("build", {}))
def one(j):
    check.build(*j[1:])
    print("built", j[0], j[2], flush=True)
# the library is compiled once for each set of flags, with the first of the harnesses which use it
first, rest, seen = [], [], set()
for j in jobs.values():
    k = repr(check.flags_for(j[2], j[3]))
    (rest if k in seen else first).append(j)
    seen.add(k)
for some in (first, rest):
    with ThreadPoolExecutor(6) as pool:
        list(pool.map(one, some))
