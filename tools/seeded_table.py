#!/usr/bin/env python3
"""seeded_table.py RESULTS.jsonl...: the table of planted bugs for DESIGN.md section 5,
from the last result of each bug in the output of seed_eval.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last = {}
for f in sys.argv[1:]:
    for l in open(f):
        d = json.loads(l)
        if "checks" in d: last[d["id"]] = d
print("| planted bug | what it breaks | caught by |\n|---|---|---|")
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{b}/meta.json"))
    w = m["what_it_breaks"].strip().split("\n")[0].replace("|", "/")
    c = ", ".join(k for k, v in last.get(b, {}).get("checks", {}).items() if v[0] == 1) or "-"
    print(f"| {b} | {w} | {c} |")
