#!/usr/bin/env python3
"""Writes fgsverif/baseline.json: which part of the generated cases is left out, and why, of each
sub, from the evidence of runs of the unchanged tree: baseline.py DIR... (directories with copies of evidence/)"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
n = {}
for d in sys.argv[1:]:
    for f in sorted(glob.glob(d + "/C*.json")):
        e = json.load(open(f))
        for sub, x in e["coverage"]["per_sub"].items():
            key = (e["property"], sub)
            m = n.setdefault(key, {"n": 0, "*": 0})
            m["n"] += x["evaluations"]
            m["*"] += x["outside_domain"]
            for why, k in e["coverage"]["outside_domain_because"].get(sub, {}).items():
                m[why] = m.get(why, 0) + k
for (pid, sub), m in n.items():
    out.setdefault(pid, {})[sub] = {k: round(v / m["n"], 3) for k, v in sorted(m.items()) if k != "n"}
with open(os.path.join(HERE, "fgsverif", "baseline.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
