#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.json from the fix: commits of /repo.
Each fix's property is taken from the table below (subject prefix -> property)."""
import json, subprocess
T = dict(l.rstrip("\n").split("\t") for l in open("tools/fixed.tsv") if l.strip())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True)
k = json.load(open("known_findings.json"))
out = [f for f in k["findings"] if f["status"] != "fixed"]
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"):
        continue
    s = s[5:]
    if s not in T:
        print("no property for:", s)
        continue
    ps = T[s].split()
    out.append({"status": "fixed", "property": ps[0], "also": ps[1:], "commit": h, "what": s,
                "line": f"fixed: property={ps[0]} {h} {s}"})
k["findings"] = out
json.dump(k, open("known_findings.json", "w"), indent=1)
open("known_findings.json", "a").write("\n")
