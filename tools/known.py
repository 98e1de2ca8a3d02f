#!/usr/bin/env python3
"""known.py PROPERTY SIGNATURE WHAT: adds a known finding (by hand, never at run time)."""
import json, sys
k = json.load(open("known_findings.json"))
p, sig, what = sys.argv[1:4]
k["findings"] = [f for f in k["findings"] if not (f["status"] == "known" and f["property"] == p and f["signature"] == sig)]
k["findings"].append({"status": "known", "property": p, "signature": sig, "what": what})
json.dump(k, open("known_findings.json", "w"), indent=1)
open("known_findings.json", "a").write("\n")
