#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TRUST = ("Exploration: shows that no generated case breaks the property, with the counts in the evidence file; "
         "it proves nothing about inputs not generated. The library is compiled from the working tree with clang, "
         "AddressSanitizer and bounds checks. ")
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "No check yet: still being built."})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": c["technique"], "level": "fault_enumeration" if c.get("level") == "fault_enumeration" else "exploration",
                   "level_note": TRUST + c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py all --build-only", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: every property is observed through the library's own interfaces and headers."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
