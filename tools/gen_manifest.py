#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check directories present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools/level_notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    d = os.path.join(H, "checks", pid)
    if os.path.isdir(d) and any(f.endswith(".cc") for f in os.listdir(d)):
        n = NOTES.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": n.get("technique", "property-based testing: generated inputs against an independent reference oracle, with shrinking"),
            "level": "exploration",
            "level_note": n.get("note", "Held on every generated case; no claim beyond the generated domain.") +
                " Trusts the oracle in checks/%s, Eigen, the compiler, and (where headers need them) the ThreadPool/gzip stand-ins." % pid,
        })
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check is a C++ program built from /repo's headers by run.py; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
