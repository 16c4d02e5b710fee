#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of deciding methods below."""
import json, sys
T = json.load(open('/verif/tools/techniques.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        t = T[i]
        checks.append({
            "property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration",
            "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "--cfg pcrs_verif", "enable": "RUSTFLAGS='--cfg pcrs_verif' cargo build (done by bin/check for C31 and C32)",
               "source_commits": json.load(open('/verif/tools/hook_commits.json'))},
     "notes": "Own choice-sequence engine (engine/) with shrinking and replay; bin/check rebuilds from /repo's working tree. Known and fixed defects: known-findings.txt."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
