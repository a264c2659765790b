#!/usr/bin/env python3
"""Writes MANIFEST.json from CLAIMS below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + '/tools/claims.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    if p in NOTES:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": NOTES[p]["technique"], "level": "model_checking",
                       "level_note": NOTES[p]["note"]})
    else:
        na.append({"property": p, "reason": "check under construction: not claimed yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use exported interfaces only (the driver is compiled into the module with go build -overlay)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; check.py builds driver/ against /repo's working tree and compares. Findings: known_findings.json."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
