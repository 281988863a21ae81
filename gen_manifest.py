#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json
from units import UNITS, NOTES, NOT_CLAIMED
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in UNITS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "contracts on the functions extracted from /repo, discharged by Verus (SMT)",
            "level": "proof",
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "its contracts are under construction")})
json.dump({
    "version": 1,
    "setup_cmd": "cargo build --offline --manifest-path vx/Cargo.toml && cargo build --offline --manifest-path native/Cargo.toml",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks are used: the functions are extracted from the source and the public API is exercised", "source_commits": []},
    "not_applicable": na,
}, open('/verif/MANIFEST.json', 'w'), indent=1)
