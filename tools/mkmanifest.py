#!/usr/bin/env python3
"""writes MANIFEST.json from tools/plan.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan
checks = []
for p in plan.ALL:
    if p in plan.NOT_APPLICABLE:
        continue
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=${VERIF_TIER:-quick} python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': plan.TECHNIQUE(p), 'level': plan.LEVEL[p], 'level_note': plan.NOTE(p)})
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(plan.NOT_APPLICABLE.items())],
     'notes': 'check.py extracts the functions under contract from /repo/src, runs Verus on them, and runs the executable contracts of /verif/replay against the crate. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
