#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/manifest_data.py; properties without a check are listed as not applicable."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from checks import CHECKS
from manifest_data import TECH, NOT_APPLICABLE, NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(H, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS and p not in NOT_APPLICABLE:
        t, n = TECH[p]
        checks.append(dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough', technique=t, level='exploration', level_note=n))
    else: na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na, notes=NOTES)
with open(os.path.join(H, '..', 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
