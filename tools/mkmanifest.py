#!/usr/bin/env python3
"""MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
from manifest_data import CHECKS, NA
checks = []
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
na = []
for i in ids:
    if os.path.exists(f'{V}/checks/{i}.py') and i in CHECKS:
        t, lv, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 checks/{i}.py', thorough_cmd=f'VERIF_TIER=thorough python3 checks/{i}.py',
                           evidence_file=f'evidence/{i}.json', technique=t, level=lv, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile its sources unchanged and observe them through the linker (--wrap) and through their output.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
