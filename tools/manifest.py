"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry as R  # noqa: E402

ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks = []
for p in ids:
    if p in R.PROPS:
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'technique': R.TECHNIQUE.get(p, 'abstract interpretation of MIR'),
            'level': 'other',
            'level_note': R.NOTE.get(p, '') or R.EXPLAIN[p],
        })
na = [{'property': p, 'reason': R.NOT_APPLICABLE.get(p, 'no check yet')} for p in ids if p not in R.PROPS]
m = {'version': 1, 'setup_cmd': 'python3 -m sa.build', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks read the MIR of the current tree of /repo through a rustc driver (driver/); no hooks in /repo.'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
