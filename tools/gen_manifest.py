#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/manifest_table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from manifest_table import CLAIMS, NOT_APPLICABLE, NOTES  # noqa: E402

ROOT = os.path.dirname(HERE)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for pid in ids:
    if pid not in CLAIMS:
        continue
    level, technique, note = CLAIMS[pid]
    checks.append({
        'property': pid,
        'quick_cmd': 'VERIF_TIER=quick /opt/venv/bin/python -B run.py check ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python -B run.py check ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': technique, 'level': level, 'level_note': note,
    })
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no discharged contract yet')} for p in ids if p not in CLAIMS]
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B run.py selftest',
     'checks': checks, 'not_applicable': na, 'notes': NOTES}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
