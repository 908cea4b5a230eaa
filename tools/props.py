#!/usr/bin/env python3
"""Authoring tool: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import registry  # noqa: E402

TECH = ('TLA+ specification: TLC explores the bounded model and its '
        'transitions are replayed in the code; recorded behaviours of the '
        'code are validated against it')
TECH_T = ('TLA+ specification as executable semantics: recorded behaviours '
          'of the code are validated against it with TLC')


sys.path.insert(0, os.path.join(V, 'tools'))
from props_data import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')

checks = []
for p in PROPS:
    e = registry.PROPS.get(p['id'])
    if e is None:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECH if e.get('models') else TECH_T,
        'level': 'model_checking',
        'level_note': NOTES.get(p['id'], NOTES['']),
    })
na = [{'property': p['id'], 'reason': NOT_APPLICABLE.get(
    p['id'], 'no check yet')} for p in PROPS if p['id'] not in registry.PROPS]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'TLA+ / TLC. See DESIGN.md. No hooks: every observation goes '
              'through the public API.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'n/a')
for p in registry.PROPS:
    if p not in [x['id'] for x in PROPS]:
        print('no statement for', p)
