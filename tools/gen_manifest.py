#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in vp/checks."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'
NA = {}  # property -> reason
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for id in ids:
    if not os.path.exists(os.path.join(ROOT, 'vp/checks', id.lower() + '.py')):
        na.append({'property': id, 'reason': NA.get(id, 'No check built yet.')})
        continue
    mod = importlib.import_module(f'vp.checks.{id.lower()}')
    checks.append({
        'property': id,
        'quick_cmd': f'{PY} -m vp.runner {id}',
        'thorough_cmd': f'{PY} -m vp.runner {id} --tier thorough',
        'evidence_file': f'evidence/{id}.json',
        'technique': mod.TECHNIQUE,
        'level': mod.LEVEL,
        'level_note': mod.NOTE,
    })
m = {'version': 1,
     'setup_cmd': f'{PY} -c "import vp.env, vp.runner, vp.fakeds"',
     'checks': checks, 'not_applicable': na,
     'notes': 'Checks import arroba from /repo\'s working tree at run time; nothing is built. No hooks in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
