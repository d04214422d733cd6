#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
notes = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'mc', 'props', i.lower() + '.py')):
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': '%s mc/run.py %s' % (PY, i),
            'thorough_cmd': 'env VERIF_TIER=thorough %s mc/run.py %s' % (PY, i),
            'technique': n.get('technique', 'bounded exhaustive exploration of operation sequences on the real code against a reference model'),
            'level': 'model_checking',
            'level_note': n.get('note', 'Exhaustive within the bounds recorded in the evidence file; the reference model (Python built-ins) and the CPython interpreter are trusted.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': '%s -c "import sys; sys.exit(0)"' % PY, 'checks': checks, 'not_applicable': na,
           'notes': 'Each check builds the C extension from /repo into a scratch directory it removes. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
