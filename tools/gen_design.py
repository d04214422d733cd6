#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*, the property modules, the last evidence and seeded/."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, 'tools', 'design')
sys.path.insert(0, D)
from sections import S
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
def read(n): return open(os.path.join(D, n)).read()
out = [read('1_intro.md'), read('2_machinery.md')]
for p in props:
    k = p['id']
    how, why = S[k]
    ev = json.load(open(os.path.join(ROOT, 'evidence', k + '.json')))
    c = ev['coverage']
    out.append('### %s — %s\n\n%s\n\n*Beyond the tests:* %s\n\n*Quick tier:* %d states, %d transitions, %d executions, about %d s. '
               '*Bounds:* %s. *Assumptions:* %s.\n\n' % (
                   k, p['title'], how.strip(), ' '.join(why.split()), c['states'], c['transitions'],
                   c['traces_validated_against_impl'], max(5, round(ev['wall_s'] / 5.0) * 5), c['bounds'].rstrip('.'),
                   '; '.join(ev['assumptions']).rstrip('.') or 'none'))
out.append(read('4_findings.md'))
out.append('\n## 4. Planted bugs\n\nEach was confirmed in a scratch copy: the stable tests pass with it, its demonstration fails with it and '
           'passes without it.\n`caught by` is the result of the property\'s own quick check (`tools/plant.py all`).\n\n'
           '| change | property | needs | breaks | caught by |\n|---|---|---|---|---|\n')
res = {}
if os.path.exists(os.path.join(D, 'caught.json')):
    res = json.load(open(os.path.join(D, 'caught.json')))
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], m['what_it_breaks'], res.get(n, '?')))
if os.path.exists(os.path.join(D, '5_mutants.md')):
    out.append('\n' + read('5_mutants.md'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
