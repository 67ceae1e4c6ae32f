#!/opt/venv/bin/python
"""Writes DESIGN.md: tools/design_head.md, a section per property (texts of meta.py and of the property modules), tools/design_tail.md."""
import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta
import oracles


def attrs(pid):
    out = {}
    path = os.path.join(HERE, 'props', pid + '.py')
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LIBS', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS', 'OMP'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
seeds = {}
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds[os.path.basename(os.path.dirname(m))] = d
o = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
o.append('## The properties, one by one\n')
for p in meta.PROPS:
    if p.get('na'):
        o.append('### %s %s (not applicable)\n\n%s\n\nReason: %s\n' % (p['id'], p['title'], p['statement'], p['na']))
        continue
    a = attrs(p['id'])
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('%s\n' % p['statement'])
    o.append('- Oracle and decision: %s' % oracles.ORACLE[p['id']])
    o.append('- Code executed: %s%s' % ('C libraries %s from LLVM IR' % ', '.join(a['LIBS']) if a.get('LIBS') else 'Python only',
                                       '; ' + ', '.join(sorted({w for _, w in p['mech']}))))
    o.append('- Bounds: %s.' % a['BOUNDS'])
    o.append('- Outside: %s.' % a['OUTSIDE'])
    o.append('- Assumptions: %s.' % '; '.join(a['ASSUMPTIONS']))
    o.append('- Why tests cannot: %s' % p['why'])
    bs = [k for k, d in seeds.items() if d['property'] == p['id']]
    if bs:
        o.append('- Planted bugs: %s.' % ', '.join('`%s`' % b for b in bs))
    fs = [f for f in kf['findings'] if f['property'] == p['id']]
    for f in fs:
        o.append('- Known finding: %s.' % f['what'])
    fx = [f for f in kf['fixed'] if f.startswith('fixed: property=%s ' % p['id'])]
    for f in fx:
        o.append('- Fixed: %s.' % f.split(' ', 2)[2])
    o.append('')
o.append('## Planted bugs\n')
o.append('Each was confirmed in a scratch copy (builds, stable tests pass, demo 0 without and 1 with the change) and is caught (exit 1, VIOLATION) by the quick check of its property.\n')
o.append('| id | property | needs | breaks |\n|---|---|---|---|')
for k, d in seeds.items():
    o.append('| `%s` | %s | %s | %s |' % (k, d['property'], d['needs'], d['what_it_breaks']))
o.append('')
o.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(o))
