#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta

NOTE = ('Decided by z3 for every value of the symbolic inputs within the stated sizes: the real Python runs on symbolic arrays and the C code is executed from '
        'clang IR of the working tree. Arithmetic that touches a symbol is over the reals (float rounding within the stated tolerance is not decided); '
        'numpy/scipy/FFT primitives are modelled. Counterexamples are replayed on a fresh build of the library before they are reported. ')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['forall']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                                                    'hook_needed': None}}) + '\n')
checks = []
for p in meta.PROPS:
    if p.get('na'):
        continue
    checks.append({'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                   'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                   'technique': 'symbolic execution of the Python code and of the C code\'s LLVM IR, decided by z3; counterexamples replayed on the built library',
                   'level': 'model_checking', 'level_note': NOTE + p.get('note', '')})
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in meta.PROPS if p.get('na')],
       'notes': 'No hooks in /repo. Every check regenerates LLVM IR and shared libraries from /repo in a scratch directory and removes it.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for p in meta.PROPS:
    assert len(p['title']) <= 80, p['title']
    if not p.get('na'):
        assert os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py')), p['id']
print(len(meta.PROPS), 'properties,', len(checks), 'claimed')
