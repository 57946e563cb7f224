"""Writes MANIFEST.json from the properties that have a module in props/."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
NOTE = ('Bounded: the real functions are executed symbolically (all values of the array entries and parameters are solver '
        'variables) for the concrete array lengths, scale ranges and options listed per case in the evidence; real arithmetic '
        'stands for binary64. ')
EXTRA = {}
p = os.path.join(here, 'tools', 'notes.json')
if os.path.exists(p):
    EXTRA = json.load(open(p))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for d in props:
    i = d['id']
    if os.path.exists(os.path.join(here, 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python check.py {i} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the package source, obligations decided by z3 (SMT), counterexamples replayed '
                         'on the real package',
            'level': 'model_checking',
            'level_note': NOTE + EXTRA.get(i, ''),
        })
    else:
        na.append({'property': i, 'reason': EXTRA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. known_findings.jsonl lists the recorded finding (C16) and the repaired defects.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
