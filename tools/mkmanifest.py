#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness modules present, and tools/na.json (reasons)."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
na = json.load(open(R + '/tools/na.json')) if os.path.exists(R + '/tools/na.json') else {}
notes = json.load(open(R + '/tools/notes.json')) if os.path.exists(R + '/tools/notes.json') else {}
checks, nas = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{R}/h/{i.lower()}.py') and i not in na:
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt run.py {i} --tier quick',
            'thorough_cmd': f'python3-vt run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real Python source (AST-instrumented on every run) + z3 '
                         'bit-vector/FP queries; counterexamples replayed on the unmodified code',
            'level': 'model_checking',
            'level_note': notes.get(i, 'Bounded: the solver decides the assertion on every path of the stated cases '
                                       'for all input values of the stated widths; trusts the executor\'s models of '
                                       'CPython primitives (validated per path against the real code) and z3.'),
        })
    else:
        nas.append({'property': i, 'reason': na.get(i, 'no solver-based check built yet')})
json.dump({'version': 1, 'setup_cmd': "python3-vt -c 'import z3'", 'checks': checks, 'not_applicable': nas},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
