#!/usr/bin/env python3
"""MANIFEST.json from the harnesses present and tools/na.json (reasons for the rest)"""
import json, os, re, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
na = json.load(open(f'{H}/tools/na.json')) if os.path.exists(f'{H}/tools/na.json') else {}
checks, not_app = [], []
for p in props:
    i = p['id']
    f = f'{H}/harness/{i.lower()}.py'
    if os.path.exists(f) and i not in na:
        tree = ast.parse(open(f).read())
        vals = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'TECHNIQUE'):
                try:
                    vals[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        note = ('Every path of the real code within the bounds is executed symbolically and each assertion is decided by z3 for all '
                'values on that path; counterexamples are replayed on the unpatched code before being reported. Bounds: '
                + vals.get('BOUNDS', '') + '. Trusted: ' + '; '.join(vals.get('ASSUMPTIONS', []) or ['the symbolic number layer and numpy object arrays'])
                + '. Real arithmetic stands for floating point.')
        checks.append({'property': i, 'quick_cmd': f'bash run.sh {i}', 'thorough_cmd': f'bash run.sh {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': vals.get('TECHNIQUE', 'symbolic execution of the real Python code with z3 deciding every branch and assertion'),
                       'level': 'model_checking', 'level_note': note})
    else:
        not_app.append({'property': i, 'reason': na.get(i, 'no solver-based check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': not_app,
     'notes': 'No hooks in /repo are needed: the real modules are imported from /repo and run with their numpy/scipy globals replaced in memory.'}
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(not_app), 'not applicable')
