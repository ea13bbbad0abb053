#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in: per-property sections and the table of planted bugs are generated"""
import json, os, ast, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
HOW = json.load(open(f'{H}/tools/how.json'))
na = json.load(open(f'{H}/tools/na.json')) if os.path.exists(f'{H}/tools/na.json') else {}
out = []
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n')
    f = f'{H}/harness/{i.lower()}.py'
    if i in na or not os.path.exists(f):
        out.append('Not applicable: ' + na.get(i, 'no check yet') + '\n')
        continue
    vals = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS'):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    h = HOW.get(i, {})
    out.append(f'* Specified and executed: {h.get("what", "")}')
    out.append(f'* Oracle: {h.get("oracle", "")}')
    out.append(f'* Bounds: {vals["BOUNDS"]}.')
    out.append('* Trusted: ' + '; '.join(vals['ASSUMPTIONS']) + '.')
    out.append(f'* Cost: {h.get("cost", "")}. Beyond the tests: {h.get("beyond", "")}\n')
rows = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f'| {os.path.basename(os.path.dirname(d))} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {m.get("caught_by", m["property"])} |')
s = open(f'{H}/tools/DESIGN.in').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(rows))
open(f'{H}/DESIGN.md', 'w').write(s)
