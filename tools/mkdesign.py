#!/usr/bin/env python3
"""DESIGN.md from tools/design/*.md and the results in tools/design/seeds.json"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/tools/design/'
t = open(D + 'main.md').read()
p = open(D + 'properties.md').read()
n = json.load(open(V + '/tools/notes.json'))
na = [json.loads(l) for l in open(V + '/properties.jsonl')]
rest = [x for x in na if x['id'] not in n['claimed']]
if rest: p += '\n**Not claimed** (see MANIFEST.json): ' + '; '.join('%s: %s' % (x['id'], n['na'].get(x['id'], 'no check yet')) for x in rest) + '\n'
s = '## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
res = json.load(open(D + 'seeds.json')) if os.path.exists(D + 'seeds.json') else {}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    s += '| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], res.get(b, ''))
extra = open(D + 'mutations.md').read() if os.path.exists(D + 'mutations.md') else ''
open(V + '/DESIGN.md', 'w').write(t.replace('PROPERTIES\n', p).replace('SEEDS\n', s + '\n' + extra))
