#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the contracts that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in ps:
    i = p['id']
    if i in NOTE.get('claimed', {}):
        checks.append({'property': i, 'quick_cmd': 'python3-vt tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt tools/check.py %s --thorough' % i,
                       'technique': 'contract-based deductive verification of the real code (LLVM IR of /repo, obligations discharged by z3 and a polynomial normal form), failing inputs replayed on the real code',
                       'level': NOTE.get('levels', {}).get(i, 'proof'), 'level_note': NOTE['claimed'][i]})
    else: na.append({'property': i, 'reason': NOTE.get('na', {}).get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/extract.sh build/setup && python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md; genuine defects repaired in /repo are listed in known_findings.txt.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
