#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/claims.json and the modules under lib/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/lib/checks/%s.py' % (V, i.lower())):
        c = claims['claimed'][i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': c[0], 'level': 'other', 'level_note': c[1]})
    else:
        na.append({'property': i, 'reason': claims['not_applicable'].get(i, 'not decided yet')})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na, 'notes': claims['notes']}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
