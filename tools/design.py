#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (per property, planted bugs) from the checks, the manifest and seeded/."""
import json, ast, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + '/MANIFEST.json'))
claims = {c['property']: c for c in M['checks']}
na = {c['property']: c['reason'] for c in M['not_applicable']}
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i not in claims:
        out.append('Not applicable: %s.\n' % na[i].rstrip('.')); continue
    t = ast.parse(open('%s/lib/checks/p%s.py' % (V, i[1:])).read())
    rule = ''
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
            try: rule = ast.literal_eval(n.value)
            except ValueError: pass
    out.append('*Analysis*: %s.' % claims[i]['technique'].rstrip('.'))
    out.append('*Rule*: ' + rule.strip())
    out.append('*Bounds*: ' + claims[i]['level_note'] + '\n')
S = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    S.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
s = open(V + '/DESIGN.md').read()
def put(s, name, text):
    a, b = '<!-- %s -->\n' % name, '<!-- end %s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + text + s[j:]
s = put(s, 'properties', '\n'.join(out) + '\n')
s = put(s, 'seeds', '| planted bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(S) + '\n')
open(V + '/DESIGN.md', 'w').write(s)
