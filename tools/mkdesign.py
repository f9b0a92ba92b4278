#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md + per-property sections (tools/design/CXX.md) + the table of seeded changes."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## Properties', '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    out += ['### %s %s' % (p['id'], p['title']), '']
    f = os.path.join(T, 'design', p['id'] + '.md')
    out += [open(f).read().strip() if os.path.exists(f) else 'Check not built yet.', '']
out += ['## Seeded changes', '', 'Each is in `seeded/<id>/`; "caught" is the result of the quick check of its property.', '',
        '| change | property | needs | quick check |', '|---|---|---|---|']
res = {}
f = os.path.join(T, 'seeded_results.json')
if os.path.exists(f):
    res = json.load(open(f))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, 'not run')))
k = json.load(open(os.path.join(V, 'known_findings.json')))
out += ['', '## Known findings', '']
out += ['- %s `%s`: %s' % (f['property'], f['key'], f['what']) for f in k['findings']] or ['None.']
out += ['', '## Repaired defects', '', 'One `fix:` commit each in /repo; found by the check named.', '']
out += ['- ' + f for f in k['fixed']]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
