#!/usr/bin/env python3
"""Adds the "fixed" list of known_findings.json from the fix: commits of /repo and the property table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject prefix -> property
}
for line in open(os.path.join(V, 'tools', 'fixed.txt')):
    if line.strip():
        p, s = line.rstrip('\n').split(' ', 1)
        PROP[s] = p
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out, missing = [], []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        if s in PROP:
            out.append('fixed: property=%s %s %s' % (PROP[s], h, s))
        else:
            missing.append(s)
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = out
with open(f, 'w') as g:
    json.dump(d, g, indent=1)
    g.write('\n')
print(len(out), 'fixed;', 'missing:', missing)
