#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NOTES = {
    'model_checking': 'Exhaustive within the stated bounds (evidence: coverage.bounds): every behaviour in the bounded space is executed on the '
                      'real code and compared step by step with a reference model written from the standard. Nothing is claimed beyond '
                      'the bounds and alphabets; the reference model and the document writer in mc/ are trusted.',
    'fault_enumeration': 'Every fault of the stated classes at every position of the stated files is injected and the real code run on it; '
                         'nothing is claimed for other faults or files. The reference reader and writer in mc/ are trusted.',
}
TECH = {
    'model_checking': 'explicit-state bounded model checking: exhaustive enumeration of operation sequences on the real code against a reference model',
    'fault_enumeration': 'exhaustive enumeration of fault positions with the real code under a fault injector, compared with a reference model',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                       'technique': getattr(m, 'TECHNIQUE', TECH[m.LEVEL]), 'level': m.LEVEL,
                       'level_note': NOTES[m.LEVEL] + (' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.' if getattr(m, 'ASSUMPTIONS', None) else '')})
    else:
        na.append({'property': i, 'reason': 'model checking applies, but the check for it is not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything is observed through the public interfaces. Thorough commands set VERIF_TIER=thorough.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
