"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from qa import props

NA = {}
p = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    f = props.CHECKS.get(i)
    if f is None:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'technique': f.technique, 'level': 'other', 'level_note': f.rule + '  Assumes: ' + '; '.join(f.assume) + '.'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m qa.build', 'checks': checks, 'not_applicable': na,
           'notes': 'Nothing in /repo is instrumented (no hooks).  Every check recompiles /repo with an analysis driver, extracts the monomorphic MIR and analyses it; no code of /repo is run.  '
                    'known-findings.txt lists the defects recorded and repaired.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable:', [x['property'] for x in na])
