#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has bin/checks/<id>.py;
NOTE gives the level note of each, NA the reason for what is not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/bin/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/bin/checks/%s.py' % (V, i.lower())):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='TLA+ specification checked with TLC, bound to the code by ' + n.get('bind', 'trace validation'),
                           level='model_checking',
                           level_note=n.get('note', 'TLC checks the design exhaustively within the bounds of the .cfg files; the code is bound by validating recorded runs against the same specification, so code behaviour is covered only on the runs recorded.')))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('na', 'Its check is not built yet.')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the harnesses use public interfaces only, and MPI traffic is observed through the PMPI profiling interface (harness/pmpi.cxx).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
