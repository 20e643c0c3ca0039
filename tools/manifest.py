#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the checks present in checks/."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
import properties
NOTES = {}
exec(open(os.path.join(R, 'tools', 'notes.py')).read())
checks, na = [], []
for p in properties.P:
    f = os.path.join(R, 'checks', p['id'] + '.py')
    if os.path.exists(f) and p['id'] not in NOT_CLAIMED:
        n = NOTES[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s' % p['id'], thorough_cmd='bash run.sh %s --thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=n[0], level='exploration', level_note=n[1]))
    else:
        na.append(dict(property=p['id'], reason=NOT_CLAIMED.get(p['id'], 'check not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Pure Python project: checks import do_mpc from /repo (VERIF_REPO) directly, nothing is built or cached. No hooks in /repo.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
