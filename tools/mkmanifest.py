"""Writes MANIFEST.json from the registry."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from sim.registry import PROPS, LEVEL
from sim.meta import META
import mkproperties

checks, na = [], []
for p in mkproperties.P:
    i = p['id']
    if i in PROPS:
        m = META[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py --property {i}',
                       'thorough_cmd': f'python3 check.py --property {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection: ' + m['technique'],
                       'level': LEVEL, 'level_note': m['note']})
    else:
        na.append({'property': i, 'reason': mkproperties.NA_REASON.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every seam is put in place from outside (see DESIGN.md). The simulated processes import the working tree of /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
