"""writes MANIFEST.json from the list of claimed properties (a property counts as claimed once
its contracts module exists)"""
import json
import os
T = 'contract-based deductive verification: contracts on the functions of /repo, verification conditions generated from their current source by symbolic execution (pyvc), discharged by z3'
NOTE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json')))
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NOTE:
        checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                       'technique': T, 'level': NOTE[p]['level'], 'level_note': NOTE[p]['note']})
    else:
        na.append({'property': p, 'reason': 'contracts under construction'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
