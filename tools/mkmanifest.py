#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'specs'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                           technique=p.get('technique', 'contract-based deductive verification: contracts on the functions extracted from /repo on every run, Why3 obligations discharged by SMT solvers'),
                           level=p.get('level', 'proof'), level_note=p['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'No check built yet; nothing is claimed.')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
