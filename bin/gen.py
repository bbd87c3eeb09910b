#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import META
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for k in sorted(META):
        f.write(json.dumps(META[k]) + '\n')
checks, na = [], []
for k in sorted(META):
    if k in PROPS:
        p = PROPS[k]
        checks.append({'property': k,
                       'quick_cmd': 'python3 bin/check.py %s' % k,
                       'thorough_cmd': 'python3 bin/check.py %s' % k,
                       'technique': p.get('technique', 'TLA+ specification; TLC trace validation of recorded executions'),
                       'level': p.get('level', 'model_checking'),
                       'level_note': p['note']})
    else:
        na.append({'property': k, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 bin/check.py --setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks are used: the checks observe the public API only', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ with TLC; see DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
S = '/root/.vp/'
if os.path.exists(S):
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open(S + 'MANIFEST.schema.json')))
    ps = json.load(open(S + 'PROPERTIES.schema.json'))
    for line in open(V + '/properties.jsonl'):
        jsonschema.validate(json.loads(line), ps)
print(len(META), 'properties', len(checks), 'claimed')
