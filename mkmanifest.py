#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import props
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    P = props.PROPS.get(p['id'])
    if P is None:
        na.append(dict(property=p['id'], reason=props.NOT_APPLICABLE.get(p['id'], 'contracts for it are not written yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique=P.get('technique', props.TECHNIQUE), level='proof', level_note=props.LEVEL_NOTE + (' ' + P['note'] if 'note' in P else '')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na)
if getattr(props, 'HOOKS', None):
    m['hooks'] = props.HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
