#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and sa/props (dev aid)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
for l in open(os.path.join(HERE, 'not_applicable.txt')):
    if l.strip():
        k, _, v = l.strip().partition(' ')
        NA[k] = v
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sa/props/%s.py' % i.lower())):
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='static analysis: gated value-flow summaries of the '
            'source (path-sensitive def-use, effect order, scopes and loop '
            'nesting, calls expanded) queried by property rules',
            level='other',
            level_note='Sound for the rules stated in DESIGN.md relative to '
            'the modelled Python subset; no bound on inputs, no execution. '
            'Numeric results are out of reach and not claimed.'))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'no sound rule has been built for this property yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
