#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append({'property': i, 'quick_cmd': 'bash check.sh %s' % i, 'thorough_cmd': 'bash check.sh %s' % i,
                       'technique': CLAIMS[i].get('technique', TECHNIQUE), 'level': 'proof', 'level_note': CLAIMS[i]['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not covered yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
