#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/claims.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
C = json.load(open(R + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in C['claims']:
        t, note = C['claims'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'other', 'level_note': note + ' ' + C['common']})
    else: na.append({'property': i, 'reason': C['na'].get(i, C['pending'])})
json.dump({'version': 1, 'setup_cmd': "python3 -B -c \"import sys; sys.path.insert(0, 'engine'); import facts; facts.build('/repo')\"", 'checks': checks, 'not_applicable': na, 'notes': C['notes']}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
