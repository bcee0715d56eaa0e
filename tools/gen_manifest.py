#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry for each checks/pNN.py"""
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks = []
for p in props:
    f = 'checks/%s.py' % p['id'].lower()
    if not os.path.exists(os.path.join(V, f)): continue
    checks.append(dict(property=p['id'], quick_cmd='python3 ' + f, thorough_cmd='VERIF_TIER=thorough python3 ' + f, evidence_file='evidence/%s.json' % p['id'],
                       technique=TECH[p['id']][0], level='model_checking', level_note=TECH[p['id']][1]))
claimed = {c['property'] for c in checks}
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in props if p['id'] not in claimed]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
