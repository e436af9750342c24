#!/usr/bin/env python3
"""writes MANIFEST.json; a property is claimed if its check module exists"""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    n = NOTES[i]
    checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': n['technique'],
                   'level': n.get('level', 'model_checking'), 'level_note': n['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed. All checks run the code of /repo/bayesloop directly; nothing is built.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
