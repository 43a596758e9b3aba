#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the rule modules (run by hand after changing either)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
sys.path.insert(0, os.path.join(H, 'rules'))
import importlib
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
na = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
checks, n_a = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'rules', i.lower() + '.py')
    if i in na:
        n_a.append({'property': i, 'reason': na[i]})
        continue
    m = importlib.import_module(i.lower())
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': m.TECHNIQUE,
        'level': 'other',
        'level_note': m.NOTE,
    })
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 8))"',
           'checks': checks, 'not_applicable': n_a},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(n_a), 'not applicable')
