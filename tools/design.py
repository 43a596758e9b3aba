#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.in, properties.jsonl, rule modules, known-findings.json, seeded/ (run by hand)."""
import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/lib', H + '/rules']
na = json.load(open(H + '/tools/not_applicable.json'))
o = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    o.append('### %s %s\n' % (i, p['title']))
    if i in na:
        o.append('Not applicable: ' + na[i] + '\n'); continue
    m = importlib.import_module(i.lower())
    o.append(p['statement'] + '\n')
    o.append('*How decided:* %s. %s' % (m.TECHNIQUE, m.NOTE))
    if getattr(m, 'EXPLAIN', None):
        o.append(m.EXPLAIN.strip())
    o.append('*Bounds:* none on the inputs except where stated; all paths of the analysed routines. *Reaches beyond the tests:* %s\n' % p['why_tests_cant'])
k = json.load(open(H + '/known-findings.json'))
f = ['Repaired in /repo (each a separate `fix:` commit):\n'] + ['* ' + x for x in k['fixed']]
f += ['\nRecorded, not repaired (reported as KNOWN-FINDING, any other deviation is still a violation):\n']
f += ['* %s, %s: %s' % (x['property'], x['instance'], x['what']) for x in k['known']]
s = ['| change | property | needs | caught by |', '|---|---|---|---|']
try:
    caught = json.load(open(H + '/tools/caught.json'))
except OSError:
    caught = {}
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    s.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
t = open(H + '/tools/design.in').read()
for a, b in (('@PROPS@', o), ('@FIXED@', f), ('@SEEDS@', s)):
    t = t.replace(a, '\n'.join(b))
open(H + '/DESIGN.md', 'w').write(t)
