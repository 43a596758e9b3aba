#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] -- decide one property on /repo's current source."""
import argparse
import os
import sys
VT = '/opt/veriftools/pyvenv/bin/python'
if __name__ == '__main__' and os.path.exists(VT) and os.environ.get('VERIF_PY') != VT:
    # the interpreter that has numpy (finite array instances of extracted expressions)
    os.environ['VERIF_PY'] = VT
    os.execv(VT, [VT] + sys.argv)
import hashlib
import importlib.util
import json
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)


def known():
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def load_rule(pid):
    p = os.path.join(HERE, 'rules', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('rule_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, 'rules'))
    spec.loader.exec_module(m)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from ctx import Ctx
    from pyfront import AnalysisError
    t0 = time.time()
    ctx = Ctx(pid, a.tier, seed)
    rule = load_rule(pid)
    try:
        rule.run(ctx)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    obs = ctx.obs
    n = {s: sum(1 for o in obs if o['status'] == s) for s in ('ok', 'violation', 'undecided')}
    viol = [o for o in obs if o['status'] == 'violation']
    kn = [k for k in known() if k['property'] == pid]
    new, listed = [], []
    for o in viol:
        hit = [k for k in kn if k['rule'] == o['rule'] and k['instance'] == o['instance']]
        (listed if hit else new).append((o, hit[0] if hit else None))
    minimum = getattr(rule, 'MIN_OBLIGATIONS', 1)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': getattr(rule, 'EXPLAIN', rule.__doc__ or '').strip(),
            'obligations': len(obs), 'discharged': n['ok'], 'undecided': n['undecided'],
            'violating': n['violation'], 'functions_analysed': len(ctx.functions),
            'functions': sorted(ctx.functions)[:400], 'events_inspected': ctx.sites,
            'rules': sorted({o['rule'] for o in obs}),
            'samples': [{'rule': o['rule'], 'instance': o['instance'], 'where': o['where'], 'status': o['status']}
                        for o in obs[:12]],
            'undecided_obligations': [{'rule': o['rule'], 'instance': o['instance'], 'where': o['where'],
                                       'msg': o['msg'][:300]} for o in obs if o['status'] == 'undecided'][:40],
        },
        'assumptions': ctx.assumptions, 'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if a.v:
        for e in ctx.errors:
            print('ERROR', e)
        for o in obs:
            print('%-10s %-22s %-60s %s %s' % (o['status'], o['rule'], o['instance'], o['where'], o['msg'][:1500]))
    for o, k in listed:
        print('KNOWN-FINDING: property=%s [%s] %s: %s' % (pid, o['rule'], o['instance'], k.get('what', '')))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known), %d functions, %.1f s'
          % (pid, len(obs), n['ok'], n['undecided'], n['violation'], len(listed), len(ctx.functions), wall))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o, _ in new:
                f.write('[%s] %s\n  at %s\n  %s\n' % (o['rule'], o['instance'], o['where'], o['msg']))
        for o, _ in new[:10]:
            print('  [%s] %s at %s: %s' % (o['rule'], o['instance'], o['where'], o['msg'][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if n['ok'] < minimum:
        print('ANALYSIS-BROKEN property=%s only %d obligations decided, %d expected' % (pid, n['ok'], minimum))
        for e in ctx.errors[:10]:
            print('  ' + e)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
