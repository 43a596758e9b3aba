#!/usr/bin/env python3
"""mkseed.py < spec : write seeded/<id>/ from a small text (by hand only).
lines '@@id', '@@property', '@@needs', '@@breaks', '@@file', '@@old', '@@new', '@@demo' start sections; file/old/new may repeat."""
import sys, os, json, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for text in sys.stdin.read().split('@@@@\n'):
    if not text.strip():
        continue
    sec, cur = [], None
    for l in text.splitlines(True):
        if l.startswith('@@'):
            k, _, v = l[2:].rstrip('\n').partition(' ')
            cur = [k, v]; sec.append(cur)
        elif cur is not None:
            cur[1] += l
    one = {k: v.strip() for k, v in sec}
    d = os.path.join(H, 'seeded', one['id'])
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        f = old = None
        for k, v in sec:
            if k == 'file':
                f = 'longitudinal_tomography/' + v.strip()
            elif k == 'old':
                old = v
            elif k == 'new':
                p = os.path.join(w, 'r', f); s = open(p).read()
                assert s.count(old) == 1, (one['id'], s.count(old), old)
                open(p, 'w').write(s.replace(old, v))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': one['property'], 'needs': one['needs'], 'what_it_breaks': one['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(one['demo'] + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n')
    print(one['id'], len(diff.splitlines()))
