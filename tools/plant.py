#!/usr/bin/env python3
"""Plant bugs: every module-level entry of BUGS in the given files becomes
/verif/seeded/<id>/, when it applies to original lines, passes the tests, and
its demonstration tells it from the unchanged tree.

usage: plant.py FILE.py [ID ...]"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

ROOT = '2ebdab0'
SEEDED = '/verif/seeded'


def sh(cmd, cwd=None, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def original(path, patch):
    """are all lines that the patch removes from the original repository?"""
    out = sh('git blame -s --root HEAD -- %s' % path, '/repo').stdout.splitlines()
    mine = set()
    for i, l in enumerate(out):
        if not l.lstrip('^').startswith(ROOT):
            mine.add(i + 1)
    bad, n, removed = [], 0, 0
    for l in patch.splitlines():
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
        elif l.startswith('---') or l.startswith('+++'):
            continue
        elif l.startswith('-'):
            removed += 1
            if n in mine:
                bad.append(l)
            n += 1
        elif l.startswith(' '):
            n += 1
    return removed, bad


def plant(b):
    w = '/tmp/plant'
    sh('git -C /repo worktree prune')
    if os.path.isdir(w):
        shutil.rmtree(w)
    sh('cp -a /repo %s' % w)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s: %d places' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', w).stdout
        for part in re.split(r'(?m)^diff --git ', patch)[1:]:
            f = part.split(' b/', 1)[1].split('\n', 1)[0]
            removed, bad = original(f, part)
            if bad:
                return 'changes lines of my own: %s' % bad
            if not removed:
                print('   note: only adds lines in', f)
        d = os.path.join('/tmp/plant-demo', b['id'])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        good = sh('PYTHONDONTWRITEBYTECODE=1 bash %s/demo.sh' % d, '/repo')
        broken = sh('PYTHONDONTWRITEBYTECODE=1 bash %s/demo.sh' % d, w)
        if good.returncode != 0:
            return 'demo fails on the unchanged tree: %s' % good.stdout[-1500:]
        if broken.returncode == 0:
            return 'demo passes with the bug: %s' % broken.stdout[-800:]
        print('   demo:', broken.stdout.strip().splitlines()[-1:] )
        # the tests, in the copy
        t = open('/opt/vp/test.sh').read().replace('/repo', w).replace('/opt/vp/reports', '/tmp/plant-rep')
        open('/tmp/plant-test.sh', 'w').write(t)
        t = sh('bash /tmp/plant-test.sh /tmp/plant.json').stdout.strip().splitlines()[-1]
        if '294 passed, 0 failed' not in t:
            return 'tests: %s' % t
        o = os.path.join(SEEDED, b['id'])
        if os.path.isdir(o):
            shutil.rmtree(o)
        os.makedirs(o)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(d, n), o)
        open(o + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        return None
    finally:
        if os.path.isdir(w):
            shutil.rmtree(w)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], flush=True)
        e = plant(b)
        print('   ' + ('planted' if e is None else 'NO: ' + e), flush=True)
