#!/bin/bash
# which statements of pyswagger no run of the named checks (default: all) has reached
# usage: cover.sh [PROP ...]
props=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}
d=$(mktemp -d)
cd /verif
for p in $props; do SIM_COVER=$d /opt/venv/bin/python check.py $p --tier quick | tail -1; done
python3 - $d <<'E'
import sys, glob, os
d = sys.argv[1]
every = set(open(d + '/all').read().split())
hit = set()
for f in glob.glob(d + '/*.txt'):
    hit |= set(open(f).read().split())
print('%d of %d statements reached' % (len(hit & every), len(every)))
by = {}
for x in sorted(every - hit, key=lambda x: (x.split(':')[0], int(x.split(':')[1]))):
    by.setdefault(x.split(':')[0], []).append(int(x.split(':')[1]))
for m in by:
    p = '/repo/' + m.replace('.', '/')
    p = p + '.py' if os.path.exists(p + '.py') else p + '/__init__.py'
    src = open(p).read().splitlines()
    print('== ' + m)
    for n in by[m]:
        print('%5d %s' % (n, src[n - 1]))
E
rm -rf "$d"
