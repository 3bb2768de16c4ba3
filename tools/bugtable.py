#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/bugs/caught.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + '/tools/bugs/caught.txt'):
    a = l.split()
    if a:
        caught[a[0]] = a[1]
rows = ['| bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (n, m['needs'], caught.get(n, 'not caught')))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'@@BUGS@@|\| bug \| needs.*?\n(?=\n)', lambda _: '\n'.join(rows) + '\n', s, count=1, flags=re.S)
open(p, 'w').write(s)
