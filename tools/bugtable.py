#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from a log of tools/tryall.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for path in sys.argv[1:]:
    for line in open(path):
        p = line.split()
        if len(p) > 2 and re.match(r'c\d\d-', p[0]):
            m = re.search(r'quick: (\d+) of', line)
            res[p[0]] = (p[1], p[2], m and m.group(1))
rows = ['| bug | what it breaks | needs | quick check |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
    r = res.get(b)
    rows.append('| %s | %s | %s | %s |' % (
        b, meta['what_it_breaks'].replace('|', '/'), meta['needs'].replace('|', '/'),
        'not run' if not r else '%s %s%s' % (r[0], r[1], ' (%s runs)' % r[2] if r[1] == 'caught' and r[2] else '')))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->')
open(p, 'w').write(s[:a] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + s[b:])
