#!/usr/bin/env python3
"""Runs the check of its property on each planted bug, in scratch copies of /repo; tryall.py [ids...] prints a table."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def one(id):
    prop = json.load(open(os.path.join(S, id, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='try.')
    repo = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo])
    out = ''
    try:
        p = subprocess.run(['git', '-C', repo, 'apply', os.path.join(S, id, 'patch.diff')])
        if p.returncode:
            return id, prop, 'NOAPPLY', ''
        v = os.path.join(d, 'verif')
        os.mkdir(v)
        for n in ('sim', 'check.sh', 'known_findings.json', 'properties.jsonl', 'MANIFEST.json'):
            subprocess.run(['cp', '-a', os.path.join(V, n), v])
        p = subprocess.run(['./check.sh', prop, '--jobs', JOBS], cwd=v, env=dict(os.environ, VERIF_REPO=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        out = p.stdout
        return id, prop, {0: 'MISSED', 1: 'caught'}.get(p.returncode, p.returncode), \
            ' '.join(out.split('\n')[-3:])[-260:]
    finally:
        shutil.rmtree(d, True)


W = int(os.environ.get('W', '3'))
JOBS = os.environ.get('J', '2')
ids = []
for a in sys.argv[1:] or ['']:
    ids += [i for i in sorted(os.listdir(S)) if i.startswith(a) and i not in ids]
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    n = {}
    for r in ex.map(one, ids):
        n[r[2]] = n.get(r[2], 0) + 1
        print('%-24s %s %-7s %s' % r, flush=True)
    print(n)
