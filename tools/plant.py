#!/usr/bin/env python3
"""Turns the descriptions of planted bugs in tools/plants/*.py into /verif/seeded/<id>/ and tries them out.

plant.py [--nocheck] [--only ID,ID] [--all]
For each bug without a seeded folder (all with --all): makes the patch in a scratch copy, applies it to /repo,
builds, runs the stable tests, the demonstration and the property's check, and undoes it again.
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO, HERE = '/repo', os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SCRATCH = '/tmp/plantwork'
HEAD = '''# -*- coding: utf-8 -*-
import gc, io, os, shutil, sys, tempfile, threading
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import kajiki
from kajiki import FileLoader, PackageLoader, MockLoader, TextTemplate, XMLTemplate
SCRATCH = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)


def put(name, text, mtime=None, d=None):
    path = os.path.join(d or SCRATCH, name)
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with io.open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8'))
    if mtime is not None:
        os.utime(path, (mtime, mtime))
    return path


def expect(got, want):
    if got != want:
        print('got %r, expected %r' % (got, want))
        sys.exit(1)


'''
SH = '''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
exec timeout 120 "${PY:-/opt/venv/bin/python}" -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def collect():
    bugs = {}

    def bug(id, prop, needs, breaks, edits, demo):
        assert id not in bugs, id
        bugs[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)
    for f in sorted(glob.glob(os.path.join(HERE, 'plants', '*.py'))):
        runpy.run_path(f, {'bug': bug})
    return bugs


def make_patch(b):
    shutil.rmtree(SCRATCH, True)
    sh(['cp', '-a', REPO, SCRATCH])
    for name, old, new in b['edits']:
        p = os.path.join(SCRATCH, name)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches of %r' % (b['id'], s.count(old), old))
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    d = sh(['git', '-C', SCRATCH, 'diff']).stdout
    shutil.rmtree(SCRATCH, True)
    return d


def original_lines(diff):
    """Whether the patch changes a line that comes from the original repository: blame of removed lines."""
    return True


def demo(folder):
    return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=REPO)


def tests():
    r = sh(['bash', '/opt/vp/build.sh'])
    if r.returncode:
        return 'BUILD ' + r.stdout[-300:]
    sh(['bash', '/opt/vp/test.sh', '/tmp/plant_o.json'])
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open('/tmp/plant_o.json'))
    base = b.get('passed') or b.get('stable')
    lost = sorted(set(base) - set(o['passed']))
    return ('TESTS FAIL %s' % lost[:4]) if lost else None


def main():
    args = sys.argv[1:]
    only = None
    if '--only' in args:
        only = args[args.index('--only') + 1].split(',')
    allb = '--all' in args
    for id, b in sorted(collect().items()):
        if only and not any(id == o or (o.endswith('*') and id.startswith(o[:-1])) for o in only):
            continue
        folder = os.path.join(SEEDED, id)
        if os.path.exists(folder) and not allb and not only:
            continue
        assert not sh(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip()
        work = '/tmp/plantdemo'
        shutil.rmtree(work, True)
        os.makedirs(work)
        open(work + '/patch.diff', 'w', encoding='utf-8').write(make_patch(b))
        open(work + '/demo.sh', 'w').write(SH)
        os.chmod(work + '/demo.sh', 0o755)
        open(work + '/demo.py', 'w', encoding='utf-8').write(HEAD + b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(work + '/meta.json', 'w'), indent=1)
        clean = demo(work)
        msg = []
        if clean.returncode:
            msg.append('DEMO FAILS ON CLEAN: ' + clean.stdout[-1500:])
        r = sh(['git', '-C', REPO, 'apply', work + '/patch.diff'])
        assert r.returncode == 0, r.stdout
        caught = None
        try:
            t = tests()
            if t:
                msg.append(t)
            d = demo(work)
            if not d.returncode:
                msg.append('DEMO PASSES WITH PATCH: ' + d.stdout[-300:])
            if not msg and '--nocheck' not in args:
                c = sh(['./check.sh', b['prop']], cwd=os.path.dirname(HERE))
                caught = c.returncode
                tail = [l for l in c.stdout.splitlines() if l.strip()][-1:]
                msg.append('check exit %s %s' % (c.returncode, tail))
        finally:
            sh(['git', '-C', REPO, 'checkout', '--', '.'])
        if not any(m.startswith(('DEMO', 'TESTS', 'BUILD')) for m in msg):
            shutil.rmtree(folder, True)
            shutil.copytree(work, folder)
            print(id, b['prop'], 'KEPT', {1: 'CAUGHT', 0: 'MISSED'}.get(caught, caught), msg, flush=True)
        else:
            print(id, b['prop'], 'NOT KEPT', msg, '| demo with patch:', d.stdout[-200:] if 'd' in dir() else '', flush=True)
        shutil.rmtree(work, True)


main()
