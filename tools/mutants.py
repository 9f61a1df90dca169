#!/usr/bin/env python3
"""Mutation trial: small changes of kajiki that keep its tests passing; which checks notice them?

mutants.py gen FILE...       prints the number of mutants per operator
mutants.py run LOG [-w W] [-f FRAC] [--only REGEX] FILE...
Each mutant is tried in a scratch copy: tests first (a mutant that fails them is dropped), then every check with FRAC
of its quick runs, until one reports a violation.  LOG gets one JSON line per mutant that survived the tests.
"""
import ast
import concurrent.futures
import copy
import difflib
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SWAP = False            # (mostly gives equivalent programs)
PY = '/opt/venv/bin/python'
FIRST = {'loader.py': 'C07 C05 C06 C08 C10 C11 C09', 'xml_template.py': 'C14 C02 C15 C16 C13 C09', 'text.py': 'C14 C02 C16 C13 C09',
         'template.py': 'C14 C03 C04 C01 C12 C15 C13 C11', 'ir.py': 'C14 C15 C13 C12 C02', 'util.py': 'C02 C14 C04',
         'lnotab.py': 'C13', 'i18n.py': 'C12', 'pyramid.py': 'C07 C05 C06 C08 C11 C09', 'turbogears1.py': 'C08'}
ALL = ['C%02d' % i for i in range(1, 19)]


def blocks(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def infunc(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for m in ast.walk(n):
                if m is not n:
                    s.add(id(m))
    return s


def mutate(tree):
    """Yields (operator, line) after changing *tree* in place; undoes the change when resumed."""
    inside = infunc(tree)
    for owner, f, b in list(blocks(tree)):
        if isinstance(owner, (ast.Module, ast.ClassDef)):
            continue
        for i in range(len(b)):
            s = b[i]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if not isinstance(s, (ast.Pass, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Return, ast.Raise, ast.Global)):
                b[i] = ast.copy_location(ast.Pass(), s)
                yield 'delete', s.lineno
                b[i] = s
            if SWAP and i + 1 < len(b) and not isinstance(b[i + 1], (ast.Return, ast.Raise)) \
                    and not isinstance(s, (ast.Import, ast.ImportFrom)):
                b[i], b[i + 1] = b[i + 1], b[i]
                yield 'swap', s.lineno
                b[i], b[i + 1] = b[i + 1], b[i]
            if isinstance(s, ast.If):
                for v in (True, False):
                    t, s.test = s.test, ast.Constant(v)
                    yield 'if-%s' % v, s.lineno
                    s.test = t
            if isinstance(s, ast.Try) and s.finalbody:
                b[i:i + 1] = (s.body if not s.handlers else [ast.Try(s.body, s.handlers, s.orelse, [])]) + s.finalbody
                yield 'unfinally', s.lineno
                n = len(s.body if not s.handlers else [1]) + len(s.finalbody)
                b[i:i + n] = [s]
            if isinstance(s, ast.With):
                b[i:i + 1] = s.body
                yield 'unwith', s.lineno
                b[i:i + len(s.body)] = [s]
    for n in list(ast.walk(tree)):
        if id(n) not in inside:
            continue
        if isinstance(n, ast.ExceptHandler):
            t = n.type
            for v in ('Exception', 'BaseException', 'ZeroDivisionError'):
                if t is None or ast.unparse(t) != v:
                    n.type = ast.Name(v, ast.Load())
                    yield 'except-' + v, n.lineno
            n.type = t
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            alt = {ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq, ast.Gt, ast.Lt], ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt],
                   ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is, ast.NotEq],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(o), [])
            for a in alt:
                n.ops[0] = a()
                yield 'cmp-' + a.__name__, n.lineno
            n.ops[0] = o
        if isinstance(n, ast.BoolOp):
            vs = n.values
            for k in range(len(vs)):
                n.values = vs[:k] + vs[k + 1:] + ([ast.Constant(isinstance(n.op, ast.And))] if len(vs) == 2 else [])
                yield 'drop-cond', n.lineno
            n.values = vs
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            v = n.value
            for d in (1, -1):
                n.value = v + d
                yield 'const', n.lineno
            n.value = v
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            n.value = not n.value
            yield 'bool', n.lineno
            n.value = not n.value
    # calls removed: f(x) -> x, x.copy() -> x; and attributes that become shared by all instances
    class R(ast.NodeTransformer):
        def __init__(self, k):
            self.k, self.n, self.at = k, -1, None

        def visit_Call(self, n):
            self.generic_visit(n)
            alt = None
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                alt = n.func.value
            elif len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                alt = n.args[0]
            if alt is not None and id(n) in inside:
                self.n += 1
                if self.n == self.k:
                    self.at = n.lineno
                    return alt
            return n
    base = copy.deepcopy(tree.body)
    k = 0
    while True:
        tree.body = copy.deepcopy(base)
        inside = infunc(tree)
        r = R(k)
        r.visit(tree)
        if r.at is None:
            break
        yield 'uncall', r.at
        k += 1
    tree.body = copy.deepcopy(base)
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                for i, s in enumerate(list(m.body)):
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and (
                            isinstance(s.value, (ast.Dict, ast.List, ast.Set)) or isinstance(s.value, ast.Call)
                            and not s.value.args):
                        m.body[i] = ast.Pass()
                        c.body.insert(0, ast.Assign([ast.Name(s.targets[0].attr, ast.Store())], s.value, lineno=s.lineno))
                        yield 'class-attr', s.lineno
                        c.body.pop(0)
                        m.body[i] = s


def gen(path):
    src = open(path).read()
    tree = ast.parse(src)
    plain = ast.unparse(tree)
    seen = {plain}
    for op, line in mutate(tree):
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(text)
        except Exception:
            continue
        if text in seen:
            continue
        seen.add(text)
        yield op, line, text, plain


def one(job):
    path, op, line, text, plain = job
    rel = os.path.relpath(path, REPO)
    d = tempfile.mkdtemp(prefix='mut.', dir='/dev/shm')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(repo, rel), 'w') as f:
            f.write('# -*- coding: utf-8 -*-\n' + text + '\n')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=20', 'kajiki/tests'],
                               cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode:
            return None
        diff = '\n'.join(x for x in difflib.unified_diff(plain.split('\n'), text.split('\n'), lineterm='', n=2)
                         if not x.startswith(('---', '+++')))
        order = FIRST.get(os.path.basename(path), '').split()
        order = order or ALL
        v = os.path.join(d, 'verif')
        os.mkdir(v)
        for n in ('sim', 'check.sh', 'known_findings.json', 'properties.jsonl', 'MANIFEST.json'):
            subprocess.run(['cp', '-a', os.path.join(V, n), v])
        got = []
        for prop in order:
            runs = max(30, int(RUNS[prop] * FRAC))
            p = subprocess.run(['./check.sh', prop, '--jobs', '1', '--runs', str(runs), '--noshrink'], cwd=v,
                               env=dict(env, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True)
            if p.returncode:
                got = [prop, p.returncode, p.stdout[-700:]]
                break
        return {'file': rel, 'op': op, 'line': line, 'diff': diff, 'caught': got}
    finally:
        shutil.rmtree(d, True)


def main():
    global FRAC, RUNS
    args = sys.argv[2:]
    w, FRAC, only = 8, .15, ''
    log = args.pop(0) if sys.argv[1] == 'run' else None
    files = []
    while args:
        a = args.pop(0)
        if a == '-w':
            w = int(args.pop(0))
        elif a == '-f':
            FRAC = float(args.pop(0))
        elif a == '--only':
            only = args.pop(0)
        else:
            files.append(a)
    RUNS = {}
    for p in ALL:
        m = re.search(r"RUNS = \{'quick': (\d+)", open(os.path.join(V, 'sim/props/%s.py' % p.lower())).read())
        RUNS[p] = int(m.group(1))
    done = set()
    if log and os.path.exists(log):
        for l in open(log):
            done.add(json.loads(l)['key'])
    jobs = []
    for f in files:
        for op, line, text, plain in gen(f):
            if re.match(only, op):
                key = hashlib.sha1((f + text).encode()).hexdigest()
                if key not in done:
                    jobs.append((key, (f, op, line, text, plain)))
    if sys.argv[1] == 'gen':
        import collections
        print(collections.Counter((os.path.basename(j[1][0]), j[1][1]) for j in jobs), len(jobs))
        return
    random.Random(5).shuffle(jobs)
    with concurrent.futures.ThreadPoolExecutor(w) as ex, open(log, 'a') as out:
        futs = {ex.submit(one, j): k for k, j in jobs}
        for fu in concurrent.futures.as_completed(futs):
            try:
                r = fu.result()
            except Exception as e:
                r = {'error': repr(e)}
            r = r or {'dropped': True}
            r['key'] = futs[fu]
            out.write(json.dumps(r) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
