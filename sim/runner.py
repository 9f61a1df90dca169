# -*- coding: utf-8 -*-
"""Runs many simulated runs of one property in forked children; shrinks and reports failures."""
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time

from . import core, harness, kload, seams, stubs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD_TIMEOUT = 90.0
now = seams._real['perf_counter']


def prop_module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


# ---------------------------------------------------------------- one child
def run_forked(prop, plan, root, kajiki, timeout=CHILD_TIMEOUT, verbose=False):
    harness.clean_dir(root)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            seams._real['os_close'](r)
            null = seams._real['os_open'](os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            if not verbose:
                os.dup2(null, 1)
                os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            res = harness.execute(prop, plan, root, kajiki)
            data = json.dumps(res).encode('utf-8')
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        except BaseException:
            import traceback
            try:
                os.write(w, json.dumps({'end': 'error', 'violations': [], 'notes': {
                    'errors': [traceback.format_exc()]}}).encode('utf-8'))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = now() + timeout
    hung = False
    while True:
        left = deadline - now()
        if left <= 0:
            hung = True
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            hung = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        return {'end': 'hang', 'violations': [], 'notes': {}, 'plan': plan, 'digest': 'hang'}
    try:
        return json.loads(b''.join(chunks).decode('utf-8'))
    except ValueError:
        return {'end': 'error', 'violations': [], 'plan': plan, 'digest': 'error',
                'notes': {'errors': ['child ended with status %r and %d bytes' % (status, sum(map(len, chunks)))]}}


def run_checked(prop, plan, root, kajiki):
    """Like run_forked, with a hang turned into a violation once confirmed."""
    res = run_forked(prop, plan, root, kajiki)
    if res['end'] == 'hang':
        res = run_forked(prop, plan, root, kajiki, timeout=300.0)
        if res['end'] == 'hang':
            res['violations'] = [{'class': 'no-progress', 'data': {},
                                  'detail': 'the run did not end within 300 s'}]
    return res


# ---------------------------------------------------------------- process set-up
def scratch_base():
    for d in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='kjsim-', dir=d)
        except OSError:
            continue
    raise SystemExit(2)


def prepare(pid):
    """Imports and warms up everything; returns (property module, untouched kajiki)."""
    import codecs, encodings.utf_8, encodings.latin_1, encodings.utf_16, encodings.ascii  # noqa
    import linecache, shlex, traceback, xml.sax.expatreader, xml.dom.minidom  # noqa
    import pkg_resources  # noqa
    seams.install()
    stubs.install()
    kload.install()
    prop = prop_module(pid)
    return prop


def warm(prop, kajiki, root, seconds=1.5):
    """Exercises a throw-away copy of kajiki (imports, JIT) inside this process."""
    from . import gen, source
    t0 = now()
    i = 0
    while now() - t0 < seconds or i < 6:
        rng = core.Random(i)
        ts = gen.gen_set(rng, 'xml' if i % 3 else 'text', {}, size=8, compose=False)
        src = gen.sources(ts)[ts['main']][0]
        mk = kajiki.XMLTemplate if i % 3 else kajiki.TextTemplate
        S = source.Source(None, kajiki, 'w', i)
        sim = core.Sim({'scn': {}, 'policy': {'seed': i}, 'trace': {'frac': 1000, 'salt': 'w'}},
                       os.path.join(kload.REPO, 'kajiki') + os.sep)

        def body(t):
            try:
                mk(src)(S.context()).render()
            except Exception:
                pass
        sim.add(body)
        sim.run()
        i += 1
    seams.S.sim = None


# ---------------------------------------------------------------- batches
def make_plan(prop, seed, i, tier):
    rng = core.Random(core.derive(seed, prop.ID, i))
    plan = prop.generate(rng, i, tier)
    plan.setdefault('prop', prop.ID)
    plan['index'] = i
    return plan


def worker(prop, kajiki, seed, tier, wid, nw, total, root, out, deadline, known):
    """Runs indices wid, wid+nw, ...; writes one JSON line per run."""
    for i in range(wid, total, nw):
        if now() > deadline:
            break
        plan = make_plan(prop, seed, i, tier)
        t0 = now()
        res = run_checked(prop, plan, root, kajiki)
        res['i'] = i
        res['wall'] = now() - t0
        bad = res['violations'] or res['end'] in ('error', 'hang')
        if not bad and i >= 3:
            res.pop('plan', None)
        data = (json.dumps(res) + '\n').encode('utf-8')
        off = 0
        while off < len(data):
            off += os.write(out, data[off:off + 65536])
        if res['end'] == 'error':
            break
        if any(known_match(known, v) is None for v in res['violations']):
            break
    os._exit(0)


def known_match(known, v):
    for k in known:
        if k['class'] == v['class'] and k.get('contains', '') in v['detail']:
            return k
    return None


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return [x for x in json.load(f)['findings'] if x['property'] == pid]
    except (IOError, OSError):
        return []


class Batch(object):
    def __init__(self, pid, seed, tier, total, jobs, cap):
        self.pid, self.seed, self.tier, self.total = pid, seed, tier, total
        self.jobs = jobs
        self.cap = cap
        self.prop = prepare(pid)
        self.base = scratch_base()
        self.known = load_known(pid)
        self.results = []

    def setup(self, warm_s=.2):
        if hasattr(self.prop, 'prepare'):
            self.prop.prepare()
        kajiki = kload.fresh()
        if warm_s:
            warm(self.prop, kajiki, self.base, warm_s)
        self.kajiki = kload.fresh()

    def root(self, w):
        d = os.path.join(self.base, 'w%d' % w, 'r')
        if not os.path.isdir(d):
            os.makedirs(d)
        return d

    def run(self, on_result):
        deadline = now() + self.cap
        pipes = {}
        pids = {}
        sys.stdout.flush()
        for w in range(self.jobs):
            r, wr = os.pipe()
            root = self.root(w)
            pid = os.fork()
            if pid == 0:
                try:
                    for rr in pipes:
                        os.close(rr)
                    os.close(r)
                    worker(self.prop, self.kajiki, self.seed, self.tier, w, self.jobs, self.total,
                           root, wr, deadline, self.known)
                finally:
                    os._exit(3)
            os.close(wr)
            pipes[r] = [w, b'']
            pids[w] = pid
        worst = None       # lowest index with an unknown violation or an error
        upto = {}
        while pipes:
            rr, _, _ = select.select(list(pipes), [], [], 1.0)
            for r in rr:
                b = os.read(r, 1 << 20)
                if not b:
                    w = pipes.pop(r)[0]
                    os.close(r)
                    os.waitpid(pids.pop(w), 0)
                    continue
                pipes[r][1] += b
                *lines, rest = pipes[r][1].split(b'\n')
                pipes[r][1] = rest
                for line in lines:
                    res = json.loads(line.decode('utf-8'))
                    upto[pipes[r][0]] = res['i']
                    on_result(res)
                    if res['end'] in ('error',) or any(
                            known_match(self.known, v) is None for v in res['violations']):
                        if worst is None or res['i'] < worst:
                            worst = res['i']
            if worst is not None:
                for r in list(pipes):
                    w = pipes[r][0]
                    if upto.get(w, -1) + self.jobs > worst:
                        os.kill(pids[w], signal.SIGKILL)
                        os.waitpid(pids.pop(w), 0)
                        os.close(r)
                        del pipes[r]

    def cleanup(self):
        shutil.rmtree(self.base, ignore_errors=True)


# ---------------------------------------------------------------- shrinking
def classes(res, known):
    return set(v['class'] for v in res['violations'] if known_match(known, v) is None)


def reductions(plan, prop):
    """Smaller plans, most drastic first."""
    scn = plan['scn']

    def variant(**kw):
        p = dict(plan)
        p.update(kw)
        return p

    # decisions
    for key in ('preempt', 'faults'):
        seq = plan[key]
        n = len(seq)
        if n:
            yield variant(**{key: []})
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    yield variant(**{key: seq[:a] + seq[a + size:]})
                size //= 2
    # whole threads' operations, then single operations
    th = scn.get('threads')
    if th:
        for i in range(len(th)):
            if th[i]:
                yield variant(scn=dict(scn, threads=th[:i] + [[]] + th[i + 1:]))
        for i in range(len(th)):
            n = len(th[i])
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    new = th[i][:a] + th[i][a + size:]
                    if new or n == 1:
                        yield variant(scn=dict(scn, threads=th[:i] + [new] + th[i + 1:]))
                size //= 2
    # tracing granularity
    tr = plan.get('trace') or {}
    if tr.get('ops'):
        yield variant(trace=dict(tr, ops=0))
    for key in ('rbias', 'read_chunk'):
        if plan.get(key):
            yield variant(**{key: 0})
    # template trees
    for si, ts in enumerate(scn.get('sets') or []):
        for ts2 in tree_reductions(ts):
            sets = list(scn['sets'])
            sets[si] = ts2
            yield variant(scn=dict(scn, sets=sets))


def tree_reductions(ts):
    """Template sets with one list of children made shorter."""
    def walk(x):
        if isinstance(x, dict):
            for key in list(x):
                v = x[key]
                if key in ('ch', 'else', 'cases') and isinstance(v, list):
                    for i in range(len(v)):
                        if len(v) > 1:
                            yield dict(x, **{key: v[:i] + v[i + 1:]})
                        # replace a node by its body
                        if key != 'cases' and isinstance(v[i], dict) and v[i].get('ch') \
                                and v[i]['t'] in ('el', 'if') and not v[i].get('var'):
                            yield dict(x, **{key: v[:i] + v[i]['ch'] + v[i + 1:]})
                    if key == 'else':
                        y = dict(x)
                        del y['else']
                        yield y
                elif key == 'attrs' and v:
                    for name in list(v):
                        y = dict(v)
                        del y[name]
                        yield dict(x, attrs=y)
                if isinstance(v, (dict, list)):
                    for v2 in walk(v):
                        yield dict(x, **{key: v2})
        elif isinstance(x, list):
            for i in range(len(x)):
                for y in walk(x[i]):
                    yield x[:i] + [y] + x[i + 1:]
    for files in walk(ts['files']):
        yield dict(ts, files=files)


def shrink(batch, res, budget_s=60, max_runs=600):
    known = batch.known
    want = classes(res, known)
    plan = res['plan']
    root = batch.root(99)
    t0 = now()
    n = 0

    def fails(p):
        r = run_forked(batch.prop, p, root, batch.kajiki)
        if r['end'] == 'hang':
            return r if 'no-progress' in want and res['end'] == 'hang' else None
        return r if classes(r, known) & want else None

    best = fails(plan)
    if best is None:
        return None, 1
    size0 = len(json.dumps(plan))
    progress = True
    while progress and now() - t0 < budget_s and n < max_runs:
        progress = False
        for cand in reductions(plan, batch.prop):
            if now() - t0 > budget_s or n >= max_runs:
                break
            n += 1
            try:
                r = fails(cand)
            except Exception:
                r = None
            if r is not None:
                plan, best, progress = cand, r, True
                break
    return (plan, best), n
