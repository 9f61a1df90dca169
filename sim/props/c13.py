# -*- coding: utf-8 -*-
"""C13: a failure inside a template is reported with its template file and line."""
import copy

from .. import common, core, gen, source
from ..core import quietly

ID = 'C13'
RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('a case is one simulated run: generated templates (XML and text, with gaps of up to thousands of lines, '
        'multi-line doctypes and expressions, functions, blocks, py:call bodies, extended, included and imported files) '
        'compiled and rendered by several threads, some replaced on disk by versions with other line numbers; an '
        'evaluation chosen by the scheduler raises, and the traceback must hold a frame of the file and line of that '
        'expression; non-trivial when an evaluation raised')
ASSUMPTIONS = ['an expression that spans several lines may be reported at any of its lines',
               'a failure of str(value) outside the template code is not covered']


def stretch(rng, ts):
    """A version of the set with other line numbers."""
    ts = copy.deepcopy(ts)
    for f in ts['files'].values():
        gap = rng.choice((0, 1, 3, 40, 127, 128, 129, 255, 256, 300, 1000))
        lists = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('t') != 'switch':
                    for key in ('ch', 'else'):
                        if isinstance(x.get(key), list) and x[key] and x.get('tag') not in ('script', 'style'):
                            lists.append(x[key])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f['defs'])
        for n in f['ch']:
            walk(n)
        if not f.get('extends'):
            lists.append(f['ch'])
            lists.append(f['ch'])
        for _ in range(rng.choice((1, 1, 2, 4))):
            if lists:
                ch = rng.choice(lists)
                t = 'comment' if f['kind'] == 'xml' and rng.random() < .4 else 'text'
                ch.insert(rng.randint(0, len(ch)), {'t': t, 's': 'a' + '\n' * gap + 'gap'})
    return ts


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'text', 'text'))
        ts = gen.gen_set(rng, kind, {'gettext': rng.random() < .2, 'markup': 2 * (rng.random() < .4), 'doctype': .4,
                                      'long': rng.choice((0, .05, .3)), 'wide': rng.choice((0, 0, .1, .4)),
                                      'many': .15},
                         size=rng.choice((6, 10, 16)), spread=rng.choice((10, 40, 70)))
        sets.append([stretch(rng, ts) if rng.random() < .6 else ts] +
                    [stretch(rng, ts) for _ in range(rng.choice((0, 0, 1, 2)))])
    if nsets > 1 and rng.random() < .4:
        # the same templates once more, in another directory
        sets[1] = copy.deepcopy(sets[0])
    dense = rng.random() < .5           # many renders, switches at calls only
    threads = []
    for t in range(rng.choice((1, 2, 3))):
        ops = []
        for _ in range(rng.randint(5, 12) if dense else rng.randint(1, 4)):
            si = rng.randrange(nsets)
            if len(sets[si]) > 1 and rng.random() < .3:
                ops.append({'op': 'edit', 'set': si, 'v': rng.randrange(len(sets[si]))})
            ops.append({'op': 'render', 'set': si, 'seed': rng.getrandbits(30), 'faults': ['user_exc'],
                        'fresh': rng.random() < .3})
        threads.append(ops)
    opts = [{'strip_text': True} if v[0]['files'][v[0]['main']]['kind'] == 'xml' and rng.random() < .25 else {}
            for v in sets]
    plan = {'scn': {'versions': sets, 'opts': opts, 'threads': common.number(threads)}}
    plan.update(common.policy(rng, faults={'user_exc': [30 if dense else rng.choice((2, 4, 8)), rng.choice((.03, .1, .3))]},
                              lines=not dense))
    return plan


def execute(run):
    scn = run.scn
    loaders = []
    disk = []               # per set: [(time, version)]
    clock = [0]
    mt = [1400000000 * 10**9]
    spans = []              # per set and version: k -> (file name, first line, last line)

    def tick():
        clock[0] += 1
        return clock[0]

    def put(si, v):
        mt[0] += 10**9
        src = common.place(run, scn['versions'][si][v], 's%d' % si, mt[0])
        disk[si].append((tick(), v))
        return src
    for si, versions in enumerate(scn['versions']):
        disk.append([])
        sp = []
        for ts in versions:
            d = {}
            for name, (_, lines) in gen.sources(ts).items():
                for k, (lo, hi) in lines.items():
                    d[k] = (name, lo, hi)
            sp.append(d)
        spans.append(sp)
        put(si, 0)
        loaders.append(run.kajiki.FileLoader(run.path('s%d' % si), reload=True, **scn['opts'][si]))
    seen = [0]

    def frames(e):
        out = []
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(run.root):
                out.append((fn[len(run.root):], tb.tb_lineno))
            tb = tb.tb_next
        return out

    def handler(t, op):
        si = op['set']
        if op['op'] == 'edit':
            with quietly(run.sim):
                put(si, op['v'])
            return
        a = tick()
        src = source.Source(run.sim, run.kajiki, 'r%d' % op['id'], op['seed'], opts={'raising_str': False})
        ld = loaders[si]
        if op['fresh']:
            ld = run.kajiki.FileLoader(run.path('s%d' % si), **scn['opts'][si])
        try:
            ld.load(scn['versions'][si][0]['main'])(src.context()).render()
            return
        except BaseException as e:
            err = e
        with quietly(run.sim):
            b = tick()
            what = 'render %d of set %d' % (op['id'], si)
            if src.raised is None:
                run.viol('render-failed', '%s: %s' % (what, common.exc_text(err)))
                return
            if err is not src.raised and not (isinstance(src.raised, StopIteration) and
                                              isinstance(err, RuntimeError) and err.__cause__ is src.raised):
                return          # C04's matter
            seen[0] += 1
            got = frames(err)
            if err.__cause__ is not None:
                got += frames(err.__cause__)
            on = [None] + [v for x, v in disk[si] if a < x <= b]
            on[0] = [v for x, v in disk[si] if x <= a][-1]
            want = []
            for v in on:
                name, lo, hi = spans[si][v][src.raised_k]
                want.append(('s%d/%s' % (si, name), lo, hi))
            run.sim.record('failure', tag='%s %s' % (src.raised_k, got))
            if not any(f == w and lo <= line <= hi for f, line in got for w, lo, hi in want):
                run.viol('wrong-line', '%s: place %d of %s raised; template frames of the traceback: %s' % (
                    what, src.raised_k, want, got))
            err.__traceback__ = None
        t.faults_allowed = ()
        run.sim.rearm()

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    run.nontrivial = seen[0] > 0
