# -*- coding: utf-8 -*-
"""C06: a loaded template stays cached: one class while its file is unchanged."""
import gc

from .. import common, loading
from . import c05

ID = 'C06'
RUNS = {'quick': 3200, 'thorough': 40000}
RULE = ('a case is one simulated run: threads importing 1-3 names through one loader while files change rarely '
        '(reload on) or are replaced, corrupted, deleted and made unreadable (reload off); non-trivial when at least '
        'two imports of one name fell into one interval without change')
ASSUMPTIONS = ['imports that overlap a change of their file are not compared']


def generate(rng, i, tier):
    kind = rng.choice(('file', 'file', 'package', 'pyramid'))
    reload = rng.random() < .6
    nf = rng.choice((1, 1, 2, 3))
    many = rng.random()
    many = rng.choice((70, 135, 270)) if many < .006 else rng.choice((20, 36)) if many < .02 else 0
    files = loading.gen_files(rng, nf, kind, hook=.8, inc=.2)
    if many:
        kind = rng.choice(('file', 'package'))
        files = loading.gen_files(rng, many, kind, hook=.5, bigpad=0)
        nf = many
    ver = [0]
    initial = []
    for f in range(nf):
        ver[0] += 1
        initial.append({'f': f, 'v': ver[0], 'move': ('=', loading.BASE)})
    threads = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {'op': 'import', 'f': rng.randrange(nf)}
            if rng.random() < .2:
                op['kw'] = {'is_fragment': True}
            ops.append(op)
        threads.append(ops)
    if many:
        threads = [[{'op': 'import', 'f': f} for f in range(nf)], [{'op': 'import', 'f': rng.randrange(nf)} for _ in range(9)]]
    weak = rng.random() < .25
    if weak:
        for th in threads:
            th.insert(rng.randint(0, len(th)), {'op': 'gc'})
    faults = None
    if reload:
        if rng.random() < .6:
            threads.append(c05.edits(rng, nf, rng.randint(1, 2), ver, ('atomic',)))
    else:
        threads.append(c05.edits(rng, nf, rng.randint(1, 4), ver, ('atomic', 'delete', 'delete', 'inplace',
                                                                  'bad:unclosed', 'bad:badbytes')))
        if rng.random() < .5:
            faults = {'open_err': [2, .1], 'stat_err': [2, .1], 'list_err': [2, .1], 'read_err': [1, .1]}
            for th in threads:
                for op in th:
                    if op['op'] == 'import':
                        op['faults'] = ['open_err', 'stat_err', 'list_err', 'read_err']
    scn = {'site': {'kind': kind, 'front': loading.front(rng, kind), 'reload': reload}, 'files': files, 'initial': initial,
           'threads': common.number(threads), 'weak': weak}
    if rng.random() < .2:
        scn['decoys'] = True
    if not many and rng.random() < .1:
        scn['links'] = 'target'
    plan = {'scn': scn}
    plan.update(common.policy(rng, faults=faults, light=True))
    if many > 50:
        plan['trace']['frac'] = 0
        return plan
    if rng.random() < .5:
        plan['trace']['only'] = ['loader.py', 'pyramid.py']
        plan['trace']['frac'] = 1000
        plan['policy']['p_io'] = rng.choice((.1, .3, .6))
        if rng.random() < .5:
            plan['trace']['ops'] = 1000
    return plan


def execute(run):
    w = loading.World(run)
    w.version_of = lambda rec: (None, None)
    w.spawn()
    run.go()
    if run.sim.end == 'done':
        for _ in range(2):
            if run.scn.get('weak'):
                gc.collect()
            for fi in range(len(w.files)):
                w.import_(loading.EndThread, {'f': fi, 'id': -1})
    reload = run.scn['site']['reload']
    run.nontrivial = False
    for fi, f in enumerate(w.files):
        recs = [r for r in w.records if r['f'] == fi]
        if reload:
            times = [t for t, _ in w.site.timeline(f['name'])] or [0]
            for k, t0 in enumerate(times):
                t1 = times[k + 1] if k + 1 < len(times) else 1 << 60
                inside = [r for r in recs if r['a'] >= t0 and r['b'] < t1]
                run.nontrivial |= len(inside) > 1
                for r in inside:
                    if 'exc' in r:
                        run.viol('spurious-failure', 'import of %s (operation %d) raised %s' % (
                            f['name'], r['op']['id'], common.exc_text(r['exc'])))
                one_class(run, f, [r for r in inside if 'cls' in r])
                hits = [h for h in w.hits if h[1] == fi and h[3] is not None and h[3]['a'] >= t0 and h[0] < t1]
                if len(hits) > 1:
                    run.viol('compiled-twice', 'module-level code of %s ran %d times while the file did not change '
                             '(times %s)' % (f['name'], len(hits), [h[0] for h in hits]))
        else:
            good = [r for r in recs if 'cls' in r]
            run.nontrivial |= len(good) > 1
            one_class(run, f, good)
            if good:
                first = min(r['b'] for r in good)
                for r in recs:
                    if r['a'] > first and 'exc' in r:
                        run.viol('spurious-failure', 'reload is off, %s was loaded at %d, operation %d at %d raised %s'
                                 % (f['name'], first, r['op']['id'], r['a'], common.exc_text(r['exc'])))
            hits = [h for h in w.hits if h[1] == fi]
            if len(hits) > 1:
                run.viol('compiled-twice', 'reload is off and module-level code of %s ran %d times' % (
                    f['name'], len(hits)))


def one_class(run, f, recs):
    ids = []
    for r in recs:
        if not any(r['cls'] == c for c in ids):
            ids.append(r['cls'])
    if len(ids) > 1:
        run.viol('several-classes', '%d different classes for %s, imported by operations %s, while its file did not '
                 'change' % (len(ids), f['name'], [r['op']['id'] for r in recs]))
