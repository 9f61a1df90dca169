# -*- coding: utf-8 -*-
"""C10: the search path is honoured on every import while files come and go."""
from .. import common, loading
from . import c05

ID = 'C10'
RUNS = {'quick': 3200, 'thorough': 40000}
RULE = ('a case is one simulated run: 2-4 directories (or the four extensions of a package loader), files appearing '
        'in, disappearing from and being replaced in each of them with equal, older and newer modification times, '
        'while threads import; non-trivial when a name was in two places at some time, or in none')
ASSUMPTIONS = ['an import that overlaps changes may see each directory at a different moment']


def generate(rng, i, tier):
    kind = rng.choice(('file', 'file', 'file', 'pkgext'))
    nd = 4 if kind == 'pkgext' else rng.choice((2, 2, 3))
    nf = rng.choice((1, 1, 2))
    files = loading.gen_files(rng, nf, kind, bigpad=.05, inc=.15)
    ver = [0]
    initial = []
    same = rng.random() < .6
    for f in range(nf):
        for d in range(nd):
            if rng.random() < .45:
                ver[0] += 1
                initial.append({'f': f, 'v': ver[0], 'd': d, 'move': ('=', loading.BASE)})

    def edits(n):
        out = c05.edits(rng, nf, n, ver, ('atomic', 'atomic', 'delete', 'delete', 'delete'), nd)
        for e in out:
            if same and rng.random() < .6:
                e['move'] = ('=', loading.BASE)
            if rng.random() < .5:
                e['d'] = 0
        return out
    threads = []
    seq = rng.random()
    if seq < .6:
        ops = []
        for _ in range(rng.randint(4, 10)):
            ops += edits(rng.choice((1, 1, 2)))
            ops.append({'op': 'import', 'f': rng.randrange(nf)})
        threads.append(ops)
    if seq > .3:
        threads.append(edits(rng.randint(2, 6)))
        for _ in range(rng.choice((1, 2, 3))):
            threads.append([{'op': 'import', 'f': rng.randrange(nf)} for _ in range(rng.randint(2, 6))])
    faults = None
    if rng.random() < .25:
        faults = {'stat_err': [3, .1], 'open_err': [2, .05], 'list_err': [2, .1]}
        for th in threads:
            for op in th:
                if op['op'] == 'import' and rng.random() < .4:
                    op['faults'] = ['stat_err', 'open_err', 'list_err']
    scn = {'site': {'kind': kind, 'ndirs': nd}, 'files': files, 'initial': initial, 'joined': rng.random() < .3,
           'threads': common.number(threads)}
    if rng.random() < .3:
        scn['decoys'] = True
    if kind == 'file':
        scn['dirs'] = rng.choice((None, None, 'same', 'nested'))
        if rng.random() < .15:
            scn['opts'] = {'blind': [f['name'] for f in files]}
        elif not scn.get('decoys') and not any(f.get('inc') for f in files) and rng.random() < .5:
            scn['opts'] = {'late': True}
        if rng.random() < .35:
            # another loader searches the same directories in another order
            o = rng.sample(range(nd), rng.randint(1, nd))
            scn['opts'] = dict(scn.get('opts') or {}, order2=o)
            scn['helpers'] = True
            for th in threads:
                for op in th:
                    if op['op'] == 'import' and rng.random() < .5:
                        op['l'] = 1
    if rng.random() < .15:
        scn['links'] = rng.choice(('target', 'repoint', 'release'))
    plan = {'scn': scn}
    plan.update(common.policy(rng, faults=faults, light=True))
    if rng.random() < .6:
        plan['trace']['only'] = ['loader.py']
        plan['trace']['frac'] = 1000
        plan['policy']['p_io'] = rng.choice((.1, .3, .6))
    return plan


def execute(run):
    opts = dict(run.scn.get('opts') or {})
    if run.scn['site']['kind'] == 'file' and run.scn.get('joined'):
        opts['joined'] = True
    w = loading.World(run, **opts)
    w.spawn()
    run.go()
    run.nontrivial = False
    for r in w.records:
        per = w.allowed(r)
        there = sum(1 for st in per if st[0] is not None)
        if there != 1:
            run.nontrivial = True
        if 'exc' in r and r['fired']:
            if not isinstance(r['exc'], OSError):
                run.viol('wrong-error', 'an I/O error in operation %d was reported as %s' % (
                    r['op']['id'], common.exc_text(r['exc'])))
            continue
        w.judge_fresh(r, 'wrong-file', relaxed=bool(r['fired']))
    if run.sim.end == 'done':
        loading.final_imports(w, lambda r: w.judge_fresh(r, 'wrong-file'))
