# -*- coding: utf-8 -*-
"""C08: concurrent loading never fails spuriously and always finishes."""
from .. import common, compose, loading
from . import c05

ID = 'C08'
RUNS = {'quick': 2600, 'thorough': 40000}
RULE = ('a case is one simulated run: several threads import, reload, render, extend and include through one loader '
        'while editors replace files by other well-formed versions and other threads fail on bad names or are '
        'interrupted; template code loads templates too; non-trivial when two operations overlapped in time')
ASSUMPTIONS = ['bounded: 2500000 scheduling points per run, and no state in which every thread waits',
               'interrupts hit only the operations marked for it; those may fail, the others may not']


def generate(rng, i, tier):
    if rng.random() < .5:
        scn = compose.gen_scene(rng)
        scn['mode'] = 'compose'
        for th in scn['threads']:
            for op in th:
                if op['op'] == 'render' and rng.random() < .5:
                    op['extra'] = rng.randint(1, 5)
    else:
        kind = rng.choice(('file', 'file', 'package', 'pyramid'))
        # many: more names than operations, so that most operations load a name for the first time
        many = rng.random() < .4
        nf = rng.randint(6, 12) if many else rng.choice((2, 3, 4))
        files = loading.gen_files(rng, nf, kind, hook=.1 if many else .5, inc=.7 if many else .4)
        for k, f in enumerate(files):
            if f.get('hook') and k + 1 < nf and rng.random() < .7:
                f['loads'] = rng.randrange(k + 1, nf)
        nbad = rng.choice((0, 1, 2))
        for k in range(nbad):
            ext = 'xml' if kind == 'pyramid' else rng.choice(('xml', 'txt'))
            files.append({'name': 'bad%d.%s' % (k, ext), 'ext': ext, 'bad': True})
        ver = [0]
        initial = []
        for k, f in enumerate(files):
            ver[0] += 1
            how = 'atomic'
            if f.get('bad'):
                if rng.random() < .3:
                    continue
                how = 'bad:' + rng.choice(loading.BAD)
            initial.append({'f': k, 'v': ver[0], 'how': how, 'move': ('=', loading.BASE)})
        threads = []
        for _ in range(rng.choice((2, 2, 3, 4))):
            ops = []
            for _ in range(rng.randint(1, 4)):
                ops.append({'op': rng.choice(('import', 'render') if many else ('import', 'import', 'render')),
                            'f': rng.randrange(nf)})
            threads.append(ops)
        if many:
            # every thread visits the names in its own order
            for th in threads:
                order = rng.sample(range(nf), min(nf, rng.randint(3, 7)))
                th[:] = [{'op': 'render' if rng.random() < .6 else 'import', 'f': k} for k in order]
        if nbad:
            threads.append([{'op': 'import', 'f': nf + rng.randrange(nbad)} for _ in range(rng.randint(1, 3))])
        for _ in range(rng.choice((0, 1, 1, 2))):
            threads.append(c05.edits(rng, nf, rng.randint(1, 5), ver, ('atomic',)))
        scn = {'mode': 'load', 'site': {'kind': kind, 'front': loading.front(rng, kind), 'reload': rng.random() < .85}, 'files': files,
               'initial': initial, 'threads': threads, 'nested': rng.random() < .3}
    faults, gap = None, 0
    if rng.random() < .5:
        faults = {'interrupt': [rng.choice((1, 2, 4)), 0], 'read_int': [1, .1], 'open_err': [1, .1],
                  'stat_err': [1, .1]}
        gap = rng.choice((3, 10, 40, 200, 1000))
        threads = [th for th in scn['threads'] if any(op['op'] != 'edit' for op in th)]
        for op in rng.choice(threads):
            if op['op'] != 'edit':
                op['faults'] = ['interrupt', 'read_int', 'open_err', 'stat_err']
    common.number(scn['threads'])
    if rng.random() < .08:
        scn['links'] = rng.choice(('target', 'repoint', 'release'))
    plan = {'scn': scn}
    plan.update(common.policy(rng, faults=faults, int_gap=gap, light=True))
    if rng.random() < .5:
        plan['trace']['only'] = rng.choice((['loader.py', 'pyramid.py', 'template.py'], ['loader.py', 'pyramid.py']))
        plan['trace']['frac'] = 1000
        if rng.random() < .5:
            plan['policy']['gap'] = rng.choice((3, 8, 20))
            plan['policy']['budget'] = rng.choice((15, 30, 60, 120))
        if rng.random() < .4:
            plan['trace']['ops'] = 1000
    if rng.random() < .6:
        plan['policy']['p_io'] = rng.choice((.05, .2, .5))
    return plan


def execute(run):
    if run.scn['mode'] == 'compose':
        w = compose.World(run)

        def handler(t, op):
            if op['op'] == 'edit':
                w.edit(op['name'], op['move'])
            else:
                w.render(t, op)
        for ops in run.scn['threads']:
            run.spawn(ops, handler)
        run.go()
        recs = w.renders
    else:
        w = loading.World(run)
        w.spawn()
        run.go()
        recs = w.records
    done = [r for r in recs if 'b' in r]
    run.nontrivial = any(x['a'] < y['b'] and y['a'] < x['b'] for x in done for y in done if x is not y)
    for r in done:
        if r['op'].get('faults') and r['fired']:
            continue
        if run.scn['mode'] == 'load' and w.files[r['f']].get('bad'):
            continue
        if 'exc' in r:
            run.viol('spurious-failure', 'operation %d (%s, time %d-%d) raised %s although its files were in order' % (
                r['op']['id'], r['op']['op'], r['a'], r['b'], common.exc_text(r['exc'])))
        elif r.get('problem') and r.get('v') is None:
            run.viol('spurious-failure', 'operation %d: %s' % (r['op']['id'], r['problem']))
    if run.sim.end == 'done':
        # and nothing is left locked or broken behind
        if run.scn['mode'] == 'load':
            def judge(r):
                if 'exc' in r and not w.files[r['f']].get('bad'):
                    run.viol('spurious-failure', 'at the end, import of %s raised %s' % (
                        w.files[r['f']]['name'], common.exc_text(r['exc'])))
            loading.final_imports(w, judge)
        else:
            class T(object):
                fired, faults_allowed = (), ()
            r = w.render(T, {'id': -1, 'seed': 1, 'op': 'final'})
            if 'exc' in r:
                run.viol('spurious-failure', 'at the end, a render raised %s' % r['why'])
