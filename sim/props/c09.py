# -*- coding: utf-8 -*-
"""C09: loading a template never leaks a file handle."""
from .. import common, loading, seams
from . import c05

ID = 'C09'
RUNS = {'quick': 4000, 'thorough': 40000}
RULE = ('a case is one simulated run: imports and compilations from files in which opening, reading (first, middle, '
        'last chunk), decoding or parsing fails or an interrupt arrives inside a system call; after each the files '
        'it opened must be closed; non-trivial when a fault fired or a file was malformed')
ASSUMPTIONS = ['interrupts arrive inside open and read calls; between two lines nobody can close a file just opened']
KINDS = ['open_err', 'read_err', 'stat_err', 'list_err', 'read_int', 'short']


def generate(rng, i, tier):
    kind = rng.choice(('file', 'file', 'file', 'package', 'pyramid'))
    nf = rng.choice((1, 2, 3))
    files = loading.gen_files(rng, nf, kind, inc=.3, bigpad=.3)
    ver = [0]
    initial = []
    bads = ['bad:' + b for b in loading.BAD]
    for f in range(nf):
        ver[0] += 1
        initial.append({'f': f, 'v': ver[0], 'move': ('=', loading.BASE + rng.randrange(1000) * 10**9),
                        'how': rng.choice(bads) if rng.random() < .35 else 'atomic'})
    p = rng.choice((.05, .2, .5))
    faults = dict((k, [rng.choice((1, 2, 4)), p]) for k in KINDS)
    threads = []
    for _ in range(rng.choice((1, 2, 3))):
        ops = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < .3:
                ops += c05.edits(rng, nf, 1, ver, ('atomic', 'atomic', 'delete') + tuple(bads))
            else:
                op = {'op': rng.choice(('import', 'import', 'render', 'compile')), 'f': rng.randrange(nf)}
                if rng.random() < .7:
                    op['faults'] = KINDS
                ops.append(op)
        threads.append(ops)
    scn = {'site': {'kind': kind, 'front': loading.front(rng, kind), 'reload': rng.random() < .8}, 'files': files, 'initial': initial,
           'threads': common.number(threads)}
    plan = {'scn': scn}
    plan.update(common.policy(rng, faults=faults, light=True))
    if rng.random() < .5:
        plan['trace']['frac'] = 0
        plan['policy']['p_io'] = .2
    plan['read_chunk'] = rng.choice((0, 0, 64, 500, 3000))
    return plan


def execute(run):
    w = loading.World(run)
    faulty = [0]

    def handler(t, op):
        kind = op['op']
        if kind == 'edit':
            w.edit(t, op)
            return
        f = w.files[op['f']]
        if kind == 'compile':
            try:
                path = w.site.path(f['name'])
                mk = run.kajiki.TextTemplate if f['ext'] == 'txt' else run.kajiki.XMLTemplate
                mk(source=None, filename=path)
                out = 'ok'
            except BaseException as e:
                e.__traceback__ = None
                out = 'exc'
            t.faults_allowed = ()
            run.sim.rearm()
            run.sim.record('compile', tag=out)
        else:
            rec = w.import_(t, op) if kind == 'import' else w.render(t, op)
            out = 'exc' if 'exc' in rec else 'ok'
        if t.fired or out == 'exc':
            faulty[0] += 1
        left = [x for x in t.open_files if not x._f.closed]
        if left:
            run.viol('leaked-file', '%s of %s (operation %d, faults %s) ended with %s and left %s open' % (
                kind, f['name'], op['id'], ','.join(t.fired) or 'none', out, ', '.join(x._label for x in left)))
            for x in left:
                x._f.close()

    for ops in run.scn['threads']:
        run.spawn(ops, handler)
    run.go()
    run.nontrivial = faulty[0] > 0
    if run.sim.end == 'done':
        left = seams.leaked()
        if left:
            run.viol('leaked-file', 'still open at the end: %s' % ', '.join(left))
