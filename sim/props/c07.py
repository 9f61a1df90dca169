# -*- coding: utf-8 -*-
"""C07: a failed or interrupted load leaves the loader as if it had not happened."""
from .. import common, loading
from . import c05

ID = 'C07'
RUNS = {'quick': 4500, 'thorough': 40000}
RULE = ('a case is one simulated run: imports and renders that fail (missing, unreadable, undecodable, malformed '
        'files) or are interrupted at any line, system call or read, followed by a repair and further imports; '
        'non-trivial when at least one import failed')
ASSUMPTIONS = ['asynchronous interrupts are delivered at lines of kajiki and template code, not on a line that only '
               'acquires, releases or closes something, nor before the first line after it']
IO = ('open_err', 'read_err', 'stat_err', 'list_err')
ALL = list(IO) + ['read_int', 'interrupt']


def generate(rng, i, tier):
    kind = rng.choice(('file', 'file', 'file', 'package', 'pyramid'))
    reload = rng.random() < .85
    nf = rng.choice((1, 2, 2, 3))
    files = loading.gen_files(rng, nf, kind, hook=.2, inc=.6)
    ver = [0]
    initial = []
    bads = ['bad:' + b for b in loading.BAD]
    for f in range(nf):
        if rng.random() < .85:
            ver[0] += 1
            initial.append({'f': f, 'v': ver[0], 'move': ('=', loading.BASE + rng.randrange(1000) * 10**9),
                            'how': rng.choice(bads) if rng.random() < .2 else 'atomic'})
    mode = rng.choice(('io', 'int', 'int', 'bad', 'mix'))
    allow = {'io': list(IO), 'int': ['read_int', 'interrupt'], 'bad': [], 'mix': ALL}[mode]
    p = rng.choice((.03, .1, .3))
    faults = dict((k, [rng.choice((1, 2, 4)), p]) for k in allow if k != 'interrupt')
    int_gap = 0
    if 'interrupt' in allow:
        faults['interrupt'] = [rng.choice((1, 1, 2, 4)), 0]
        int_gap = rng.choice((2, 5, 20, 100, 400, 1500))
    hows = ('atomic', 'delete') + tuple(rng.sample(bads, 3)) if mode in ('bad', 'mix') else ('atomic',)
    threads = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(2, 7)):
            if rng.random() < .3:
                ops += c05.edits(rng, nf, 1, ver, hows)
            else:
                op = {'op': rng.choice(('import', 'import', 'render')), 'f': rng.randrange(nf)}
                if allow and rng.random() < .7:
                    op['faults'] = allow
                ops.append(op)
        threads.append(ops)
    # repair at the end
    repair = []
    mend = rng.choice((0, .7, .7))
    for f in range(nf):
        if rng.random() < mend:
            ver[0] += 1
            repair.append({'op': 'edit', 'f': f, 'v': ver[0], 'how': 'atomic', 'move': loading.mtime_moves(rng)})
    scn = {'site': {'kind': kind, 'front': loading.front(rng, kind), 'reload': reload}, 'files': files, 'initial': initial,
           'threads': common.number(threads), 'repair': repair}
    if rng.random() < .2:
        scn['decoys'] = True
    plan = {'scn': scn}
    plan.update(common.policy(rng, faults=faults, int_gap=int_gap, light=True))
    if int_gap and (int_gap <= 20 or rng.random() < .4):
        plan['trace']['only'] = ['loader.py', 'pyramid.py'] + (['template.py'] if rng.random() < .4 else [])
        plan['trace']['frac'] = 1000
        r = rng.random()
        if r < .75:
            plan['policy']['int_gap'] = 10**7
            if r < .25:
                plan['policy']['i_hot'] = rng.choice((.03, .08, .2))
            else:
                plan['policy']['i_nth'] = rng.randint(1, 24)
    if rng.random() < .2:
        plan['read_chunk'] = rng.choice((50, 700))
    return plan


def execute(run):
    w = loading.World(run)
    w.spawn()
    run.go()
    reload = run.scn['site']['reload']
    run.nontrivial = any('exc' in r for r in w.records)
    if reload:
        for r in w.records:
            judge(run, w, r)
    else:
        judge_frozen(run, w)
    if run.sim.end != 'done':
        return
    for e in run.scn['repair']:
        if reload or not w.site.timeline(w.files[e['f']]['name']):
            w.edit(None, e)
    if reload:
        loading.final_imports(w)
        # inheritance through the same loader
        for fi, f in enumerate(w.files):
            inherit(run, w, fi, f)
    else:
        n = len(w.records)
        loading.final_imports(w, lambda r: None)
        judge_frozen(run, w)


def judge(run, w, r):
    if not r['fired']:
        w.judge_fresh(r)
        return
    if 'exc' in r:
        kinds = set(r['fired'])
        if kinds <= set(IO) and not isinstance(r['exc'], OSError):
            per = w.allowed(r)
            if not any(isinstance(v, tuple) or v == 'torn' for st in per for v in st):
                run.viol('wrong-error', 'operation %d: an I/O error (%s) was reported as %s' % (
                    r['op']['id'], ','.join(sorted(kinds)), common.exc_text(r['exc'])))
        return
    # it went through all the same: then what it returned must be right
    w.judge_fresh(r, relaxed=True)


def judge_frozen(run, w):
    """Without reloading: what the first successful import returned came from a good file, whole."""
    for fi, f in enumerate(w.files):
        first = None
        for r in w.records:
            if r['f'] != fi:
                continue
            what = 'operation %d on %s' % (r['op']['id'], f['name'])
            if 'exc' not in r:
                if r.get('problem'):
                    run.viol('broken-template', '%s: %s' % (what, r['problem']))
                elif r['v'] not in [v for _, v in w.site.timeline(f['name'])]:
                    run.viol('broken-template', '%s: version %s was never on disk' % (what, r['v']))
            elif not r['fired']:
                per = w.allowed(r)
                if not any(v is None or isinstance(v, tuple) or v == 'torn' for st in per for v in st):
                    run.viol('spurious-failure', '%s raised %s' % (what, common.exc_text(r['exc'])))


def inherit(run, w, fi, f):
    v = w.site.at(f['name'], w.site.tick())
    if v is None or isinstance(v, tuple) or v == 'torn':
        return
    name = w.site.name(f['name'])
    if f['ext'] == 'txt':
        src = '{%%extends "%s"%%}{%%block b%%}child{%%end%%}' % name
        tpl = run.kajiki.TextTemplate(src)
    else:
        src = '<py:extends href="%s"><py:block name="b">child</py:block></py:extends>' % name
        tpl = run.kajiki.XMLTemplate(src)
    tpl.loader = w.loader
    inc = w.helping(f['ext']) if f.get('inc') else ''
    exp = loading.expected(f['ext'], v, f.get('pad', 0), inc, f.get('end', ''), f.get('lo')).replace('B mk%dk' % v, 'child')
    try:
        got = tpl({}).render()
    except BaseException as e:
        run.viol('broken-template', 'a template extending %s raises %s' % (f['name'], common.exc_text(e)))
        return
    if got != exp:
        j = common.first_diff(got, exp)
        run.viol('broken-template', 'a template extending %s renders %s, not %s' % (
            f['name'], common.cut(got, j), common.cut(exp, j)))
