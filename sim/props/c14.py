# -*- coding: utf-8 -*-
"""C14: expressions are evaluated exactly once per visit and in document order."""
from .. import common, core, gen, source

ID = 'C14'
RUNS = {'quick': 2600, 'thorough': 30000}
RULE = ('a case is one simulated run: generated templates rendered, whole or in steps, by several threads over '
        'stateful data sources (some shared: a ticket counter drawn from by every render); every evaluation is '
        'logged and the log must be the one the reference interpreter prescribes; non-trivial when a render made at '
        'least five evaluations')


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'xml', 'text'))
        sets.append(gen.gen_set(rng, kind, {'gettext': rng.random() < .2, 'markup': 2 * (rng.random() < .3),
                                             'rec': rng.choice((.12, .5))},
                                size=rng.choice((6, 12, 20)), spread=10))
    dense = rng.random() < .5           # many renders, switches at calls only
    threads = []
    for t in range(rng.choice((1, 2, 2, 3))):
        ops = []
        for _ in range(rng.randint(6, 14) if dense else rng.randint(1, 4)):
            ops.append({'op': 'render', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                        'how': rng.choice(('render', 'iter', 'stop', 'str')), 'n': rng.randint(0, 12)})
        threads.append(ops)
    long = rng.choice((70, 150, 300, 1100)) if rng.random() < .03 else 0
    if long:
        # few renders, over many items
        sets = [gen.gen_set(rng, rng.choice(('xml', 'text')), {'more': ['for'] * 8, 'rec': 0}, size=4) for _ in sets]
        threads = [ops[:2] for ops in threads]
    plan = {'scn': {'sets': sets, 'long': long, 'threads': common.number(threads), 'tickets': rng.random() < .4,
                    'reload': rng.random() < .5}}
    plan.update(common.policy(rng, lines=not dense))
    if rng.random() < .3:
        plan['rbias'] = rng.choice((20, 60))
    return plan


class TicketSource(source.Source):
    """Values drawn from one counter shared by all renders."""
    def __init__(self, box, *a, **kw):
        source.Source.__init__(self, *a, **kw)
        self.box = box

    def u(self, k):
        self.visit('u', k)
        self.box[0] += 1
        v = 'tk%dt' % self.box[0]
        self.log.append(['u', k, v])
        return v


def execute(run):
    scn = run.scn
    loaders = []
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9)
        loaders.append(run.kajiki.FileLoader(run.path('s%d' % si), reload=scn['reload']))
    box = [0]
    renders = []

    def handler(t, op):
        ts = scn['sets'][op['set']]
        args = (run.sim, run.kajiki, 'r%d' % op['id'], op['seed'], (), {'long': scn['long']})
        src = TicketSource(box, *args) if scn['tickets'] else source.Source(*args)
        r = {'op': op, 'ts': ts, 'src': src, 'done': False}
        renders.append(r)
        try:
            inst = loaders[op['set']].load(ts['main'])(src.context())
            if op['how'] in ('render', 'str'):
                r['text'] = inst.render()
                r['done'] = True
            else:
                it = iter(inst)
                text = []
                try:
                    if op['how'] == 'iter':
                        for c in it:
                            text.append(c)
                        r['done'] = True
                    else:
                        for _ in range(op['n']):
                            text.append(next(it))
                except StopIteration:
                    r['done'] = True
                r['text'] = ''.join(text)
                r['nlog'] = len(src.log)
                r['it'] = it
        except Exception as e:
            run.viol('render-failed', 'render %d: %s' % (op['id'], common.exc_text(e)))
            r['failed'] = True

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = any(len(r['src'].log) >= 5 for r in renders)
    shown = []
    for r in renders:
        if r.get('failed'):
            continue
        what = 'render %d' % r['op']['id']
        if r['done']:
            common.judge_complete(run, what, r['ts'], r['src'], r['text'])
        else:
            common.judge_partial(run, what, r['ts'], r['src'], r['text'])
            if len(r['src'].log) != r['nlog']:
                run.viol('wrong-evaluation', '%s: went on evaluating after it was left' % what)
