# -*- coding: utf-8 -*-
"""C01: renders in progress at the same time are isolated from each other."""
from .. import common, core, gen, loading, pure, site, source
from ..core import quietly

ID = 'C01'
RUNS = {'quick': 3600, 'thorough': 24000}
RULE = ('a case is one simulated run: 1-3 generated template sets, 1-4 threads creating, stepping, handing over, '
        'nesting and finishing renders; non-trivial when at least two renders were in progress at once')


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2, 3))
    sets = []
    sites = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'text'))
        f = {'gettext': rng.random() < .3}
        where = rng.choice(('file',) * 5 + ('package', 'pyramid'))
        if where == 'pyramid':
            kind, f['html'], f['doctype'] = 'xml', 0, 0
        sites.append([where, 'tg' if where == 'package' and rng.random() < .6 else loading.front(rng, where)])
        sets.append(gen.gen_set(rng, kind, f, size=rng.choice((5, 9, 14)), spread=10))
    dense = rng.random() < .4           # many renders, switches at calls only
    nthreads = rng.choice((1, 2, 2, 3, 4))
    nslots = rng.choice((2, 3, 4))
    threads = []
    for t in range(nthreads):
        ops = []
        for _ in range(rng.randint(8, 16) if dense else rng.randint(2, 6)):
            r = rng.random()
            if r < .3:
                ops.append({'op': 'render', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30)})
            elif r < .45:
                ops.append({'op': 'nest', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                            'at': rng.randint(1, 6), 'inner': rng.randrange(nsets)})
            elif r < .6:
                ops.append({'op': 'open', 'slot': rng.randrange(nslots), 'set': rng.randrange(nsets),
                            'seed': rng.getrandbits(30)})
                ops.append({'op': 'step', 'slot': ops[-1]['slot'], 'n': rng.randint(1, 5)})
            elif r < .9:
                ops.append({'op': 'step', 'slot': rng.randrange(nslots), 'n': rng.choice((1, 1, 2, 5, 20))})
            else:
                ops.append({'op': 'finish', 'slot': rng.randrange(nslots)})
        for op in ops:
            if 'set' in op and rng.random() < .25:
                op['e'] = rng.randrange(2)
        threads.append(ops)
    scn = {'sets': sets, 'sites': sites, 'threads': common.number(threads), 'slots': nslots,
           'share': rng.random() < .25, 'pure': rng.choice((1, 1, 2)) if rng.random() < .2 else 0,
           'pre': rng.random() < .5, 'reload': rng.random() < .5, 'drain': rng.random() < .8}
    plan = {'scn': scn}
    plan.update(common.policy(rng, lines=not dense))
    if any(fr for _, fr in sites) and rng.random() < .5:
        # renders through a framework: look closely at the few lines between it and the template
        plan['trace'].update(only=['pyramid.py', 'turbogears1.py', 'loader.py'], frac=1000)
        plan['policy'].update(gap=rng.choice((1, 2, 4)), lines=1)
    return plan


class Slot(object):
    def __init__(self):
        self.busy = False
        self.it = None


class Render(object):
    def __init__(self, st, si, seed, rid, e):
        self.ts = common.entry(st.scn['sets'][si], e)
        if st.pure:
            # one context for many renders
            self.src, self.ctx = st.pure[seed % len(st.pure)]
        else:
            self.src = source.Source(st.run.sim, st.run.kajiki, rid, seed, ())
            self.ctx = self.src.context()
        self.rid = rid
        self.text = []
        self.done = False
        self.exc = None


class State(object):
    def __init__(self, run):
        self.run, self.scn = run, run.scn
        self.slots = [Slot() for _ in range(self.scn['slots'])]
        self.renders = []
        self.active = 0
        self.overlap = 0
        self.loaders = []
        self.shared = {}
        self.pure = []
        for c in range(self.scn.get('pure') or 0):
            s = pure.PureSource(run.sim, run.kajiki, 'x%d' % c, core.derive(run.plan.get('rseed', 0), c))
            self.pure.append((s, s.context()))

    def start(self, si, seed, rid, e=None):
        r = Render(self, si, seed, rid, e)
        self.renders.append(r)
        cls = self.loaders[si].load(self.loaders[si].name(r.ts['main']))
        if self.scn.get('share') and len(r.ts['files']) == 1 and not self.pure:
            # one context mapping, filled anew for every render (its instance takes what it needs)
            with quietly(self.run.sim):
                self.shared.update(r.ctx)
                r.inst = cls(self.shared)
            return r
        r.inst = cls(r.ctx)
        return r

    def whole(self, si, seed, rid, extra=None, e=None):
        if self.loaders[si].front:
            r = Render(self, si, seed, rid, e)
            self.renders.append(r)
        else:
            r = self.start(si, seed, rid, e)
        r.src.extra = extra
        self.active += 1
        if self.active > 1:
            self.overlap += 1
        try:
            if self.loaders[si].front:
                r.text.append(self.loaders[si].page(self.loaders[si].name(r.ts['main']), r.ctx))
            else:
                r.text.append(r.inst.render())
            r.done = True
        except Exception as e:
            r.exc = e
        finally:
            self.active -= 1

    def step(self, r, n):
        self.active += 1
        if self.active > 1:
            self.overlap += 1
        try:
            for _ in range(n):
                r.text.append(next(r.it))
        except StopIteration:
            r.done = True
        except Exception as e:
            r.exc = e
            r.done = True
        finally:
            self.active -= 1


def execute(run):
    st = State(run)
    scn = run.scn
    for si, ts in enumerate(scn['sets']):
        kind, front = scn['sites'][si]
        ld = site.Site(run, kind, 1, scn['reload'], label='s%d_' % si, front=front)
        ld.place(ts)
        st.loaders.append(ld)
        if scn['pre']:
            for name in sorted(ts['files']):
                # (a part that is included is loaded as a fragment)
                if name.startswith('inc'):
                    ld.loader.import_(ld.name(name), is_fragment=True)
                else:
                    ld.load(ld.name(name))

    def handler(t, op):
        kind = op['op']
        try:
            if kind == 'render':
                st.whole(op['set'], op['seed'], 'r%d' % op['id'], e=op.get('e'))
            elif kind == 'nest':
                left = [op['at']]

                def extra(kd, k):
                    left[0] -= 1
                    if left[0] == 0:
                        run.sim.probe('nested')
                        st.whole(op['inner'], op['seed'] + 1, 'r%dn' % op['id'])
                st.whole(op['set'], op['seed'], 'r%d' % op['id'], extra, op.get('e'))
            else:
                s = st.slots[op['slot']]
                if s.busy:
                    return
                s.busy = True
                try:
                    if kind == 'open':
                        r = st.start(op['set'], op['seed'], 'r%d' % op['id'], op.get('e'))
                        r.it = iter(r.inst)
                        r.by = t.tid
                        s.it = r
                    elif s.it is not None and not s.it.done:
                        if s.it.by != t.tid:
                            run.sim.probe('handed-over')
                        s.it.by = t.tid
                        st.overlap += sum(1 for x in st.slots if x.it and not x.it.done) > 1
                        st.step(s.it, op['n'] if kind == 'step' else 100000)
                finally:
                    s.busy = False
        except Exception as e:
            run.viol('render-failed', 'op %d: %s' % (op['id'], common.exc_text(e)))

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    run.nontrivial = st.overlap > 0
    if run.sim.end != 'done':
        return
    if scn['drain']:
        for s in st.slots:
            if s.it is not None and not s.it.done:
                st.step(s.it, 100000)
    for r in st.renders:
        what = 'render %s' % r.rid
        if r.exc is not None:
            run.viol('render-failed', '%s: %s' % (what, common.exc_text(r.exc)))
            continue
        text = ''.join(r.text)
        if st.pure:
            exp = pure.PureModel(r.ts, r.src).run()
            if text != exp if r.done else not exp.startswith(text):
                j = common.first_diff(text, exp)
                run.viol('wrong-output', '%s of %s: at %d got %s expected %s' % (
                    what, r.ts['main'], j, common.cut(text, j), common.cut(exp, j)))
        elif r.done:
            common.judge_complete(run, what, r.ts, r.src, text)
        else:
            common.judge_partial(run, what, r.ts, r.src, text)
