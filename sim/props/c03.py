# -*- coding: utf-8 -*-
"""C03: rendering leaves no trace: output never depends on what was rendered before."""
from .. import common, core, gen, pure
from ..core import quietly

ID = 'C03'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a case is one simulated run: a history of renders over shared contexts (the same context mapping, the same '
        'literals, lists and dictionaries in it) that complete, raise in user code, are interrupted at a line, are '
        'abandoned half way and closed or kept, repeat on one instance, by 1-3 threads; every render that completes, '
        'and one of each page with each context at the end, gives the text of the reference interpreter, and context '
        'and base globals are unmodified; non-trivial when a render did not complete or an instance was rendered twice')
ASSUMPTIONS = ['interrupts arrive at lines of kajiki and template code']


class Guard(dict):
    """A caller's mapping; notices any change, even one that is undone."""
    changed = None

    def _do(self, name, *a, **kw):
        before = dict(self)
        try:
            return getattr(dict, name)(self, *a, **kw)
        finally:
            if len(before) != len(self) or any(
                    k not in before or before[k] is not v for k, v in dict.items(self)):
                self.changed = '%s%r' % (name, a)


for _n in ('__setitem__', '__delitem__', 'update', 'pop', 'popitem', 'clear', 'setdefault', '__ior__'):
    if hasattr(dict, _n):
        setattr(Guard, _n, (lambda n: lambda self, *a, **kw: self._do(n, *a, **kw))(_n))


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'text'))
        sets.append(gen.gen_set(rng, kind, {'gettext': rng.random() < .2, 'markup': rng.random() < .2},
                                size=rng.choice((6, 10, 16)), spread=10))
    nctx = rng.choice((1, 1, 2))
    ints = rng.random() < .4
    dense = not ints and rng.random() < .5      # many renders, switches at calls only
    threads = []
    for t in range(rng.choice((1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(8, 16) if dense else rng.randint(2, 6)):
            op = {'op': 'render', 'set': rng.randrange(nsets), 'ctx': rng.randrange(nctx),
                  'how': rng.choice(('render', 'iter', 'part', 'part', 'partclose', 'twice', 'twice')),
                  'n': rng.randint(0, 15)}
            if rng.random() < .25:
                op['e'] = rng.randrange(2)
            if rng.random() < .5:
                op['faults'] = ['interrupt'] if ints and rng.random() < .6 else ['user_exc']
            ops.append(op)
        threads.append(ops)
    faults = {'user_exc': [20 if dense else rng.choice((1, 3, 6)), rng.choice((.05, .2))]}
    gap = 0
    if ints:
        faults['interrupt'] = [rng.choice((1, 2, 4)), 0]
        gap = rng.choice((5, 30, 150, 600))
    plan = {'scn': {'sets': sets, 'threads': common.number(threads), 'nctx': nctx, 'cseed': rng.getrandbits(30),
                    'bg': rng.random() < .7, 'reload': rng.random() < .5, 'gc': rng.random() < .3, 'one': rng.random() < .4}}
    plan.update(common.policy(rng, faults=faults, int_gap=gap, lines=not dense))
    if gap:
        plan['trace']['only'] = ['template.py', 'util.py', 'tpl', 'loader.py', 'i18n.py', 'ir.py']
        plan['trace']['frac'] = 1000
    return plan


def execute(run):
    scn = run.scn
    loaders = []
    bgs = []
    one = scn.get('one')        # one loader for all sets
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9, ('s%d/' % si) if one else '')
        if one and loaders:
            loaders.append(loaders[0])
            continue
        bg = Guard(extra=si, site='here') if scn['bg'] else None
        bgs.append(bg)
        text = any(t['main'].endswith('.txt') for t in (scn['sets'] if one else [ts]))
        opts = {'base_globals': bg} if scn['bg'] and not text else {}
        loaders.append(run.kajiki.FileLoader(run.path('s%d' % si if not one else ''), reload=scn['reload'], **opts))
    srcs, ctxs, keep = [], [], []
    for c in range(scn['nctx']):
        s = pure.PureSource(run.sim, run.kajiki, 'x%d' % c, core.derive(scn['cseed'], c), opts={'share_lits': True})
        srcs.append(s)
        g = Guard(s.context(extra2='e', word='w'))
        ctxs.append(g)
        keep.append(dict(g))
    want = {}

    def cls(si, e):
        return loaders[si].load(('s%d/' % si if one else '') + common.entry(scn['sets'][si], e)['main'])

    def expected(si, ci, e):
        if (si, ci, e) not in want:
            want[si, ci, e] = pure.PureModel(common.entry(scn['sets'][si], e), srcs[ci]).run()
        return want[si, ci, e]

    def judge(what, si, ci, e, text):
        exp = expected(si, ci, e)
        if text != exp:
            j = common.first_diff(text, exp)
            run.viol('depends-on-history', '%s of set %d with context %d: at %d got %s expected %s' % (
                what, si, ci, j, common.cut(text, j), common.cut(exp, j)))
            return False
        return True
    left = []
    odd = [0]

    def handler(t, op):
        si, ci, how, page = op['set'], op['ctx'], op['how'], op.get('e')
        t.last_injected = None
        what = 'render %d' % op['id']
        inst = None
        try:
            inst = cls(si, page)(ctxs[ci])
            if how in ('render', 'twice'):
                text = inst.render()
                done = True
            else:
                it = iter(inst)
                got = []
                done = False
                if how == 'iter':
                    got = list(it)
                    done = True
                else:
                    odd[0] += 1
                    for _ in range(op['n']):
                        try:
                            got.append(next(it))
                        except StopIteration:
                            done = True
                            break
                    if how == 'partclose':
                        it.close()
                    else:
                        left.append(it)
                text = ''.join(got)
            with quietly(run.sim):
                if done:
                    judge(what, si, ci, page, text)
                elif not expected(si, ci, page).startswith(text):
                    run.viol('depends-on-history', '%s: its text so far %r is no prefix of %r' % (
                        what, text[:200], expected(si, ci, page)[:200]))
        except BaseException as e:
            e.__traceback__ = None
            odd[0] += 1
            if t.last_injected is None:
                run.viol('render-failed', '%s: %s' % (what, common.exc_text(e)))
                return
            run.sim.probe('failed-render')
        t.faults_allowed = ()
        run.sim.rearm()
        run.sim.record('render', tag=how)
        if how == 'twice' and inst is not None:
            # the same instance again, after a render that completed or failed
            odd[0] += 1
            try:
                text = inst.render()
                with quietly(run.sim):
                    judge(what + ' (the same instance again)', si, ci, page, text)
            except Exception as e:
                run.viol('render-failed', '%s (the same instance again): %s' % (what, common.exc_text(e)))

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = odd[0] > 0
    if scn['gc']:
        del left[:]
    for si, ts in enumerate(scn['sets']):
        for ci in range(scn['nctx']):
            for n in (1, 2, 3, 4):
                page = None if n < 3 else n - 3
                try:
                    text = cls(si, page)(ctxs[ci]).render()
                except Exception as e:
                    run.viol('render-failed', 'final render %d: %s' % (n, common.exc_text(e)))
                    continue
                judge('final render %d' % n, si, ci, page, text)
    for ci, g in enumerate(ctxs):
        if g.changed or dict(g) != keep[ci]:
            run.viol('context-modified', 'context %d was modified: %s' % (ci, g.changed))
    for bg in bgs:
        if bg is not None and (bg.changed or sorted(bg) != ['extra', 'site']):
            run.viol('base-globals-modified', 'the base globals were modified: %s' % bg.changed)
    # the values in the context are unchanged too
    for ci, s in enumerate(srcs):
        for (kind, k), v in s.memo.items():
            d = s.draw(kind, k)
            if kind == 'it' and len(v) != len(d) or kind == 'ats' and v != d:
                run.viol('value-modified', 'value %s(%d) of context %d was modified' % (kind, k, ci))
