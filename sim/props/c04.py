# -*- coding: utf-8 -*-
"""C04: an exception in user code surfaces unchanged and truncates output cleanly."""
from .. import common, core, gen, loading, site, source

ID = 'C04'
RUNS = {'quick': 5000, 'thorough': 30000}
RULE = ('a case is one simulated run: renders of generated templates in which a call made by the template (value, '
        'condition, iterable, next(), function argument, switch, attribute, translator, conversion to text) raises, '
        'or an interrupt arrives at a line, while other renders of the same class go on; non-trivial when an '
        'exception was raised in a render')
ASSUMPTIONS = ['interrupts arrive at lines of kajiki and template code']


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    f0 = []
    sites = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'text'))
        f = {'gettext': rng.random() < .3}
        where = rng.choice(('file',) * 6 + ('package', 'pyramid'))
        if where == 'pyramid':
            kind, f['html'], f['doctype'] = 'xml', 0, 0
        sites.append([where, 'tg' if where == 'package' else loading.front(rng, where)])
        if rng.random() < .5:
            f['more'] = rng.choice((['switch'] * 6, ['for'] * 5, ['el'] * 6, ['if'] * 5) if kind == 'xml' else
                                   (['switch'] * 6, ['for'] * 5))
            if f['more'][0] == 'el':
                f['pyattrs'] = .7
                f['nattrs'] = (0, 1, 2, 3)
            f0.append({'switch': rng.choice(('sw', 'cs')), 'for': 'it', 'el': 'ats', 'if': 'bl'}[f['more'][0]])
        sets.append(gen.gen_set(rng, kind, f, size=rng.choice((6, 10, 16)), spread=10))
    ints = rng.random() < .4
    dense = not ints and rng.random() < .6      # many renders, many failures, switches at calls only
    threads = []
    for t in range(rng.choice((1, 2, 3))):
        ops = []
        for _ in range(rng.randint(8, 20) if dense else rng.randint(1, 4)):
            op = {'op': 'render', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                  'how': rng.choice(('render', 'iter', 'iter')), 'tr': rng.choice((0, 0, 3)),
                  'again': rng.random() < .3}
            if rng.random() < .4:
                # only places of one or two kinds fail
                op['focus'] = rng.sample(['u', 'c', 'it', 'at', 'ats', 'sw', 'cs', 'bl', 'nx', 'gettext'], 2)
                if rng.random() < .5:
                    op['focus'][0] = f0[0] if f0 else rng.choice(('sw', 'ats', 'cs', 'it'))
            if rng.random() < .6:
                op['faults'] = ['interrupt'] if ints and rng.random() < .5 else ['user_exc']
            ops.append(op)
        threads.append(ops)
    faults = {'user_exc': [30 if dense else rng.choice((1, 2, 5)), rng.choice((.03, .1, .3, .6))]}
    gap = 0
    if ints:
        faults['interrupt'] = [rng.choice((1, 2, 3)), 0]
        gap = rng.choice((5, 30, 150, 600))
    plan = {'scn': {'sets': sets, 'sites': sites, 'threads': common.number(threads)}}
    plan.update(common.policy(rng, faults=faults, int_gap=gap, lines=not dense))
    if gap:
        plan['trace']['only'] = ['template.py', 'util.py', 'tpl', 'markup_template.py', 'i18n.py', 'pyramid.py', 'turbogears1.py']
        plan['trace']['frac'] = 1000
    return plan


def execute(run):
    scn = run.scn
    classes = []
    for si, ts in enumerate(scn['sets']):
        kind, front = scn['sites'][si]
        s = site.Site(run, kind, 1, False, label='s%d_' % si, front=front)
        s.place(ts)
        for name in sorted(ts['files']):
            if name.startswith(('inc', 'lib')):
                s.loader.import_(s.name(name), is_fragment=True)
            else:
                s.load(s.name(name))
        classes.append((s, s.load(s.name(ts['main']))))
    renders = []

    def one(t, op, s_cls, ts, rid):
        s, cls = s_cls
        src = source.Source(run.sim, run.kajiki, rid, op['seed'], opts={'focus': op.get('focus')})
        r = {'op': op, 'ts': ts, 'src': src, 'text': [], 'rid': rid, 'mode': op['how']}
        renders.append(r)
        ctx = src.context()
        base = gen.caesar(op['tr'])
        r['tr'] = base
        if op['tr']:
            def translator(s):
                f = run.sim.point('user', 'user:gettext', src.may_fail('gettext'))
                if f is not None:
                    e = src.make_exc(f.arg, 0)
                    src.raised, src.raised_k = e, 'gettext'
                    raise e
                return base(s)
            ctx['gettext'] = translator
        t.last_injected = None
        try:
            if op['how'] == 'render' and s.front:
                r['text'].append(s.page(s.name(ts['main']), ctx))
            elif op['how'] == 'render':
                r['text'].append(cls(ctx).render())
            else:
                for c in cls(ctx):
                    r['text'].append(c)
            r['done'] = True
        except BaseException as e:
            r['exc'] = e
            r['injected'] = t.last_injected
            e.__traceback__ = None
        r['nlog'] = len(src.log)
        run.sim.rearm()
        run.sim.record('render', tag='exc' if 'exc' in r else 'ok')

    def handler(t, op):
        ts, cls = scn['sets'][op['set']], classes[op['set']]
        one(t, op, cls, ts, 'r%d' % op['id'])
        if op['again']:
            t.faults_allowed = ()
            one(t, op, cls, ts, 'r%db' % op['id'])

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = any('exc' in r for r in renders)
    for r in renders:
        what = 'render %s' % r['rid']
        src = r['src']
        cause = src.raised if src.raised is not None else r.get('injected')
        text = ''.join(r['text'])
        tr = (lambda t: (lambda name: t))(r['tr'])
        if len(src.log) != r['nlog']:
            run.viol('evaluated-after-failure', '%s: %d evaluations after it ended' % (what, len(src.log) - r['nlog']))
            continue
        if 'exc' not in r:
            if cause is not None:
                run.viol('swallowed', '%s: %s disappeared, the render went on' % (what, common.exc_text(cause)))
                continue
            common.judge_complete(run, what, r['ts'], src, text, tr)
            continue
        e = r['exc']
        if cause is None:
            run.viol('render-failed', '%s: %s' % (what, common.exc_text(e)))
            continue
        if isinstance(cause, StopIteration):
            if not isinstance(e, RuntimeError):
                run.viol('wrong-exception', '%s: StopIteration surfaced as %s' % (what, common.exc_text(e)))
        elif e is not cause:
            run.viol('wrong-exception', '%s: %s surfaced as %s' % (
                what, common.exc_text(cause), common.exc_text(e)))
            continue
        elif cause is src.raised and (len(e.args) != 1 or not str(e.args[0]).startswith('boom') or vars(e) or (
                e.__cause__ is not None or e.__suppress_context__)):
            run.viol('changed-exception', '%s: %s surfaced with arguments %r, attributes %r, cause %r' % (
                what, common.exc_text(cause), e.args, vars(e), e.__cause__))
            continue
        if r['mode'] == 'iter':
            common.judge_partial(run, what, r['ts'], src, text, tr)
