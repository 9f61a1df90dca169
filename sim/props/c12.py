# -*- coding: utf-8 -*-
"""C12: every render uses its own translator, whatever others use at the same time."""
import re

from .. import common, core, gen, loading, site, source
from ..core import quietly

ID = 'C12'
RUNS = {'quick': 2000, 'thorough': 30000}
RULE = ('a case is one simulated run: 1-4 threads render generated pages (alone, extending, including, importing) with '
        'translators from the context, from the base globals of the loader or from the process-wide default, which '
        'another operation replaces meanwhile; translators shift letters, so that the text shows which translator '
        'each part went through; non-trivial when two translators were in use at once or the default was replaced')

SEG = re.compile('\x00([^\x01]*)\x01([^\x02]*)\x02')


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'xml', 'text'))
        sets.append(gen.gen_set(rng, kind, {'gettext': 1, 'p_include': .5, 'p_extends': .45},
                                size=rng.choice((5, 9, 14)), spread=10))
    loaders = []
    for si in range(nsets):
        for _ in range(rng.choice((1, 2))):
            loaders.append({'set': si, 'bg': rng.choice((0, 0, 3, 4)), 'reload': rng.random() < .4})
            kinds = ['file', 'file', 'file', 'package']
            if sets[si]['files'][sets[si]['main']]['kind'] == 'xml' and not any(
                    'doctype' in f or f['ext'] != 'xml' for f in sets[si]['files'].values()):
                kinds += ['pyramid'] * 3
            kind = rng.choice(kinds)
            if kind != 'file':
                loaders[-1].update(bg=0, kind=kind, front='tg' if kind == 'package' else loading.front(rng, kind))
    dense = rng.random() < .4           # many renders, switches at calls only
    threads = []
    nd = 10
    for t in range(rng.choice((1, 2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(6, 12) if dense else rng.randint(1, 5)):
            if rng.random() < .25:
                nd += 1
                ops.append({'op': 'default', 'tr': 10 + (nd * 3) % 15})
                continue
            op = {'op': 'render', 'ld': rng.randrange(len(loaders)), 'seed': rng.getrandbits(30),
                  'tr': rng.choice((0, 0, 1, 2, 5, 6)), 'how': rng.choice(('render', 'iter', 'wait'))}
            if rng.random() < .2:
                op['nest'] = rng.randint(1, 4)
            ops.append(op)
        threads.append(ops)
    if nsets == 1 and len(loaders) > 1 and rng.random() < .5:
        loaders[1]['set'] = 0
    plan = {'scn': {'sets': sets, 'loaders': loaders, 'threads': common.number(threads), 'd0': rng.choice((0, 9)),
                    'bound': rng.random() < .3}}
    plan.update(common.policy(rng, lines=not dense))
    return plan


def execute(run):
    scn = run.scn
    k = run.kajiki
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9)

    langs = {}              # thread -> shifts of the renders it is in

    def bound(s):
        """One function for all renders, which finds the language of the request it is called in."""
        run.sim.point('user', 'user:gettext')
        return gen.caesar(langs[run.sim.current().tid][-1])(s)

    def translator(shift, own=True):
        if own and scn['bound']:
            return bound
        base = gen.caesar(shift)

        def gettext(s):
            run.sim.point('user', 'user:gettext')
            return base(s)
        return gettext
    loaders = []
    for i, ld in enumerate(scn['loaders']):
        ts = scn['sets'][ld['set']]
        opts = {}
        if ld.get('kind'):
            loaders.append((ts, 0, site.Site(run, ld['kind'], 1, ld['reload'], label='l%d_' % i, front=ld['front'])))
            loaders[-1][2].place(ts)
            continue
        if ld['bg'] and ts['files'][ts['main']]['kind'] == 'xml':
            opts['base_globals'] = {'gettext': translator(ld['bg'])}
        loaders.append((ts, ld['bg'] if opts else 0, k.FileLoader(run.path('s%d' % ld['set']), reload=ld['reload'],
                                                                  **opts)))
    clock = [0]
    defaults = [(0, scn['d0'])]         # (time, shift)
    if scn['d0']:
        k.i18n.gettext = translator(scn['d0'], False)
    renders = []

    def tick():
        clock[0] += 1
        return clock[0]

    def during(a, b):
        cur, out = None, []
        for t, s in defaults:
            if t <= a:
                cur = s
            elif t <= b:
                out.append(s)
        return [cur] + out

    def start(op, tr, ldn, seed, rid):
        ts, bg, ld = loaders[ldn]
        src = source.Source(run.sim, k, rid, seed, ())
        if scn['bound'] and bg and not tr:
            bg = 1 + seed % 20
        r = {'id': rid, 'ts': ts, 'src': src, 'own': tr or bg, 'a': None, 'b': None}
        langs.setdefault(run.sim.current().tid, []).append(tr or bg)
        ctx = src.context()
        if tr:
            ctx['gettext'] = translator(tr)
        if getattr(ld, 'front', None):
            r['a'] = tick()
            renders.append(r)
            return r, Page(ld, ts['main'], ctx, r, tick)
        cls = ld.load(ld.name(ts['main']) if isinstance(ld, site.Site) else ts['main'])
        r['a'] = tick()
        inst = cls(ctx)
        r['a2'] = tick()
        renders.append(r)
        return r, inst

    def handler(t, op):
        try:
            if op['op'] == 'default':
                with quietly(run.sim):
                    k.i18n.gettext = translator(op['tr'], False)
                    defaults.append((tick(), op['tr']))
                run.sim.record('default', tag=str(op['tr']))
                return
            r, inst = start(op, op['tr'], op['ld'], op['seed'], 'r%d' % op['id'])
            if op.get('nest'):
                n = [op['nest']]

                def extra(kind, kk):
                    n[0] -= 1
                    if n[0] == 0:
                        r2, i2 = start(op, 7, op['seed'] % len(loaders), op['seed'] + 1, 'r%dn' % op['id'])
                        r2['text'] = i2.render()
                        r2['b'] = tick()
                        langs[t.tid].pop()
                r['src'].extra = extra
            if op['how'] == 'wait':
                run.sim.point('op', 'op:wait')
            r['text'] = inst.render() if op['how'] == 'render' or isinstance(inst, Page) else ''.join(inst)
            r['b'] = tick()
            langs[t.tid].pop()
        except Exception as e:
            run.viol('render-failed', 'operation %d: %s' % (op['id'], common.exc_text(e)))

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    used = set()
    for r in renders:
        if 'text' in r:
            judge(run, r, during)
            used.add(r['own'])
    run.nontrivial = len(used) > 1 or len(defaults) > 1


class Page(object):
    """A page rendered by a framework: loaded and created at some moment of the call."""
    def __init__(self, s, name, ctx, r, tick):
        self.s, self.name, self.ctx, self.r, self.tick = s, name, ctx, r, tick

    def render(self):
        text = self.s.page(self.s.name(self.name), self.ctx)
        self.r['a2'] = self.tick()
        return text


def judge(run, r, during):
    ts, text = r['ts'], r['text']
    what = 'render %s (time %d-%d)' % (r['id'], r['a'], r['b'])
    m = gen.Model(ts, r['src'].log, lambda name: (lambda s: '\x00%s\x01%s\x02' % (name, s)))
    try:
        exp = m.run()
    except gen.Mismatch as e:
        run.viol('wrong-evaluation', '%s: %s' % (what, e))
        return
    chain = set()
    n = ts['main']
    while n:
        chain.add(n)
        n = ts['files'][n].get('extends')
    # what each part may be translated with
    new = during(r['a'], r['a2'])
    cand = dict((name, [r['own']] if r['own'] else new if name == ts['main'] else during(r['a'], r['b']))
                for name in ts['files'])
    tables = {}
    pos = [0]

    def take(plain, name=None):
        got = text[pos[0]:pos[0] + len(plain)]
        if name is None:
            if got != plain:
                run.viol('wrong-output', '%s: at %d got %r expected %r' % (what, pos[0], got[:80], plain[:80]))
                return False
        else:
            ok = [c for c in cand[name] if gen.caesar(c)(plain) == got]
            if not ok:
                run.viol('wrong-translator', '%s: %r of %s appears as %r; its translators: %s' % (
                    what, plain[:60], name, got[:60], cand[name]))
                return False
            if name in chain:
                cand[name] = ok         # one instance, one translator
        pos[0] += len(plain)
        return True
    done = 0
    for mo in SEG.finditer(exp):
        if not take(exp[done:mo.start()]) or not take(mo.group(2), mo.group(1)):
            return
        done = mo.end()
    if take(exp[done:]) and pos[0] != len(text):
        run.viol('wrong-output', '%s: more text than expected: %r' % (what, text[pos[0]:][:80]))
