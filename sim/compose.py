# -*- coding: utf-8 -*-
"""Renders composed of several files (extends, includes, imports) while the files are replaced.

All versions of a file are the same template except for marks showing file and version;
without the marks the output must be what the reference interpreter says, and the marks
tell which version each part came from.
"""
import copy
import re

from . import common, gen, loading, site, source
from .core import quietly

MARK = re.compile(r'zq([a-z])(\d+)([bem])')
LETTER = {'main': 'm', 'mid': 'd', 'layout': 'l', 'inc': 'i', 'lib': 'f'}


def letter(name):
    return LETTER[name.split('.')[0]]


def marked(f, name, v):
    """The file with marks of version v in every part."""
    f = copy.deepcopy(f)
    c = letter(name)

    def node(what):
        return {'t': 'text', 's': 'zq%s%d%s' % (c, v, what)}

    def walk(x):
        if isinstance(x, dict):
            for val in x.values():
                walk(val)
            if x.get('t') in ('block', 'for', 'if') or ('name' in x and 'var' in x and 'ch' in x and 't' not in x):
                x['ch'].insert(0, node('m'))
                if x.get('else'):
                    x['else'].append(node('m'))
        elif isinstance(x, list):
            for val in x:
                walk(val)
    walk(f['ch'])
    walk(f['defs'])
    if not f.get('extends'):
        f['ch'].insert(0, node('b'))
        f['ch'].append(node('e'))
    return f


class World(object):
    def __init__(self, run, **opts):
        self.run = run
        scn = self.scn = run.scn
        s = scn['site']
        self.site = site.Site(run, s['kind'], s.get('ndirs', 1), s.get('reload', True), front=s.get('front'), **opts)
        self.loader = self.site.loader
        self.ts = scn['sets'][0]
        self.ver = dict((n, 0) for n in self.ts['files'])
        self.lastm = dict((n, site.BASE_NS) for n in self.ts['files'])
        self.renders = []
        self.held = {}
        for n in sorted(self.ts['files']):
            self.edit(n, ('=', site.BASE_NS))

    def source(self, name, v):
        f = marked(self.ts['files'][name], name, v)
        return gen.sources({'files': {name: f}}, href=self.site.name)[name][0]

    def edit(self, name, move):
        if name not in self.ver:
            return
        sign, ns = move
        m = self.lastm[name]
        m = m + ns if sign == '+' else m - ns if sign == '-' else ns
        self.lastm[name] = m
        with quietly(self.run.sim):
            self.ver[name] += 1
            self.site.put(name, self.source(name, self.ver[name]), self.ver[name], m)

    def render(self, t, op):
        """load + render; returns the record."""
        r = {'op': op, 'a': self.site.tick(), 'main_iv': None}
        r['src'] = src = source.Source(self.run.sim, self.run.kajiki, 'r%d' % op['id'], op['seed'], ())
        if op.get('extra'):
            src.extra = op_extra(self, op)
        self.renders.append(r)
        try:
            if op.get('page'):
                r['text'] = self.site.page(self.site.name(self.ts['main']), src.context())
            held = self.held.get(op.get('slot')) if op.get('held') else None
            if 'text' in r:
                pass
            elif held is None:
                a = self.site.tick()
                cls = self.site.load(self.site.name(self.ts['main']))
                held = (cls, (a, self.site.tick()))
                if 'slot' in op:
                    self.held[op['slot']] = held
            else:
                self.run.sim.probe('held-class')
            if 'text' not in r:
                cls, r['main_iv'] = held
                inst = cls(src.context())
                for move in op.get('again', ()):
                    r['text'] = ''.join(list(inst))
                    # the same instance once more
                    r['b'] = self.site.tick()
                    r['fired'] = list(t.fired)
                    r['src'] = copy.copy(src)
                    src.log = []
                    self.run.sim.probe('same-instance')
                    if move:
                        self.edit(*move)
                    r = {'op': op, 'a': self.site.tick(), 'main_iv': r['main_iv'], 'src': src}
                    self.renders.append(r)
                r['text'] = ''.join(list(inst))
        except BaseException as e:
            r['exc'] = e
            r['why'] = common.exc_text(e)
            e.__traceback__ = None
        r['b'] = self.site.tick()
        r['fired'] = list(t.fired)
        t.faults_allowed = ()
        self.run.sim.rearm()
        self.run.sim.record('render', tag='exc' if 'exc' in r else 'ok')
        return r

    # ------------------------------------------------------------ judging
    def judge(self, r):
        run = self.run
        what = 'render %d (time %d-%d)' % (r['op']['id'], r['a'], r['b'])
        if 'exc' in r:
            run.viol('render-failed', '%s: %s' % (what, r['why']))
            return
        plain = MARK.sub('', r['text'])
        if not common.judge_complete(run, what, self.ts, r['src'], plain):
            return
        seq = [(c, int(v), k) for c, v, k in MARK.findall(r['text'])]
        names = dict((letter(n), n) for n in self.ts['files'])
        inh = set()
        n = self.ts['main']
        while n:
            inh.add(letter(n))
            n = self.ts['files'][n].get('extends')
        single = set(inh)
        if len(inh) == 1:
            single.add('f')         # imported once, at the top of the page
        last = {}
        inside = None
        for c, v, k in seq:
            iv = (r['a'], r['b'])
            if c == 'm':
                iv = r['main_iv'] or iv
            ok = self.site.during(names[c], iv[0], iv[1])
            if v not in ok:
                run.viol('stale-part', '%s shows version %d of %s; on disk meanwhile: %s' % (what, v, names[c], ok))
                return
            if c in last and v < last[c]:
                run.viol('older-part', '%s shows version %d of %s after version %d' % (what, v, names[c], last[c]))
                return
            if c in last and v != last[c] and c in single:
                run.viol('mixed-versions', '%s mixes versions %d and %d of %s' % (what, last[c], v, names[c]))
                return
            if c == 'i':
                if k == 'b':
                    inside = v
                elif inside is not None and v != inside:
                    run.viol('mixed-versions', '%s mixes versions %d and %d in one inclusion of %s' % (
                        what, inside, v, names[c]))
                    return
                if k == 'e':
                    inside = None
            last[c] = v


def op_extra(world, op):
    """Loads (and perhaps renders) templates from inside the data source."""
    left = [op['extra']]

    def extra(kind, k):
        left[0] -= 1
        if left[0] == 0:
            world.run.sim.probe('load-in-render')
            n = sorted(world.ts['files'])[op['seed'] % len(world.ts['files'])]
            if letter(n) in 'if':
                world.loader.import_(world.site.name(n), is_fragment=True)
            else:
                world.loader.load(world.site.name(n))
    return extra


def gen_scene(rng, size=None, edits=True, hook=False):
    kind = rng.choice(('file', 'file', 'file', 'package', 'pyramid'))
    tk = 'xml' if kind == 'pyramid' else rng.choice(('xml', 'xml', 'text'))
    while True:
        f = {'p_include': .7, 'p_import': .5, 'p_extends': .6}
        if kind == 'pyramid':
            f['html'] = f['doctype'] = 0     # (the mode is an argument)
        ts = gen.gen_set(rng, tk, f, size=size or rng.choice((4, 8, 12)))
        if len(ts['files']) > 1:
            break
    names = sorted(ts['files'])
    threads = []
    fr = loading.front(rng, kind)

    def edit():
        return {'op': 'edit', 'name': rng.choice(names), 'move': loading.mtime_moves(rng)}

    def render():
        op = {'op': 'render', 'seed': rng.getrandbits(30)}
        if rng.random() < .3:
            op['slot'] = rng.randrange(2)
            op['held'] = rng.random() < .7
        if fr and rng.random() < .6:
            op['page'] = True
        elif rng.random() < .25:
            op['again'] = [rng.choice((None, [rng.choice(names), loading.mtime_moves(rng)])) if edits else None
                           for _ in range(rng.choice((1, 1, 2)))]
        if rng.random() < .2:
            op['extra'] = rng.randint(1, 5)
        return op
    if rng.random() < .4:
        ops = []
        for _ in range(rng.randint(2, 4)):
            ops += [edit(), render()] if edits else [render()]
        threads.append(ops)
    for _ in range(rng.choice((1, 2, 2, 3))):
        threads.append([render() for _ in range(rng.randint(1, 3))])
    if edits:
        for _ in range(rng.choice((1, 1, 2))):
            threads.append([edit() for _ in range(rng.randint(2, 6))])
    return {'site': {'kind': kind, 'front': fr}, 'sets': [ts], 'threads': threads}
