# -*- coding: utf-8 -*-
"""C18: nothing of a finished render, and no replaced template, is kept."""
import collections
import gc
import io
import linecache
import sys
import threading
import types
import weakref

from .. import common, gen, loading, site, source
from ..core import quietly

ID = 'C18'
RUNS = {'quick': 1200, 'thorough': 10000}
RULE = ('a case is one simulated run: 1-2 template sets behind reloading or caching loaders, 1-3 threads rendering them '
        'completely, in part, with failures and interrupts, while files are touched, loaders are replaced and sources are '
        'compiled directly; then everything is let go of and collected; non-trivial when a render did not complete or a '
        'template was replaced')


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets, sites = [], []
    for _ in range(nsets):
        kind, f = rng.choice(('xml', 'xml', 'text')), {'gettext': rng.random() < .3}
        where = rng.choice(('file',) * 4 + ('package', 'pyramid'))
        if where == 'pyramid':
            kind, f['html'], f['doctype'] = 'xml', 0, 0
        sites.append([where, 'tg' if where == 'package' and rng.random() < .6 else loading.front(rng, where)])
        sets.append(gen.gen_set(rng, kind, f, size=rng.choice((5, 9, 14)), spread=10))
    ints = rng.random() < .25
    edits = rng.random() < .4
    seeds = [[rng.getrandbits(30) for _ in range(rng.choice((1, 2)))] for _ in sets]
    threads = []
    for t in range(rng.choice((1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            s = rng.randrange(nsets)
            if r < .5 or r < .9 and not edits:
                ops.append({'op': 'render', 'set': s, 'seed': rng.choice(seeds[s]),
                            'how': rng.choice(('all', 'page', 'iter', 'part', 'part', 'close')), 'n': rng.choice((1, 2, 5, 12)),
                            'tr': rng.random() < .3,
                            'faults': rng.choice(([], ['user_exc'], ['interrupt'] if ints else ['user_exc']))})
            elif r < .8:
                ops.append({'op': 'touch', 'set': s, 'name': rng.choice(sorted(sets[s]['files'])),
                            'bad': rng.random() < .2})
            elif r < .9:
                ops.append({'op': 'replace', 'set': s})
            else:
                ops.append({'op': 'compile', 'set': s, 'bad': rng.random() < .5})
        threads.append(ops)
    faults = {'user_exc': [rng.choice((1, 2, 4)), rng.choice((.03, .1, .3))]}
    if ints:
        faults['interrupt'] = [rng.choice((1, 2, 3)), 0]
    plan = {'scn': {'sets': sets, 'sites': sites, 'seeds': seeds, 'threads': common.number(threads), 'edits': edits,
                    'reload': [rng.random() < .75 for _ in sets]}}
    if rng.random() < .06:
        plan['scn']['churn'] = 1
    plan.update(common.policy(rng, faults=faults, int_gap=rng.choice((30, 150, 600)) if ints else 0, light=True))
    return plan


# (kajiki's own code that runs with the globals of an instance)
WARM = (('a.xml', '<a><b py:block="x">1</b><py:def function="f()">2</py:def></a>'), ('b.xml', '<py:extends href="a.xml"/>'),
        ('main.xml', '<py:extends href="b.xml"><b py:block="x">${parent_block()}${parent.f()}</b></py:extends>'))


class Mark(object):
    """A context value that no template mentions."""


class Tracked(source.Source):
    """Every value handed to the template is watched."""
    def __init__(self, watch, *a, **kw):
        source.Source.__init__(self, *a, **kw)
        self.watch = watch

    def wrap(self, v):
        v = source.Source.wrap(self, v)
        if isinstance(v, gen.Html) or type(v).__name__ == 'flattener':
            self.watch.append((weakref.ref(v), '%s: a value given to the template' % self.rid))
        return v

    def lazy(self, k, items):
        g = source.Source.lazy(self, k, items)
        self.watch.append((weakref.ref(g), '%s: an iterator given to the template' % self.rid))
        return g


def collect():
    gc.enable()                 # (or finalizers would not run)
    for _ in range(4):
        gc.collect()
    gc.disable()


def live_classes(kajiki):
    out, todo = [], [kajiki.template._Template]
    while todo:
        for c in todo.pop().__subclasses__():
            out.append(c)
            todo.append(c)
    return out


CHURN = (('base.xml', '<html><p py:strip="x" a="${x}b" py:attrs="dict(k=x)">$x</p><py:block name="b">1</py:block></html>'),
         ('part.xml', '<py:def function="g(k)">${k(1)}</py:def>'),
         ('main.xml', '<py:extends href="base.xml"><py:block name="b"><py:import href="part.xml" alias="p"/>'
                      '<py:call args="n" function="p.g(%caller)">$n<i py:for="i in range(2)" py:if="i" class="$i"/></py:call>'
                      '<py:switch test="x"><py:case value="1">&eacute;</py:case><py:else>t</py:else></py:switch>'
                      '<py:with vars="v=x">${v}</py:with>${literal("&lt;b&gt;")}</py:block></py:extends>'),
         ('main.txt', '{%def f(k)%}${k(1)}{%end%}{%call (n) f(%caller)%}$n{%end%}{%for i in range(2)%}$i $x{%end%}'))


def extent(kajiki, *more):
    """How much kajiki refers to: the sizes of all containers it can reach without leaving itself."""
    seen, total = set(), 0
    todo = [m.__dict__ for n, m in sorted(sys.modules.items()) if n.split('.')[0] == 'kajiki' and m is not None]
    todo += [linecache.cache, sys.modules] + list(more)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        t = type(x)
        if isinstance(x, (dict, list, tuple, set, frozenset, collections.deque)):
            total += len(x)
            if x is sys.modules or x is linecache.cache:
                continue
            for y in list(x.values()) + list(x) if isinstance(x, dict) else list(x):
                todo.append(y)
        if hasattr(x, 'cache_info'):
            total += x.cache_info().currsize
        if isinstance(x, types.FunctionType):
            if (x.__module__ or '').split('.')[0] == 'kajiki':
                todo += [x.__dict__, x.__defaults__ or ()]
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, type):
            if (x.__module__ or '').split('.')[0] == 'kajiki':
                todo += list(vars(x).values())
        elif isinstance(x, (classmethod, staticmethod)):
            todo.append(x.__func__)
        elif (t.__module__ or '').split('.')[0] == 'kajiki' or isinstance(x, (threading.local, types.SimpleNamespace)):
            todo.append(getattr(x, '__dict__', ()))
    return total


def churn(run, clock):
    """The same templates, reloaded and rendered again and again: does what is kept grow every time?"""
    kajiki = run.kajiki
    loader = kajiki.FileLoader(run.path('ch'))
    sizes = []
    for c in range(38):
        for name, text in CHURN:
            clock[0] += 10
            run.write_file('ch/' + name, text + ' ' * (c % 2), clock[0] * 10**9)
        for name in ('main.xml', 'main.txt'):
            cls = loader.load(name)
            cls(dict(x=c % 2)).render()
            it = iter(cls(dict(x=c % 2)))
            next(it)
            it.close()
            try:
                cls(dict(y=1)).render()     # (x is not defined)
            except NameError as e:
                e.__traceback__ = None
        kajiki.XMLTemplate(CHURN[0][1])(dict(x=c % 2)).render()
        list(kajiki.i18n.extract(io.BytesIO(CHURN[0][1].encode('utf-8')), (), (), {}))
        try:
            kajiki.XMLTemplate('<a><b></a>')
        except Exception as e:
            e.__traceback__ = None
        try:
            loader.load('nosuch.xml')
        except IOError as e:
            e.__traceback__ = None
        if c in (7, 17, 27, 37):
            cls = it = None
            collect()
            sizes.append(extent(kajiki, loader))
    run.sim.probe('churned')
    if sizes[0] < sizes[1] < sizes[2] < sizes[3]:
        run.viol('growth', 'after 7, 17, 27 and 37 rounds of loading and rendering the same templates kajiki refers to '
                 '%d, %d, %d and %d things' % tuple(sizes))


def execute(run):
    scn = run.scn
    sim = run.sim
    kajiki = run.kajiki
    watch = []
    loaders = {}
    clock = [1400000000]
    plain = []
    stat = {'partial': 0, 'replaced': 0}

    def fresh(si):
        kind, front = scn['sites'][si]
        ld = site.Site(run, kind, 1, scn['reload'][si], label='s%d_' % si, front=front)
        watch.append((weakref.ref(ld.loader), 'loader of set %d' % si))
        if front == 'tg':
            watch.append((weakref.ref(ld.plugin), 'plugin of set %d' % si))
        loaders[si] = ld

    for si, ts in enumerate(scn['sets']):
        fresh(si)
        plain.append(dict((n, s) for n, (s, _) in loaders[si].place(ts).items()))

    def render(t, op):
        ts = scn['sets'][op['set']]
        src = Tracked(watch, sim, kajiki, 'r%d' % op['id'], op['seed'], opts={'lit': True})
        mark = Mark()
        ctx = src.context(mark=mark)
        if op['tr']:
            ctx['gettext'] = lambda s, src=src: s
        watch.append((weakref.ref(src), 'r%d: the functions of its context' % op['id']))
        watch.append((weakref.ref(mark), 'r%d: a value of its context' % op['id']))
        try:
            ld = loaders[op['set']]
            if op['how'] == 'page':
                ld.page(ld.name(ts['main']), ctx)
            else:
                inst = ld.load(ld.name(ts['main']))(ctx)
                watch.append((weakref.ref(inst), 'r%d: the template instance' % op['id']))
            if op['how'] == 'all':
                inst.render()
            elif op['how'] != 'page':
                it = iter(inst)
                for j, _ in enumerate(it):
                    if j >= op['n'] and op['how'] != 'iter':
                        stat['partial'] += 1
                        break
                if op['how'] == 'close':
                    it.close()
        except BaseException as e:
            stat['partial'] += 1
            e.__traceback__ = None
        t.last_injected = None
        src.raised = None

    # PyPy keeps, in the code of a function, the globals it first ran with. So everything runs once beforehand with
    # the seeds used later on: the same code is reached, and what the interpreter keeps is that first render.
    for name, text in WARM:
        run.write_file('w/' + name, text)
    kajiki.FileLoader(run.path('w')).load('main.xml')().render()
    for si, ts in enumerate(scn['sets']):
        for seed in scn['seeds'][si]:
            src = source.Source(None, kajiki, 'first', seed)
            ld = loaders[si]
            ld.page(ld.name(ts['main']), src.context())
            ld.load(ld.name(ts['main']))(src.context()).render()
            del src, ld
    collect()
    old = list(map(weakref.ref, live_classes(kajiki)))

    def handler(t, op):
        kind, si = op['op'], op['set']
        ts = scn['sets'][si]
        xml = ts['files'][ts['main']]['kind'] == 'xml'
        if kind == 'render':
            render(t, op)
        elif kind == 'touch':
            clock[0] += 10
            text = plain[si][op['name']]
            if op['bad']:
                text = '<html><body>' if xml else '{%for x in (%}'
            stat['replaced'] += 1
            with quietly(sim):
                run.write_file(loaders[si].rel(op['name']), text, clock[0] * 10**9)
        elif kind == 'replace':
            stat['replaced'] += 1
            fresh(si)
        elif kind == 'compile':
            make = kajiki.XMLTemplate if xml else kajiki.TextTemplate
            try:
                make('<a>${u(1)}<b></a>' if xml else '{%for x in (%}') if op['bad'] else make(
                    '<a py:for="i in it(1)">${u(2)}</a>' if xml else '%for i in it(1)\n${u(2)}\n%end\n')
            except Exception as e:
                e.__traceback__ = None

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if sim.end != 'done':
        return
    run.nontrivial = stat['partial'] > 0 or stat['replaced'] > 0
    if scn.get('churn'):
        churn(run, clock)
    # all files are well-formed again and every name is imported once more
    keep = []
    for si, ts in enumerate(scn['sets']):
        clock[0] += 10
        for name in sorted(ts['files']):
            run.write_file(loaders[si].rel(name), plain[si][name], clock[0] * 10**9)
    for si, ts in enumerate(scn['sets']):
        for name in sorted(ts['files']):
            for kw in ({}, {'is_fragment': True}):
                try:
                    keep.append(loaders[si].loader.import_(loaders[si].name(name), **kw))
                except Exception as e:
                    run.viol('failed', 'import of %s at the end: %s' % (name, common.exc_text(e)))
                    return
    used = set(id(x.loader) for x in loaders.values())
    used.update(id(getattr(x, 'plugin', None)) for x in loaders.values())
    used.update(map(id, keep))
    del sim._scope_keep[:]
    sim._scope.clear()
    collect()
    if not scn['edits']:
        for ref, what in watch:
            x = ref()
            if x is not None and id(x) not in used:
                run.viol('kept-' + type(x).__name__.lower(), '%s is still reachable' % what)
                return
    used.update(id(c()) for c in old)
    for c in live_classes(kajiki):
        if id(c) not in used:
            run.viol('kept-class', 'a template class (%s) that no loader returns any more is still reachable' % (
                (c.filename or '?').replace(run.root, '')))
            return
