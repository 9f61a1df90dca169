# -*- coding: utf-8 -*-
"""Data sources whose values depend on nothing but (seed, place): the same objects on every call."""
from . import core, gen, source


class PureSource(source.Source):
    """Shared by any number of renders; keeps handing out the same objects."""

    def __init__(self, *a, **kw):
        source.Source.__init__(self, *a, **kw)
        self.log = None
        self.memo = {}
        self.fragile = False        # whether 'user_exc' faults apply (set per thread by the scenario)
        self.raised = {}            # thread -> the exception raised to its render

    def draw(self, kind, k):
        """The value of a place, as the model sees it."""
        rng = core.Random(core.derive(self.seed, kind, k))
        tag = '%s%s%d' % (self.rid, kind, k)
        if kind == 'u':
            return gen.make_value(rng, tag)
        if kind == 'c':
            return rng.choice((True, False, 1, 0, '', 'x', None, True))
        if kind == 'it':
            return [gen.make_value(rng, '%si%d' % (tag, i)) for i in range(rng.choice((0, 1, 2, 2, 3)))]
        if kind == 'at':
            return rng.choice((tag, tag + '<&>"', None, 7, 'e ' + tag, tag + u'\u20ac', '', 0, gen.Lit('<u>%s</u>' % tag)))
        if kind == 'ats':
            d = {'data-a': rng.choice((tag, None, tag + '"<')), 'data-b': rng.choice((tag + '&', 3))}
            if rng.random() < .5:
                d['checked'] = rng.choice((True, False, True, False, 1, 0, 'yes', '', None, 1.0))
            return rng.choice((d, d, None, [tuple(x) for x in sorted(d.items(), key=lambda x: x[0])]))
        return rng.randrange(3)     # sw, cs

    def value(self, kind, k):
        self.pure_visit(kind, k)
        key = (kind, k)
        if key not in self.memo:
            v = self.draw(kind, k)
            if kind == 'it':
                v = [self.wrap(x) for x in v]
            elif kind in ('u', 'at'):
                v = self.wrap(v)
            self.memo[key] = v
        return self.memo[key]

    def pure_visit(self, kind, k):
        f = self.sim.point('user', 'user:' + kind, ('user_exc',)) if self.sim is not None else None
        if f is not None and f.kind == 'user_exc':
            e = self.make_exc(f.arg, k)
            self.sim.current().last_injected = e
            raise e

    def rc(self, k, level, deep):
        self.pure_visit('rc', k)
        return (level or 0) < source.levels(self.seed, k, deep)

    def make_exc(self, arg, k):
        e = source.Source.make_exc(self, arg, k)
        return source.UserError('boom') if isinstance(e, StopIteration) else e

    def context(self, **more):
        d = {}
        for kind in ('u', 'c', 'it', 'at', 'ats', 'sw', 'cs'):
            d[kind] = (lambda kd: (lambda k: self.value(kd, k)))(kind)
        d['rc'] = self.rc
        d['us'] = source.Dotted(lambda k: self.value('u', k))
        d.update(more)
        return d


class PureModel(gen.Model):
    def __init__(self, tset, src, translate=None, **kw):
        gen.Model.__init__(self, tset, [], translate, **kw)
        self.src = src

    def need(self, kind, k):
        return self.src.draw(kind, k)

    def again(self, n, level):
        return level < source.levels(self.src.seed, n['k'], n['deep'])
