# -*- coding: utf-8 -*-
"""The data source of one render: the context functions a generated template calls."""
from . import core, gen


class UserError(Exception):
    pass


class UserBase(BaseException):
    pass


EXC = (UserError, ValueError, KeyError, AttributeError, TypeError, IndexError, UserBase, KeyboardInterrupt,
       SystemExit, GeneratorExit, AssertionError, RuntimeError, OSError, NameError, UnicodeError, MemoryError,
       RecursionError, LookupError, ImportError, NotImplementedError, EOFError, SyntaxError, ZeroDivisionError,
       StopIteration,
       # those that code tends to catch come more often
       TypeError, TypeError, TypeError, AttributeError, AttributeError, AttributeError, KeyError, KeyError, ValueError,
       NameError, IndexError, UnicodeError, StopIteration, GeneratorExit)


# the ones that operations on values raise by themselves
LIKELY = (TypeError, AttributeError, KeyError, ValueError, UnicodeError, StopIteration)


def raising_attrs(exc, src, k):
    return {'data-a': 'a%d' % k, 'data-b': gen.RaisingStr(exc, src, k), 'data-c': 'c'}


def raising_pairs(exc, src, k):
    return [('data-a', gen.RaisingStr(exc, src, k)), ('data-b', 'b%d' % k)]


def raising_item(exc, src, k):
    return ['i%d' % k, gen.RaisingStr(exc, src, k), 'j']


RAISING = {'u': (gen.RaisingStr, gen.RaisingHtml), 'at': (gen.RaisingStr,),
           'ats': (gen.RaisingItems, raising_attrs, raising_pairs),
           'sw': (gen.RaisingEq,), 'cs': (gen.RaisingEq,), 'it': (gen.RaisingIter, raising_item)}


class Tested(object):
    """A condition that notices when its truth is tested."""
    def __init__(self, src, k, v):
        self.src, self.k, self.v = src, k, v

    def __bool__(self):
        src, k = self.src, self.k
        f = src.sim.point('user', 'user:bool', src.may_fail('bl')) if src.sim is not None else None
        if f is not None and f.kind == 'user_exc':
            exc = src.make_exc(f.arg, k)
            src.log.append(['bl', k, None, 'exc'])
            src.raised, src.raised_k = exc, k
            raise exc
        src.log.append(['bl', k, self.v])
        return self.v
    __nonzero__ = __bool__


def levels(seed, k, deep):
    """How deep a recursion goes."""
    rng = core.Random(core.derive(seed, 'rc', deep if deep > 1 else k))
    return rng.choice((8, 20, 40)) if deep and rng.random() < .12 else rng.choice((0, 1, 1, 2, 3))


class Dotted(object):
    """us.k7 is u(7)."""
    def __init__(self, get):
        self._get = get

    def __getattr__(self, name):
        return self._get(int(name[1:]))


class Source(object):
    """Logs every call; values are a function of (seed, place, n-th call of that place)."""

    def __init__(self, sim, kajiki, rid, seed, faults=('user_exc',), opts=None):
        self.sim = sim
        self.literal = kajiki.util.literal if hasattr(kajiki, 'util') else None
        self.rid = rid
        self.seed = seed
        self.log = []
        self.counts = {}
        self.raised = None          # the exception object raised to the template
        self.raised_k = None
        self.faults = faults
        self.opts = opts or {}
        self.extra = None           # hook(kind, k) called inside each evaluation
        self.lits = {}
        self.longs = 0
        self.dull = core.derive(seed, 'dull') % 9 == 0      # hardly any two values differ

    def rng(self, kind, k):
        n = self.counts.get((kind, k), 0)
        self.counts[(kind, k)] = n + 1
        return core.Random(core.derive(self.seed, kind, k, n)), '%s%s%dn%d' % (self.rid, kind, k, n)

    def visit(self, kind, k):
        """A scheduling point; may raise (fault 'user_exc')."""
        f = None
        if self.sim is not None:
            f = self.sim.point('user', 'user:' + kind, self.may_fail(kind))
        if self.extra is not None:
            self.extra(kind, k)
        if f is not None and f.kind == 'user_exc':
            exc = self.make_exc(f.arg, k)
            if kind in RAISING and f.arg % 3 <= (kind not in ('u', 'at')) and self.opts.get('raising_str', True):
                if f.arg % 4:
                    exc = LIKELY[(f.arg // 8) % len(LIKELY)]('boom %s %d' % (self.rid, k))
                v = RAISING[kind][(f.arg // 300) % len(RAISING[kind])](exc, self, k)
                self.log.append([kind, k, v])
                return v
            self.log.append([kind, k, None, 'exc'])
            self.raised, self.raised_k = exc, k
            raise exc
        return None

    def may_fail(self, kind):
        focus = self.opts.get('focus')
        return self.faults if not focus or kind in focus else ()

    def make_exc(self, arg, k):
        cls = EXC[(arg // 8) % len(EXC)]
        return cls('boom %s %d' % (self.rid, k))

    def wrap(self, v):
        if isinstance(v, gen.Lit):
            if self.opts.get('share_lits'):
                r = self.lits.get(v.s)
                if r is None:
                    r = self.lits[v.s] = self.literal(v.s)
                return r
            return self.literal(v.s)
        return v

    def u(self, k):
        r = self.visit('u', k)
        if r is not None:
            return r
        rng, tag = self.rng('u', k)
        v = gen.make_value(rng, tag, lit=self.opts.get('lit', True)) if not self.dull else rng.choice(('same', 'same', 'x<', 7))
        self.log.append(['u', k, v])
        return self.wrap(v)

    def c(self, k):
        self.visit('c', k)
        rng, tag = self.rng('c', k)
        v = rng.choice((True, False, 1, 0, '', 'x', None, [0], [], True, True))
        if rng.random() < .25:
            self.log.append(['c', k, gen.TESTED])
            return Tested(self, k, bool(v))
        self.log.append(['c', k, bool(v)])
        return v

    def it(self, k):
        r = self.visit('it', k)
        if r is not None:
            return r
        rng, tag = self.rng('it', k)
        n = rng.choice((0, 1, 2, 2, 3))
        if self.opts.get('long') and self.longs < 2 and rng.random() < .2:
            n = self.opts['long']
            self.longs += 1
        items = [gen.make_value(rng, '%si%d' % (tag, i), lit=self.opts.get('lit', True)) for i in range(n)]
        if rng.random() < .5:
            self.log.append(['it', k, items])
            return [self.wrap(v) for v in items]
        self.log.append(['it', k, gen.LAZY])
        return self.lazy(k, items)

    def lazy(self, k, items):
        for v in items + [gen.END]:
            f = self.sim.point('user', 'user:next', self.may_fail('nx')) if self.sim is not None else None
            if f is not None and f.kind == 'user_exc':
                exc = self.make_exc(f.arg, k)
                if isinstance(exc, StopIteration):
                    exc = UserError('boom')
                self.log.append(['nx', k, None, 'exc'])
                self.raised, self.raised_k = exc, k
                raise exc
            self.log.append(['nx', k, v])
            if v is not gen.END:
                yield self.wrap(v)

    def at(self, k):
        r = self.visit('at', k)
        if r is not None:
            return r
        rng, tag = self.rng('at', k)
        v = rng.choice((tag, tag + '<&>"', None, 7, 'e ' + tag, tag + u'\u20ac', '', 0, False, True)
                       + ((gen.Lit('<u>%s</u>' % tag), gen.Html(tag)) if self.opts.get('lit', True) else ()))
        self.log.append(['at', k, v])
        return self.wrap(v)

    def ats(self, k):
        r = self.visit('ats', k)
        if r is not None:
            return r
        rng, tag = self.rng('ats', k)
        d = {'data-a': rng.choice((tag, None, tag + '"<')), 'data-b': rng.choice((tag + '&', 3))}
        if rng.random() < .5:
            d['checked'] = rng.choice((True, False, True, False, 1, 0, 'yes', '', None, 1.0))
        if rng.random() < .2 and self.opts.get('lit', True):
            d['data-a'] = rng.choice((gen.Lit('<u>%s</u>' % tag), gen.Html(tag)))
        v = rng.choice((d, d, None, sorted(d.items(), key=lambda x: x[0])))
        self.log.append(['ats', k, v])
        return self.given(rng, v)

    def given(self, rng, v):
        """Attributes as a mapping, a list, an iterator or something live."""
        if v is None:
            return v
        v = [(a, self.wrap(b)) for a, b in v.items()] if hasattr(v, 'items') else [(a, self.wrap(b)) for a, b in v]
        how = rng.randrange(6)
        return iter(v) if how == 0 else gen.Live(v) if how == 1 else v if how == 2 else dict(v)

    def sw(self, k):
        r = self.visit('sw', k)
        if r is not None:
            return r
        rng, tag = self.rng('sw', k)
        v = rng.randrange(3)
        self.log.append(['sw', k, v])
        return v

    def cs(self, k):
        r = self.visit('cs', k)
        if r is not None:
            return r
        rng, tag = self.rng('cs', k)
        v = rng.randrange(3)
        self.log.append(['cs', k, v])
        return v

    def rc(self, k, level, deep):
        self.visit('rc', k)
        v = (level or 0) < levels(self.seed, k, deep)
        self.log.append(['rc', k, v])
        return v

    def context(self, **more):
        d = dict(rc=self.rc, u=self.u, us=Dotted(self.u), c=self.c, it=self.it, at=self.at, ats=self.ats, sw=self.sw, cs=self.cs)
        d.update(more)
        return d
