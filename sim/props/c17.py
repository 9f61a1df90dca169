# -*- coding: utf-8 -*-
"""C17: iterating a template streams it: nothing is evaluated ahead of what the consumer has been given."""
import gc

from .. import common, gen, source
from ..core import quietly

ID = 'C17'
RUNS = {'quick': 2600, 'thorough': 20000}
RULE = ('a case is one simulated run: 1-2 generated template sets, 1-3 threads that open, pull, pause, hand over, close, '
        'drop and finish streams while expressions fail at injected places; non-trivial when a stream was pulled in at '
        'least two instalments or was closed, dropped or failed half way')


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = [gen.gen_set(rng, rng.choice(('xml', 'xml', 'text')), {'gettext': rng.random() < .2},
                        size=rng.choice((5, 9, 14, 20)), spread=10) for _ in range(nsets)]
    nslots = rng.choice((1, 2, 3))
    threads = []
    for t in range(rng.choice((1, 1, 2, 3))):
        ops = []
        for _ in range(rng.randint(2, 6)):
            s = rng.randrange(nslots)
            r = rng.random()
            if r < .45:
                ops.append({'op': 'open', 'slot': s, 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                            'how': rng.choice(('iter', 'iter', 'late'))})
            for _ in range(rng.choice((0, 1, 2, 3))):
                ops.append({'op': 'step', 'slot': s, 'n': rng.choice((1, 1, 2, 3, 5, 10, 30))})
            r = rng.random()
            if r < .2:
                ops.append({'op': 'close', 'slot': s})
            elif r < .3:
                ops.append({'op': 'drop', 'slot': s})
            elif r < .6:
                ops.append({'op': 'finish', 'slot': s})
        threads.append(ops)
    long = rng.choice((120, 400, 1500)) if rng.random() < .03 else 0
    if long:
        # few streams, over many items
        sets = [gen.gen_set(rng, rng.choice(('xml', 'text')), {'more': ['for'] * 8, 'rec': 0}, size=4) for _ in sets]
        threads = [ops[:4] for ops in threads]
        for op in (op for ops in threads for op in ops if op['op'] == 'step'):
            op['n'] *= rng.choice((1, 10, 100))
    plan = {'scn': {'sets': sets, 'long': long, 'threads': common.number(threads), 'slots': nslots, 'reload': rng.random() < .5,
                    'drain': rng.random() < .8}}
    plan.update(common.policy(rng, faults=rng.choice((None, {'user_exc': [rng.choice((1, 2)), rng.choice((.01, .03, .1))]})), light=True))
    return plan


class Log(list):
    """The evaluations, each with what the consumer had been given by then."""
    def __init__(self, stream):
        list.__init__(self)
        self.stream = stream

    def append(self, e):
        self.stream.seen.append((self.stream.given, self.stream.state))
        list.append(self, e)


class Stream(object):
    def __init__(self, st, si, seed, rid):
        self.ts = st.scn['sets'][si]
        self.src = source.Source(st.run.sim, st.run.kajiki, rid, seed, opts={'long': st.scn['long']})
        self.src.log = Log(self)
        self.rid = rid
        self.text = []
        self.given = 0
        self.seen = []
        self.state = 'created'
        self.it = None
        self.done = False
        self.partly = 0
        self.end = None             # 'all', 'exc', 'closed', 'dropped'
        self.exc = None


class Slot(object):
    busy = False
    r = None


def execute(run):
    scn = run.scn
    sim = run.sim

    class st(object):
        pass
    st.run, st.scn = run, scn
    loaders = []
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9)
        loaders.append(run.kajiki.FileLoader(run.path('s%d' % si), reload=scn['reload']))
    slots = [Slot() for _ in range(scn['slots'])]
    streams = []

    def pull(r, n):
        if r.it is None:
            r.it = iter(r.inst)
        r.partly += 1
        r.state = 'pulled'
        try:
            for _ in range(n):
                piece = next(r.it)
                if not isinstance(piece, str):
                    run.viol('wrong-piece', '%s: a piece is not text but %r' % (r.rid, type(piece).__name__))
                    piece = str(piece)
                r.text.append(piece)
                r.given += len(piece)
        except StopIteration:
            r.done, r.end = True, 'all'
        except BaseException as e:
            e.__traceback__ = None
            r.done, r.end, r.exc = True, 'exc', e
        finally:
            r.state = 'paused'

    def handler(t, op):
        s = slots[op['slot']]
        if s.busy:
            return
        s.busy = True
        try:
            kind, r = op['op'], s.r
            if kind == 'open':
                r = Stream(st, op['set'], op['seed'], 'r%d' % op['id'])
                r.inst = loaders[op['set']].load(r.ts['main'])(r.src.context())
                if op['how'] == 'iter':
                    r.it = iter(r.inst)
                r.state = 'paused'
                streams.append(r)
                s.r = r
            elif r is None:
                pass
            elif r.done:
                if kind == 'step' and r.it is not None and r.end != 'dropped':
                    # (an exhausted, failed or closed stream stays so)
                    r.state = 'ended'
                    try:
                        more = next(r.it)
                        run.viol('revived', '%s: gives %r after its end (%s)' % (r.rid, more, r.end))
                    except StopIteration:
                        pass
            elif kind == 'close':
                if r.it is not None and hasattr(r.it, 'close'):
                    r.done, r.end, r.state = True, 'closed', 'closing'
                    sim.probe('closed')
                    r.it.close()
                    r.state = 'ended'
            elif kind == 'drop':
                r.done, r.end, r.state = True, 'dropped', 'dropped'
                sim.probe('dropped')
                with quietly(sim):
                    r.it = r.inst = None
                    gc.enable()
                    gc.collect()
                    gc.collect()
                    gc.disable()
            else:
                pull(r, op['n'] if kind == 'step' else 100000)
        except Exception as e:
            run.viol('failed', 'op %d %s: %s' % (op['id'], op['op'], common.exc_text(e)))
        finally:
            s.busy = False

    for ops in scn['threads']:
        run.spawn(ops, handler, faults=('user_exc',))
    run.go()
    if sim.end != 'done':
        return
    if scn['drain']:
        for r in streams:
            if not r.done:
                pull(r, 100000)
    run.nontrivial = any(r.partly > 1 or r.end in ('closed', 'dropped', 'exc') for r in streams)
    for r in streams:
        judge(run, r)


def judge(run, r):
    what = 'stream %s' % r.rid
    src = r.src
    if r.exc is not None:
        want = src.raised
        ok = r.exc is want or isinstance(want, StopIteration) and isinstance(r.exc, RuntimeError)
        if not ok:
            return run.viol('failed', '%s: %s' % (what, common.exc_text(r.exc)))
    for j, (given, state) in enumerate(r.seen):
        if state != 'pulled':
            return run.viol('evaluated-unasked', '%s: evaluation %d (%s(%s)) happened while it was %s' % (
                what, j, src.log[j][0], src.log[j][1], state))
    text = ''.join(r.text)
    if r.end == 'all':
        if not common.judge_complete(run, what, r.ts, src, text):
            return
    elif not common.judge_partial(run, what, r.ts, src, text):
        return
    m = gen.Model(r.ts, src.log)
    m.ahead = []
    m.run()
    for j, need in enumerate(m.ahead):
        if r.seen[j][0] < need:
            return run.viol('evaluated-ahead', '%s: evaluation %d (%s(%s)) happened when %d of the %d characters before '
                            'it had been delivered' % (what, j, src.log[j][0], src.log[j][1], r.seen[j][0], need))
