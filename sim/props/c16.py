# -*- coding: utf-8 -*-
"""C16: how bytes are delivered while a template is read does not change the template."""
import codecs
import gc
from xml.sax import expatreader

from .. import common, core, gen, source
from ..core import quietly

ID = 'C16'
RUNS = {'quick': 1200, 'thorough': 30000}
RULE = ('a case is one simulated run: generated templates with multi-byte characters (in several encodings), entities, CDATA sections, comments '
        'and long stretches of text (some beyond 64 KiB, some with CR LF line ends) are read through files that '
        'deliver 1 to 8192 bytes at a time, with injected short reads, and parsed with parser buffers of 1 byte to 64 '
        'KiB, by 1-3 threads; text and failing lines must be those of the reference interpreter; non-trivial when a '
        'read was cut or a buffer boundary fell inside the template')
ASSUMPTIONS = ['the buffer size of the SAX reader is changed through the default of its constructor']


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    sets = []
    k = [100000]
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'xml', 'text'))
        crlf = kind == 'xml' and rng.random() < .25
        f = {'wide': .5, 'markup': 2 * (rng.random() < .6)}
        if crlf:
            f['doctype'] = 0
        ts = gen.gen_set(rng, kind, f, size=rng.choice((4, 8, 14)), spread=rng.choice((5, 30)))
        if rng.random() < .15:
            # a long text somewhere
            name = rng.choice(sorted(ts['files']))
            ch = ts['files'][name]['ch']
            for _ in range(rng.choice((1, 2))):
                unit = rng.choice(('lorem ', u'\u20ac', 'a\n', u'x\U0001F600y ', 'q'))
                node = {'t': 'text', 's': unit * (rng.choice((9000, 66000, 70000) if rng.random() < .93 else (140000,)) // len(unit.encode('utf-8')) +
                                                  rng.randrange(40))}
                tgt = ch if not ts['files'][name].get('extends') else rng.choice(ch)['ch']
                tgt.insert(rng.randint(0, len(tgt)), node)
        elif rng.random() < .25:
            # a text of a few thousand characters with expressions in it
            name = rng.choice(sorted(ts['files']))
            ch = ts['files'][name]['ch']
            tgt = ch if not ts['files'][name].get('extends') else rng.choice(ch)['ch']
            at = rng.randint(0, len(tgt))
            unit = rng.choice(('lorem ', u'\u20ac', 'a\n', u'x\U0001F600y ', 'q', '\n'))
            new = []
            for _ in range(rng.choice((1, 2, 3, 8))):
                k[0] += 1
                new += [{'t': 'text', 's': unit * (rng.choice((5, 100, 600, 1200, 2500, 4200, 6000)) // len(unit))},
                        {'t': 'expr', 'k': k[0], 'form': rng.choice(('ml', 'deep', 'long', '')), 'len': 9}]
            tgt[at:at] = new
        ts['crlf'] = crlf
        ts['enc'] = rng.choice((None,) * 6 + ('utf-8', 'utf-16', 'utf-16-be', 'utf-32', 'gb18030', 'utf-8-sig'))
        sets.append(ts)
    size = max(len(s) for ts in sets for s, _ in gen.sources(ts).values())
    big = any(len(s) > 30000 for ts in sets for s, _ in gen.sources(ts).values())
    threads = []
    for t in range(rng.choice((1, 1, 2, 3)) if not big else rng.choice((1, 1, 2))):
        ops = []
        for _ in range(rng.randint(1, 3 if not big else 2)):
            ops.append({'op': 'load', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                        'via': rng.choice(('loader', 'loader', 'file', 'source')),
                        'faults': ['short'] + (['user_exc'] if rng.random() < .4 else [])})
        threads.append(ops)
    plan = {'scn': {'sets': sets, 'threads': common.number(threads),
                    'bufsize': rng.choice((0, 0, 1, 2, 3, 5, 7, 16, 33, 64, 100, 500, 1000, 4096))}}
    plan.update(common.policy(rng, faults={'short': [rng.choice((0, 3, 20)), .3], 'user_exc': [2, .1]}, light=True))
    plan['trace']['frac'] = rng.choice((0, 0, 0, 0, 0, 30)) if size < 8000 else 0
    plan['step_cap'] = 20000000
    plan['scn']['big'] = big
    if big:
        plan['trace']['frac'] = 0
        if plan['scn']['bufsize'] < 16:
            plan['scn']['bufsize'] = rng.choice((0, 100, 1000))
        if size > 100000:
            plan['scn']['bufsize'] = rng.choice((0, 4096, 10000))
        plan['read_chunk'] = rng.choice((0, 0, 1000, 4096, 8191, 8192))
    else:
        plan['read_chunk'] = rng.choice((0, 1, 1, 2, 3, 5, 17, 100, 1000))
    return plan


def execute(run):
    scn = run.scn
    k = run.kajiki
    init = expatreader.ExpatParser.__init__
    if scn['big']:
        gc.enable()             # (nothing here depends on when objects are reclaimed)
    if scn['bufsize']:
        init.__defaults__ = (init.__defaults__[0], scn['bufsize'])
    srcs = []
    biggest = 0
    for si, ts in enumerate(scn['sets']):
        codecs.lookup(ts['enc'] or 'utf-8')
        d = gen.sources(ts)
        for name in d:
            s = d[name][0]
            if ts['crlf']:
                s = s.replace('\n', '\r\n')
                d[name] = (s, d[name][1])
            biggest = max(biggest, len(s))
            run.write_file('s%d/%s' % (si, name), s.encode(ts['enc'] or 'utf-8'), 1400000000 * 10**9)
        srcs.append(d)
    renders = []

    def build(op):
        si = op['set']
        ts = scn['sets'][si]
        if op['via'] == 'loader':
            opts = {'encoding': ts['enc']} if ts['enc'] else {}
            return k.FileLoader(run.path('s%d' % si), **opts).load(ts['main'])
        mods = {}
        for name in sorted(ts['files']):
            f = ts['files'][name]
            args = {} if f['kind'] == 'text' or f['ext'] == 'xml' else {'mode': f['ext']}
            args['is_fragment'] = name.startswith(('inc', 'lib'))
            mk = k.TextTemplate if f['kind'] == 'text' else k.XMLTemplate
            args['filename'] = run.path('s%d/%s' % (si, name))
            if ts['enc']:
                args['encoding'] = ts['enc']
            if op['via'] == 'source':
                args['source'] = srcs[si][name][0]
            mods[name] = mk(**args)
        k.loader.MockLoader(mods)
        return mods[ts['main']]

    def frames(e):
        out = []
        tb = e.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(run.root):
                out.append((fn[len(run.root):], tb.tb_lineno))
            tb = tb.tb_next
        return out

    def handler(t, op):
        si = op['set']
        src = source.Source(run.sim, k, 'r%d' % op['id'], op['seed'], opts={'raising_str': False})
        r = {'op': op, 'src': src, 'text': []}
        try:
            cls = build(op)
            for c in cls(src.context()):
                r['text'].append(c)
            r['done'] = True
        except BaseException as e:
            r['exc'] = e
            r['frames'] = frames(e) + (frames(e.__cause__) if e.__cause__ is not None else [])
            e.__traceback__ = None
        renders.append(r)
        if scn['big']:
            gc.collect()
        t.faults_allowed = ()
        run.sim.rearm()

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    init.__defaults__ = (init.__defaults__[0], 2 ** 16 - 20)
    if run.sim.end != 'done':
        return
    run.nontrivial = bool(run.sim.fault_counts.get('short') or run.plan.get('read_chunk') or
                          biggest > (scn['bufsize'] or 65000))
    for r in renders:
        op, src = r['op'], r['src']
        si = op['set']
        ts = scn['sets'][si]
        what = 'render %d of set %d via %s' % (op['id'], si, op['via'])
        text = ''.join(r['text'])
        if r.get('done'):
            common.judge_complete(run, what, ts, src, text)
            continue
        if src.raised is None:
            run.viol('load-failed', '%s: %s' % (what, common.exc_text(r['exc'])))
            continue
        if not common.judge_partial(run, what, ts, src, text):
            continue
        for name, (_, lines) in srcs[si].items():
            if src.raised_k in lines:
                lo, hi = lines[src.raised_k]
                if not any(f == 's%d/%s' % (si, name) and lo <= n <= hi for f, n in r['frames']):
                    run.viol('wrong-line', '%s: line %d-%d of %s raised; template frames: %s' % (
                        what, lo, hi, name, r['frames']))
