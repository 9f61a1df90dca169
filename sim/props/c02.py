# -*- coding: utf-8 -*-
"""C02: concurrent compilation gives the same templates as compiling alone."""
import gc
import io
import json
import os
import re
import select
import signal

from .. import common, core, gen, seams, source
from ..core import quietly

ID = 'C02'
RUNS = {'quick': 3000, 'thorough': 24000}
RULE = ('a case is one simulated run: 1-4 threads compile generated sources (from text, from files, through loaders; '
        'several template sets and option combinations; also malformed and mutilated sources, and compilations that '
        'an interrupt ends) in scheduled interleavings, with a random generator biased towards repeated values; '
        'well-formed sources are judged by the reference interpreter, the others by what a forked pristine process '
        'makes of them alone; non-trivial when at least three sources were compiled')
ASSUMPTIONS = ['interrupts arrive at lines of kajiki code']

BAD_XML = (
    '<html><p>x</html>', '<html>${1 +* 2}</html>', '<html>${u(1)</html>', '<html>&nosuchentity;</html>', '',
    '<html><py:if test="1 1">x</py:if></html>', '<html><?py def ?>x</html>', '<a/><b/>',
    '<html><py:switch test="1">text</py:switch></html>', '<html>text<py:else>x</py:else></html>',
    '<html>${"unclosed}</html>', '<html><p a="${1 + }"/></html>', '<html><p py:strip="(">x</p></html>',
    '<html py:autoblock="maybe">x</html>', '<html><py:def function="f(">x</py:def></html>',
    '<html>\n\n<p>\n<py:for each="x im y">z</py:for></p></html>', '<html>${u(1)}\n\n${]}</html>',
    '<html><![CDATA[ x </html>', '<html><b><![CDATA[a]]><![CDATA[b<</b></html>', '<html><!-- x </html>',
    '<html><script>a<b>c</b></script></html>', '<html><p a="<"/></html>', '<html><?py x </html>',
    '<html><py:def function="f()"><![CDATA[x]]>${1 +}</py:def></html>', '<html><py:block name="b"><i></py:block></html>',
    '<html><py:extends href="x"/><py:if test="1"><p></html>', '<html py:strip="1"><![CDATA[', '<html>$',
    '<html><py:include/></html>', '<html><py:with vars="a=">x</py:with></html>', '<!DOCTYPE html>\n<html>\n<b></html>')
BAD_TEXT = (
    '%if *\nx\n%end', '${1 +* 2}', '{%nosuch x%}', '${(]}', '%def f(', '{%py def%}x', '%switch 1\nx\n%end',
    'a\n%for x im y\nz\n%end\n', '%end', '{%if u(1)%}x', '${u(1)', '%call f(%caller)\nx\n%end',
    '%include\n', '\n\n${u(1}\n', '%def f()\n%if *\n%end\n%end', '{%def f()%}{%block a%}', '{%extends "x"%}{%nosuch%}',
    '{%switch 1%}{%case 1%}')
INSERT = ('<', '}', '${', '{%end%}', '\n%end\n', '"', '>', '&', '</p>', '<p>', ')', '\n', '%if 1\n', '<!--', ']]>', '$x')


# Small sources that differ in what the compiler has to keep apart.
HEADS = ('<!DOCTYPE html>', '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd">',
         '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
         '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1//EN" "http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd">',
         '<!DOCTYPE x SYSTEM "x.dtd">', '', '', '')
PARTS = ('<br/>', '<p/>', '<script>a &lt; b</script>', '<p py:strip="c(1)" a="${at(9)}">q</p>', '<i py:if="c(1)">y</i><i py:else="">n</i>',
         '<b py:for="i in it(1)">$i</b>', '<py:def function="f(a)">[$a]</py:def>${f(u(1))}', '<p py:attrs="{\'checked\': True, \'b\': 1}"/>',
         '<py:with vars="v=u(1)">$v</py:with>', '<![CDATA[<&]]>', '<!-- note -->', '<!--! hidden -->', '&eacute;&amp;', '${u(1)}\n${u(2)}',
         '<py:switch test="sw(1)"><py:case value="cs(1)">1</py:case><py:else>2</py:else></py:switch>', '<py:block name="b">z</py:block>',
         '<?py w = u(1) ?>$w', '<p py:content="u(1)"/>', '<p py:replace="u(1)"/>', '<input checked="checked" a="${None}"/>',
         '<py:def function="g(k)">${k(u(1))}</py:def><py:call args="n" function="g(%caller)">$n!</py:call>', ' text  here\n ',
         '\n  ', ' <p> a </p>\n', '&lt;i&gt; &amp; x', '<p t="&lt;&amp;">&lt;</p>', '<i>&gt;</i>&lt;')
TPARTS = ('{%if c(1)%}y{%else%}n{%end%}', '{%for i in it(1)%}$i,{%end%}', '{%def f(a)%}[$a]{%end%}${f(u(1))}', '{%py w = u(1)%}$w', '\\$x$$',
          '{%switch sw(1)%}{%case cs(1)%}1{%else%}2{%end%}', '{%block b%}z{%end%}', '${u(1)}\n${u(2)}', 'text\n', '\n%if c(1)\nyes\n%end\n',
          '\n%def h(a)\n<$a>\n%end\n${h(u(2))}', '{%def g(k)%}${k(u(1))}{%end%}{%call (n) g(%caller)%}$n!{%end%}')


WRAPS = ('<b py:strip="c(7)" a="${at(8)}">@</b>', '<b py:strip="c(7)">@</b>', '<py:if test="c(7)">@</py:if>',
         '<py:def function="w(k)">${k(u(7))}</py:def><py:call args="m" function="w(%caller)">@$m</py:call>',
         '<py:for each="j in it(7)"><u py:strip="c(8)" a="$j">@</u></py:for>', '<py:def function="q()">@</py:def>${q()}',
         '<py:switch test="sw(7)"><py:case value="cs(7)">@</py:case><py:else>@</py:else></py:switch>',
         '<script>@</script>', '<p a="${at(7)}" py:attrs="ats(8)">@</p>', '<py:with vars="v=u(7)">@$v</py:with>')
TWRAPS = ('{%if c(7)%}@{%else%}@{%end%}', '{%for j in it(7)%}@$j{%end%}', '{%def q()%}@{%end%}${q()}',
          '{%def w(k)%}${k(u(7))}{%end%}{%call (m) w(%caller)%}@$m{%end%}', '{%with v=u(7)%}@$v{%end%}')


def tiny(rng):
    text = rng.random() < .25
    parts = [rng.choice(TPARTS if text else PARTS) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.choice((0, 0, 1, 1, 2))):
        a = rng.randrange(len(parts))
        b = rng.randint(a, len(parts))
        parts[a:b] = [rng.choice(TWRAPS if text else WRAPS).replace('@', ''.join(parts[a:b]))]
    if text:
        return 'text', ''.join(parts)
    s = rng.choice(HEADS)
    return 'xml', '%s<html%s>%s</html>' % (s + '\n' * (s != ''), rng.choice(('', '', ' a="${at(9)}"', ' xml:lang="en"')), ''.join(parts))


def mutilate(rng, s):
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        a = rng.randrange(len(s) + 1)
        b = min(len(s), a + rng.choice((1, 1, 2, 5, 12)))
        r = rng.random()
        if r < .15:
            s = s[:a]
        elif r < .4:
            s = s[:a] + s[b:]
        elif r < .7:
            s = s[:a] + rng.choice(INSERT) + s[a:]
        else:
            c = rng.randrange(len(s) + 1)
            s = s[:c] + s[a:b] + s[c:]
    return s


def options(rng, kind):
    if kind == 'text':
        return {'autoescape': True} if rng.random() < .4 else {}
    o = {}
    if rng.random() < .4:
        o['mode'] = rng.choice(('xml', 'html', 'html5'))
    if rng.random() < .3:
        o['strip_text'] = True
    if rng.random() < .2:
        o['cdata_scripts'] = False
    if rng.random() < .2:
        o['is_fragment'] = True
    if rng.random() < .2:
        o['autoblocks'] = ['p', 'div']
    return o


def extractions(rng, odd):
    """Of some sources the messages are extracted instead."""
    if rng.random() < .35:
        for o in odd:
            if o['kind'] == 'xml' and rng.random() < .5:
                o['o']['strip_text'] = True
            elif o['kind'] == 'xml':
                o['x'] = rng.choice(({}, {'strip_text': True}, {'extract_python': True}, {'mode': 'html', 'is_fragment': True},
                                     {'strip_text': True, 'extract_python': True}))


def generate(rng, i, tier):
    nsets = rng.choice((1, 2, 2, 3))
    sets = []
    doctype = rng.choice((.2, .2, .8))
    burst = rng.random() < .45           # many small templates at once
    if burst:
        nsets, doctype = rng.choice((3, 4)), rng.choice((.4, .9))
    for _ in range(nsets):
        kind = rng.choice(('xml', 'xml', 'text'))
        f = {'markup': rng.random() < .4, 'doctype': doctype}
        if burst and rng.random() < .6:
            kind = 'xml'
            f.update(html=0, empty=.6)
        if rng.random() < .4:
            f.update(strip=.6, nattrs=(1, 2, 3))
        sets.append(gen.gen_set(rng, kind, f, size=rng.choice((2, 3) if burst else (3, 6, 10)), spread=10, compose=not burst))
    odd = []
    for _ in range(rng.choice((0, 1, 2, 3))):
        if rng.random() < .4:
            kind = rng.choice(('xml', 'xml', 'text'))
            s = rng.choice(BAD_XML if kind == 'xml' else BAD_TEXT)
        else:
            ts = rng.choice(sets)
            name = rng.choice(sorted(ts['files']))
            kind = ts['files'][name]['kind']
            s = gen.sources(ts)[name][0]
            if rng.random() < .7:
                s = mutilate(rng, s)
        odd.append({'kind': kind, 's': s, 'o': options(rng, kind), 'seed': rng.getrandbits(20)})
    if burst and rng.random() < .7:
        odd = []
        bad = rng.choice((0, 0, .3, .5))
        for _ in range(rng.choice((2, 3, 4, 6, 8))):
            kind, s = tiny(rng)
            if rng.random() < bad:
                s = mutilate(rng, s) if rng.random() < .3 else rng.choice(BAD_TEXT if kind == 'text' else BAD_XML)
            odd.append({'kind': kind, 's': s, 'o': options(rng, kind) if rng.random() < .4 else {}, 'seed': rng.getrandbits(20)})
        extractions(rng, odd)
        threads = [[{'op': 'odd', 'n': rng.randrange(len(odd))} for _ in range(rng.choice((3, 6, 12, 20)))]
                   for _ in range(rng.choice((1, 2, 3, 4) if bad else (2, 3, 4)))]
        plan = {'scn': {'sets': [], 'odd': odd, 'threads': common.number(threads)}}
        plan.update(common.policy(rng, light=True, fn=.9))
        return plan
    extractions(rng, odd)
    ints = not burst and rng.random() < .3
    threads = []
    for t in range(rng.choice((3, 4) if burst else (1, 2, 2, 3, 4))):
        ops = []
        for _ in range(rng.randint(5, 12) if burst else rng.randint(1, 4)):
            if odd and rng.random() < .4:
                op = {'op': 'odd', 'n': rng.randrange(len(odd))}
            else:
                op = {'op': 'set', 'set': rng.randrange(nsets), 'via': rng.choice(('direct', 'direct', 'file', 'loader')),
                      'seed': rng.getrandbits(30)}
            if ints and rng.random() < .4:
                op['faults'] = ['interrupt']
            ops.append(op)
        threads.append(ops)
    if rng.random() < .03:
        # one thread has compiled a lot before or in between
        ops = rng.choice(threads)
        ops.insert(rng.randint(0, len(ops)), {'op': 'grow', 'n': rng.choice((150, 600, 1300, 2600)),
                                              'strip': rng.random() < .3})
    plan = {'scn': {'sets': sets, 'odd': odd, 'threads': common.number(threads)}}
    faults, gap = None, 0
    if ints:
        faults = {'interrupt': [rng.choice((1, 2, 3)), 0]}
        gap = rng.choice((20, 200, 1000, 4000))
    plan.update(common.policy(rng, faults=faults, int_gap=gap, light=True, fn=.8 if burst else .4))
    if gap:
        plan['trace']['frac'] = 1000
    if rng.random() < .5:
        plan['rbias'] = rng.choice((30, 70, 90))
    return plan


NAMES = re.compile(r'\b_\w*\d\w*|_kj_\b')
ADDRESS = re.compile(r'0x[0-9a-f]+')


def norm(s):
    return ADDRESS.sub('0x', NAMES.sub('_kj_', s))


def messages(kajiki, o):
    """The messages that the Babel extractor finds."""
    return ['ok', norm(repr(list(kajiki.i18n.extract(io.BytesIO(o['s'].encode('utf-8')), ['_'], [], o['x']))))]


def compile_odd(kajiki, o):
    mk = kajiki.TextTemplate if o['kind'] == 'text' else kajiki.XMLTemplate
    return mk(o['s'], **o['o'])


def render_odd(kajiki, cls, o):
    src = source.Source(None, kajiki, 'o', o['seed'], ())
    return cls(src.context()).render()


def outcome(run, kajiki, o, quiet=None):
    """['ok', text] or ['exc', stage, type, message]"""
    stage = 'compile'
    try:
        if 'x' in o:
            return messages(kajiki, o)
        cls = compile_odd(kajiki, o)
        stage = 'render'
        return ['ok', norm(render_odd(kajiki, cls, o))]
    except Exception as e:
        return ['exc', stage, type(e).__name__, norm(str(e)) if stage == 'compile' else '']


def alone(run, o):
    """The outcome in a process that has compiled nothing yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(8)
            data = json.dumps(outcome(run, run.kajiki, o)).encode('utf-8')
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    seams._real['os_close'](w)
    data = b''
    while True:
        b = seams._real['os_read'](r, 65536)
        if not b:
            break
        data += b
    seams._real['os_close'](r)
    os.waitpid(pid, 0)
    return json.loads(data.decode('utf-8')) if data else None


def execute(run):
    scn = run.scn
    k = run.kajiki
    used = set(op['n'] for th in scn['threads'] for op in th if op['op'] == 'odd')
    expect = dict((n, alone(run, scn['odd'][n])) for n in used)
    srcs = [gen.sources(ts) for ts in scn['sets']]
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9)
    count = [0]
    kept = []

    def build(op, si):
        """Compiles every file of a set; returns the class of the page."""
        ts = scn['sets'][si]
        if op['via'] == 'loader':
            count[0] += len(ts['files'])
            ld = k.FileLoader(run.path('s%d' % si))
            for name in sorted(ts['files']):
                ld.import_(name, is_fragment=name.startswith(('inc', 'lib')))
            return ld.load(ts['main'])
        mods = {}
        for name in sorted(ts['files']):
            f = ts['files'][name]
            args = {} if f['kind'] == 'text' or f['ext'] == 'xml' else {'mode': f['ext']}
            args['is_fragment'] = name.startswith(('inc', 'lib'))
            mk = k.TextTemplate if f['kind'] == 'text' else k.XMLTemplate
            count[0] += 1
            if op['via'] == 'file':
                mods[name] = mk(filename=run.path('s%d/%s' % (si, name)), **args)
            else:
                mods[name] = mk(srcs[si][name][0], **args)
        k.loader.MockLoader(mods)
        return mods[ts['main']]

    def show(op, cls, rid, seed):
        ts = scn['sets'][op['set']]
        src = source.Source(None, k, rid, seed, ())
        try:
            text = cls(src.context()).render()
        except Exception as e:
            run.viol('render-failed', 'operation %d, set %d: %s' % (op['id'], op['set'], common.exc_text(e)))
            return
        common.judge_complete(run, 'operation %d, set %d' % (op['id'], op['set']), ts, src, text)

    def grow(op):
        a = ' py:strip="0"' if op['strip'] else ''
        count[0] += 1
        gc.enable()             # (nothing here depends on when objects are reclaimed)
        with quietly(run.sim):
            cls = k.XMLTemplate('<div>%s</div>' % ''.join('<p%s a="$x" b="%d"/>' % (a, j) for j in range(op['n'])))
            got = cls({'x': 7}).render()
        gc.disable()
        want = '<div>%s</div>' % ''.join('<p a="7" b="%d"/>' % j for j in range(op['n']))
        run.sim.record('grown', tag=str(op['n']))
        if got != want:
            j = common.first_diff(got, want)
            run.viol('wrong-output', 'operation %d, %d tags: at %d got %s expected %s' % (
                op['id'], op['n'], j, common.cut(got, j), common.cut(want, j)))

    def handler(t, op):
        t.last_injected = None
        try:
            if op['op'] == 'grow':
                grow(op)
                return
            if op['op'] == 'odd':
                o = scn['odd'][op['n']]
                want = expect[op['n']]
                if want is None:
                    return
                count[0] += 1
                try:
                    if 'x' in o:
                        run.sim.probe('extracted')
                        got = messages(k, o)
                    else:
                        cls = compile_odd(k, o)
                except Exception as e:
                    if e is t.last_injected:
                        raise
                    got = ['exc', 'compile', type(e).__name__, norm(str(e))]
                else:
                    with quietly(run.sim):
                        try:
                            got = got if 'x' in o else ['ok', norm(render_odd(k, cls, o))]
                        except Exception as e:
                            got = ['exc', 'render', type(e).__name__, '']
                run.sim.record('odd', tag='%s %s' % (op['n'], got[0]))
                run.sim.probe('odd-' + got[0])
                if got != want and t.last_injected is None:
                    run.viol('other-outcome', 'operation %d compiles %r (%s %r): got %s, alone %s' % (
                        op['id'], o['s'][:300], o['kind'], o['o'], str(got)[:500], str(want)[:500]))
                return
            cls = build(op, op['set'])
            run.sim.record('built', tag=str(op['set']))
            if t.last_injected is not None:
                return          # (caught by code that handles any exception)
            with quietly(run.sim):
                for n in range(3):
                    show(op, cls, 'c%d.%d' % (op['id'], n), op['seed'] + n)
                kept.append((op, cls))
        except BaseException as e:
            e.__traceback__ = None
            if t.last_injected is None:
                run.viol('compile-failed', 'operation %d %s: %s' % (
                    op['id'], 'set %d' % op['set'] if 'set' in op else '', common.exc_text(e)))
            else:
                run.sim.probe('interrupted')
        t.faults_allowed = ()
        run.sim.rearm()

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = count[0] >= 3
    for op, cls in kept:
        show(op, cls, 'e%d' % op['id'], op['seed'] + 3)
