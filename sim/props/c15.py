# -*- coding: utf-8 -*-
"""C15: markup output stays well-formed while the data changes under the render."""
import re
import html.parser
import xml.parsers.expat

from .. import common, core, gen, source
from ..core import quietly

ID = 'C15'
RUNS = {'quick': 2000, 'thorough': 30000}
RULE = ('a case is one simulated run: generated XML pages rendered by 1-3 threads over data that changes under the '
        'render (values whose text is different on every conversion, conditions whose truth is different on every '
        'test, iterators, switching points inside each of them); the complete output is parsed with expat and the '
        'decoded elements, attributes and text are compared with those of the reference interpreter; non-trivial when '
        'a changing value or condition was used and the output has at least three elements')
ASSUMPTIONS = ['no value is marked as markup or contains characters that XML forbids; no script or style elements',
               'line breaks and tabs in attribute values are compared after XML normalisation']

TEXTS = (u'', u'<', u'&', u'"', u'>', u'&lt;', u'<b>', u"'", u']]>', u'<!--', u'a\nb', u'x\ty', u'\u20ac', u'</p>', u'&#',
         u'<![CDATA[', u'${1}', u'--', u'?>', u'<p a="', u'\U0001F600', u'a\xa0b', u'a\u2028b', u'a\x85b', u'a\rb',
         u'a\r\nb', u'&amp;', u'<>', u'""', u'&&')


class Sub(str):
    """A text that is not quite a str."""


class Shifty(object):
    """A value whose text changes with every conversion."""
    def __init__(self, sim, rng, tag):
        self.sim, self.rng, self.tag = sim, rng, tag
        self.shown = []

    def __str__(self):
        if self.sim is not None:
            self.sim.point('user', 'user:str')
        s = self.rng.choice(TEXTS) + self.tag + 'n%d' % len(self.shown) + self.rng.choice(TEXTS)
        self.shown.append(s)
        return s


class Flip(object):
    """A condition that changes every time it is tested."""
    def __init__(self, sim, first):
        self.sim = sim
        self.n = 0
        self.first = first

    def __bool__(self):
        if self.sim is not None:
            self.sim.point('user', 'user:bool')
        self.n += 1
        return self.first if self.n % 2 else not self.first

    __nonzero__ = __bool__


class LiveSource(source.Source):
    """The values of Source, some of them alive."""
    live = 0

    def __init__(self, *a, **kw):
        source.Source.__init__(self, *a, **kw)
        self.shifty = []

    def some(self, rng, tag, attr=False):
        r = rng.random()
        if r < .35:
            v = Shifty(self.sim, core.Random(rng.getrandbits(30)), tag)
            v.n = len(self.shifty)
            self.shifty.append(v)
            return v
        if r < .4:
            return Sub(rng.choice(TEXTS) + tag + rng.choice(TEXTS))
        if r < .8:
            return rng.choice(TEXTS) + tag + rng.choice(TEXTS)
        if r < .83:
            # long texts, their special characters late
            fill = 'long ' * (rng.choice((60, 260, 1100, 4200) if rng.random() < .95 else (70000,)) // 5)
            return fill + rng.choice(TEXTS) + tag + rng.choice(TEXTS)
        return rng.choice((None, 7, 1.5, True, 1, 1.0, 0, False, 0.0, gen.Num(1), gen.Num(0), ('<', 1), b'<&', [u'"'],
                           {'<': '&'}))

    def u(self, k):
        self.visit('u', k)
        rng, tag = self.rng('u', k)
        v = self.some(rng, tag)
        self.log.append(['u', k, v])
        return v

    def at(self, k):
        self.visit('at', k)
        rng, tag = self.rng('at', k)
        v = self.some(rng, tag)
        self.log.append(['at', k, v])
        return v

    def ats(self, k):
        self.visit('ats', k)
        rng, tag = self.rng('ats', k)
        v = {'data-a': self.some(rng, tag + 'x'), 'data-b': self.some(rng, tag + 'y')}
        if rng.random() < .4:
            v = [x for x in sorted(v.items(), key=lambda x: x[0])]
        self.log.append(['ats', k, v])
        return self.given(rng, v)

    def it(self, k):
        self.visit('it', k)
        rng, tag = self.rng('it', k)
        items = [self.some(rng, '%si%d' % (tag, i)) for i in range(rng.choice((0, 1, 2, 2, 3)))]
        if rng.random() < .5:
            self.log.append(['it', k, items])
            return items
        self.log.append(['it', k, gen.LAZY])
        return self.lazy(k, items)

    def c(self, k):
        self.visit('c', k)
        rng, tag = self.rng('c', k)
        v = rng.random() < .6
        self.log.append(['c', k, v])
        if rng.random() < .6:
            self.live += 1
            return Flip(self.sim, v)
        return rng.choice((True, 1, 'x', [0]) if v else (False, 0, '', None, []))


class Standin(object):
    """Stands for a Shifty in the reference interpreter."""
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return u'\ue000%d\ue001' % self.n


class Model(gen.Model):
    def called(self, text):
        return MARK.sub(lambda m: u'\ue000%s+\ue001' % m.group(1), text)    # (escaped once more)


def for_model(log):
    def conv(v):
        if isinstance(v, Shifty):
            return Standin(v.n)
        return v
    out = []
    for e in log:
        kind, k, v = e[:3]
        if kind == 'it' and v is not gen.LAZY:
            v = [conv(x) for x in v]
        elif kind == 'ats' and v is not None:
            v = [(a, conv(b)) for a, b in (v.items() if hasattr(v, 'items') else v)]
        else:
            v = conv(v)
        out.append([kind, k, v])
    return out


def events(text):
    """The document as an XML parser reports it."""
    out = []
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True

    def data(s):
        if out and out[-1][0] == 'text':
            out[-1][1] += s
        else:
            out.append(['text', s])
    p.StartElementHandler = lambda name, attrs: out.append(['start', name, sorted(attrs.items())])
    p.EndElementHandler = lambda name: out.append(['end', name])
    p.CharacterDataHandler = data
    p.CommentHandler = lambda s: out.append(['comment', s])
    p.Parse(text.encode('utf-8'), True)
    return out


class Reader(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.out = []

    def handle_starttag(self, tag, attrs):
        self.out.append(['start', tag, sorted((a, line_ends(v or '', True)) for a, v in attrs)])

    def handle_endtag(self, tag):
        self.out.append(['end', tag])

    def handle_data(self, s):
        if self.out and self.out[-1][0] == 'text':
            self.out[-1][1] += s
        else:
            self.out.append(['text', s])

    def handle_comment(self, s):
        self.out.append(['comment', s])

    def handle_decl(self, s):
        self.out.append(['comment', s])

    unknown_decl = handle_pi = handle_decl


def html_events(text):
    """The document as an HTML parser reports it."""
    p = Reader()
    p.feed(text)
    p.close()
    for e in p.out:
        if e[0] == 'text':
            e[1] = line_ends(e[1])
    return p.out


def line_ends(s, attr=False):
    s = re.sub('\r\n?', '\n', s)
    return re.sub('[\t\n]', ' ', s) if attr else s


MARK = re.compile(u'\ue000([0-9]+[+]*)\ue001')


def same(got, want, shifty, attr=False):
    """Whether a text is the expected one, marks standing for any text their object has shown."""
    parts = MARK.split(want)
    if len(parts) == 1:
        return got == want
    pat = re.escape(parts[0])
    for i in range(1, len(parts), 2):
        texts = shifty[int(parts[i].rstrip('+'))].shown
        for _ in range(parts[i].count('+')):
            texts = [gen.esc(t) for t in texts]
        texts = [line_ends(t, attr) for t in texts]
        pat += '(?:%s)' % '|'.join(re.escape(t) for t in texts) + re.escape(parts[i + 1])
    return re.match('(?s)' + pat + r'\Z', got) is not None


def generate(rng, i, tier):
    nsets = rng.choice((1, 1, 2))
    page = rng.random() < .25           # pages that are HTML
    sets = [gen.gen_set(rng, 'xml', {'script': 0, 'markup': rng.random() < .5, 'html': .8 * page, 'doctype': .4 * page,
                                     'gettext': rng.random() < .2},
                        size=rng.choice((6, 12, 18)), spread=10) for _ in range(nsets)]
    dense = rng.random() < .5           # many renders, switches at calls only
    threads = []
    for t in range(rng.choice((1, 2, 2, 3))):
        threads.append([{'op': 'render', 'set': rng.randrange(nsets), 'seed': rng.getrandbits(30),
                         'how': rng.choice(('render', 'iter'))} 
                        for _ in range(rng.randint(6, 14) if dense else rng.randint(1, 4))])
    plan = {'scn': {'sets': sets, 'threads': common.number(threads)}}
    plan.update(common.policy(rng, lines=not dense))
    return plan


def execute(run):
    scn = run.scn
    loaders = []
    for si, ts in enumerate(scn['sets']):
        common.place(run, ts, 's%d' % si, 1400000000 * 10**9)
        loaders.append(run.kajiki.FileLoader(run.path('s%d' % si)))
    renders = []

    def handler(t, op):
        ts = scn['sets'][op['set']]
        src = LiveSource(run.sim, run.kajiki, 'r%d' % op['id'], op['seed'], ())
        try:
            inst = loaders[op['set']].load(ts['main'])(src.context())
            text = inst.render() if op['how'] == 'render' else ''.join(inst)
            renders.append((op, ts, src, text))
        except Exception as e:
            run.viol('render-failed', 'render %d: %s' % (op['id'], common.exc_text(e)))

    for ops in scn['threads']:
        run.spawn(ops, handler)
    run.go()
    if run.sim.end != 'done':
        return
    run.nontrivial = False
    for op, ts, src, text in renders:
        what = 'render %d' % op['id']
        m = Model(ts, for_model(src.log))
        read = html_events if any(m.mode(f).startswith('html') for f in ts['files'].values()) else events
        try:
            got = read(text)
        except xml.parsers.expat.ExpatError as e:
            run.viol('ill-formed', '%s: %s in %r' % (what, e, text[max(0, e.offset - 100):][:300]))
            continue
        if (src.shifty or src.live) and sum(e[0] == 'start' for e in got) >= 3:
            run.nontrivial = True
        try:
            want = read(m.run())
        except gen.Mismatch as e:
            run.viol('wrong-evaluation', '%s: %s' % (what, e))
            continue
        for g, w in zip(got, want):
            ok = g[0] == w[0]
            if ok and g[0] in ('text', 'comment'):
                ok = same(g[1], w[1], src.shifty)
            elif ok and g[0] == 'end':
                ok = g == w
            elif ok:
                ok = g[1] == w[1] and [a for a, _ in g[2]] == [a for a, _ in w[2]] and all(
                    same(x, y, src.shifty, True) for (_, x), (_, y) in zip(g[2], w[2]))
            if not ok:
                run.viol('wrong-content', '%s: got %r expected %r' % (what, g, w))
                break
        else:
            if len(got) != len(want):
                run.viol('wrong-content', '%s: %d events, expected %d' % (what, len(got), len(want)))
