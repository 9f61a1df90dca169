# -*- coding: utf-8 -*-
"""Generated template sets: a JSON tree, its source text, and a reference interpreter.

Template code calls functions of the render context, each call carrying the number
of its place in the template: u(k) a value, c(k) a condition, it(k) an iterable,
at(k) an attribute value, ats(k) a dict of attributes, sw(k)/cs(k) switch subjects
and cases.  The context logs every call and what it returned; the interpreter walks
the tree, consuming that log, and so knows the only text the render may produce.
"""
import os
import json

WORDS = ('alpha', 'bravo', 'carol', 'delta', 'echo', 'fox', 'golf', 'hotel', 'india', 'jul',
         'kilo', 'lima', 'mike', 'nov', 'oscar', 'papa', 'queb', 'rom', 'sierra', 'tango')
WIDE = (u'\u20ac', u'\xe9t\xe9', u'\U0001F600', u'\u65e5\u672c', u'\u0416', u'\u2028', u'\x85')
WIDE_TEXT = WIDE + (u'\x0c', u'\x1c', u'\x0b')
TAGS = ('div', 'p', 'span', 'b', 'ul', 'li', 'em', 'td', 'if', 'block')
VOID_TAGS = ('br', 'hr', 'img')            # (in HTML these have no end tag)
BLANKS = (None, '', '\n', '  ', '\n  \n\t')       # (before a directive on its own line)
EMPTY_TAGS = TAGS[:3] + VOID_TAGS


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def caesar(shift):
    """A translator that commutes with concatenation: where text is cut does not matter."""
    table = dict((97 + i, 97 + (i + shift) % 26) for i in range(26))

    def translate(s):
        return s.translate(table)
    return translate


# ---------------------------------------------------------------- generation
class Gen(object):
    def __init__(self, rng, kind='xml', features=None, size=10, depth=4, first=1, spread=0):
        self.rng = rng
        self.kind = kind
        self.k = first
        self.f = features or {}
        self.size = size
        self.depth = depth
        self.spread = spread        # chance (0..100) of line breaks in text
        self.nvar = 0
        self.inif = 0
        self.indef = 0
        self.frame = []             # variables of the function being generated (py:with may rebind them)
        self.defs = []              # [name, body] of functions already generated

    def nk(self):
        self.k += 1
        return self.k

    def has(self, name, default=1):
        return self.rng.random() < self.f.get(name, default)

    def words(self, lo=1, hi=3):
        rng = self.rng
        out = []
        for i in range(rng.randint(lo, hi)):
            if i or rng.random() < 0.3:
                out.append('\n' * rng.randint(1, 3) if rng.randrange(100) < self.spread else ' ')
            out.append(rng.choice(WORDS))
            if self.f.get('wide') and rng.random() < self.f['wide']:
                out.append(rng.choice(WIDE if self.kind == 'xml' else WIDE_TEXT))
        if rng.randrange(100) < self.spread:
            out.append('\n' * (rng.randint(1, 4) if rng.random() < .93 else rng.randint(120, 300)))
        return ''.join(out)

    def text(self):
        n = {'t': 'text', 's': self.words()}
        return n

    def expr(self, scope):
        rng = self.rng
        r = rng.random()
        if scope and r < 0.3:
            return {'t': 'var', 'name': rng.choice(scope), 'form': rng.choice(('brace', 'bare'))}
        if r < 0.38 and self.f.get('gettext'):
            return {'t': 'msg', 's': rng.choice(WORDS)}
        n = {'t': 'expr', 'k': self.nk()}
        if self.kind == 'xml' and r < 0.48:
            n['form'] = 'replace'
        elif r < 0.58 and self.f.get('multiline', 1):
            n['form'] = 'ml'
        elif r < 0.66:
            n['form'] = 'deep'
        elif rng.random() < self.f.get('long', .015):
            n['form'] = 'long'
            n['len'] = rng.choice((25, 45, 60, 90, 140, 260))
        elif rng.random() < self.f.get('forms', .25):
            n['form'] = rng.choice(('defined', 'undefined', 'value_of', 'default', 'mod', 'lambda', 'dot', 'blank')
                                   + (('replattr', 'lead') if self.kind == 'xml' else ()))
        return n

    def body(self, scope, depth, top=False):
        rng = self.rng
        n = rng.randint(1, 3)
        if top:
            n = max(2, min(6, self.size // 3))
        out = []
        for _ in range(n):
            out.append(self.node(scope, depth))
        # a body must contain something that generates code
        if not any(x['t'] in ('text', 'expr', 'el', 'var', 'msg', 'call', 'for', 'if') for x in out):
            out.append(self.expr(scope))
        return out

    def attrs(self, scope):
        rng = self.rng
        res = {}
        for name in rng.sample(('class', 'id', 'title', 'href', 'alt', 'lang', 'checked'),
                               rng.choice(self.f.get('nattrs', (0, 0, 1, 2, 3)))):
            parts = []
            for _ in range(rng.randint(0, 3)):
                r = rng.random()
                if r < .3:
                    parts.append({'t': 'text', 's': rng.choice(WORDS)})
                    if rng.random() < .1:
                        parts[-1]['s'] = ' '.join(rng.choice(WORDS) for _ in range(rng.choice((12, 30, 60, 200))))
                elif r < .4 and scope:
                    parts.append({'t': 'var', 'name': rng.choice(scope), 'form': 'brace'})
                elif r < .5 and any(not d.get('caller') for d in self.defs) and self.f.get('attrcall', 1):
                    parts.append({'t': 'call', 'k': self.nk(),
                                  'name': rng.choice([d for d in self.defs if not d.get('caller')])['name']})
                else:
                    parts.append({'t': 'attr', 'k': self.nk()})
            res[name] = parts
        return res

    def var(self):
        self.nvar += 1
        return '%s%d_%d' % (self.rng.choice('vvwxab'), self.nvar, self.k)

    def node(self, scope, depth):
        rng = self.rng
        self.size -= 1
        if self.size <= 0 or depth <= 0:
            return self.expr(scope) if rng.random() < .6 else self.text()
        xml = self.kind == 'xml'
        choices = ['text', 'expr', 'expr', 'if', 'for', 'switch']
        if xml:
            choices += ['el', 'el', 'el', 'with', 'pycode']
        else:
            choices += ['pycode']
        if self.defs:
            choices += ['call', 'call']
            if any(d.get('caller') for d in self.defs):
                choices += ['pycall', 'pycall']
        for n in self.f.get('include', ()):
            choices += ['inc:' + n]
        if xml and self.f.get('script', 1) and rng.random() < .3:
            choices += ['script']
        if xml and self.f.get('markup', 0):
            choices += ['cdata', 'entity', 'comment']
            if self.f['markup'] > 1:
                choices += ['cdx']
        if rng.random() < self.f.get('forms', .25):
            choices += ['lit', 'dirs', 'dirs', 'dirs', 'nop'] if xml else ['lit', 'join', 'esc']
            choices += ['dollar']
            if self.indef:
                choices += ['idef', 'idef']
        choices += self.f.get('more', ())
        t = rng.choice(choices)
        if t == 'text':
            return self.text()
        if t == 'expr':
            return self.expr(scope)
        if t == 'lit':
            return {'t': 'lit', 's': rng.choice(('a"b', '"', 'lit', u'\u20ac"')), 'f': rng.choice(('Markup', 'literal'))}
        if t == 'dollar':
            return {'t': 'dollar', 's': rng.choice(('', '$', '{', 'alpha'))}
        if t == 'join':
            return {'t': 'join'}
        if t == 'esc':
            return {'t': 'esc', 's': rng.choice('\\ab%{')}
        if t == 'nop':
            return {'t': 'nop', 'ch': self.body(scope, depth - 1)}
        if t == 'dirs':
            # several directives on one tag
            n = {'t': 'dirs', 'tag': rng.choice(TAGS), 'order': rng.sample(('for', 'if', 'with', 'strip'), 4)}
            new = []
            for d in rng.sample(('for', 'if', 'with', 'strip'), rng.choice((1, 2, 2, 3, 4))):
                n[d] = self.nk()
                if d in ('for', 'with'):
                    n[d + 'var'] = v = self.var()
                    new.append(v)
            self.frame += new
            self.inif += 1
            n['ch'] = self.body(scope + new, depth - 1)
            self.inif -= 1
            for x in new:
                self.frame.remove(x)
            return n
        if t == 'idef':
            v = self.var()
            save, self.frame = self.frame, [v]
            n = {'t': 'idef', 'name': 'i' + v, 'var': v, 'ch': self.body(scope + [v], depth - 1), 'k': self.nk()}
            self.frame = save
            self.shape(n)
            if rng.random() < .5:
                n['k2'] = self.nk()
            return n
        if t == 'if':
            # (text templates: an else inside an if or a case binds to the outer one)
            self.inif += 1
            n = {'t': 'if', 'k': self.nk(), 'ch': self.body(scope, depth - 1)}
            self.inif -= 1
            if rng.random() < .4 and (xml or not self.inif):
                n['else'] = self.body(scope, depth - 1)
            if xml and rng.random() < .3:
                n['attr'] = rng.choice(TAGS)
            self.shape(n)
            return n
        if t == 'for':
            v = self.var()
            self.frame.append(v)
            n = {'t': 'for', 'k': self.nk(), 'var': v, 'ch': self.body(scope + [v], depth - 1)}
            self.frame.remove(v)
            if xml and rng.random() < .3:
                n['attr'] = rng.choice(TAGS)
            self.shape(n)
            if rng.random() < .2:
                n['enum'] = 1
            return n
        if t == 'with':
            cand = [x for x in scope if x in self.frame]
            if cand and rng.random() < .6:
                v = rng.choice(cand)
                return {'t': 'with', 'k': self.nk(), 'var': v, 'ch': self.body(scope, depth - 1)}
            v = self.var()
            n = {'t': 'with', 'k': self.nk(), 'var': v}
            new = [v]
            if rng.random() < .3:
                n['k2'], n['var2'] = self.nk(), self.var()
                new.append(n['var2'])
            self.frame += new
            n['ch'] = self.body(scope + new, depth - 1)
            for x in new:
                self.frame.remove(x)
            return n
        if t == 'pycode':
            v = self.var()
            self.frame.append(v)
            n = {'t': 'py', 'k': self.nk(), 'var': v, 'ch': self.body(scope + [v], depth - 1)}
            self.frame.remove(v)
            self.shape(n)
            if rng.random() < .25:
                n['more'] = 1
            return n
        if t == 'switch':
            n = {'t': 'switch', 'k': self.nk(), 'cases': []}
            self.inif += 1
            for _ in range(rng.randint(1, 3)):
                n['cases'].append({'k': self.nk(), 'ch': self.body(scope, depth - 1)})
                if xml and rng.random() < .2:
                    n['cases'][-1]['attr'] = rng.choice(TAGS)
            self.inif -= 1
            if xml and rng.random() < .5:
                n['else'] = self.body(scope, depth - 1)
            self.shape(n)
            return n
        if t == 'call':
            d = rng.choice([d for d in self.defs if not d.get('caller')] or [None])
            if d is None:
                return self.expr(scope)
            n = {'t': 'call', 'name': d['name'], 'k': self.nk()}
            if self.f.get('own') and rng.random() < .3:
                n['via'] = rng.choice(('local.', 'self.'))
            return n
        if t == 'pycall':
            d = rng.choice([d for d in self.defs if d.get('caller')])
            v = self.var()
            save, self.frame = self.frame, [v]
            n = {'t': 'pycall', 'name': d['name'], 'var': v, 'ch': self.body(scope + [v], depth - 1)}
            self.frame = save
            if xml and rng.random() < .3:
                n['attr'] = rng.choice(TAGS)
            self.shape(n)
            return n
        if t.startswith('inc:'):
            return self.shape({'t': 'include', 'href': t[4:]})
        if t == 'script':
            return {'t': 'el', 'tag': rng.choice(('script', 'style')), 'attrs': {},
                    'ch': [{'t': 'text', 's': self.words()}, {'t': 'expr', 'k': self.nk()}]}
        if t == 'entity':
            return {'t': 'entity', 'e': rng.choice(('&amp;', '&lt;', '&gt;', '&eacute;', '&nbsp;', '&#8364;',
                                                    '&#x41;', '&quot;'))}
        if t == 'cdx':
            return {'t': 'cdx', 'ch': [self.text(), {'t': 'expr', 'k': self.nk()}, self.text()]}
        if t == 'cdata':
            s = rng.choice(('a<b&c', 'x>y', '<i>', 'plain', u'\u20ac uro'))
            if rng.randrange(100) < self.spread:
                s += '\n' * rng.randint(1, 5) + rng.choice(('', 'more', 'end\n'))
            return {'t': 'cdata', 's': s}
        if t == 'comment':
            s = rng.choice(('note', '! hidden', u'caf\u00e9'))
            if rng.randrange(100) < self.spread:
                s += '\n' * rng.randint(1, 5) + rng.choice(('', 'more', 'end\n'))
            return {'t': 'comment', 's': s}
        n = {'t': 'el', 'tag': rng.choice(TAGS), 'attrs': self.attrs(scope)}
        r = rng.random()
        if r < self.f.get('strip', .2):
            n['strip'] = self.nk()
        elif r < self.f.get('strip', .2) * 1.15:
            n['bare'] = 1
        if rng.random() < self.f.get('pyattrs', .2):
            n['pyattrs'] = self.nk()
            fs = [d for d in self.defs if not d.get('caller')]
            if fs and self.f.get('attrcall', 1) and rng.random() < .25:
                n['fattr'] = {'k': n.pop('pyattrs'), 'name': rng.choice(fs)['name']}
        if rng.random() < .15:
            n['content'] = self.nk()
            n['ch'] = []
        elif rng.random() < self.f.get('empty', .1) and 'strip' not in n and 'bare' not in n:
            n['ch'] = []
            n['tag'] = rng.choice(EMPTY_TAGS)
        else:
            n['ch'] = self.body(scope, depth - 1)
        return n

    def shape(self, n):
        """The way a directive is written in a text template."""
        if self.kind != 'xml':
            r = self.rng.random()
            if r < .4:
                n['line'] = self.rng.choice((1, 1, 1, 2, 3, 4))
                if self.rng.random() < .2:
                    n['ljust'] = 1
            elif r < .48:
                n['trim'] = 1
        return n

    def recurse(self, d):
        """Lets a function call itself, somewhere in its body."""
        places = []

        def find(ch, loops, inner):
            places.append((ch, loops, inner))
            for x in ch:
                t = x['t']
                if t in ('if', 'for', 'with', 'py', 'nop', 'dirs', 'pycall') or t == 'el' and x['ch'] and (
                        x['tag'] not in ('script', 'style')):
                    find(x['ch'], loops or t in ('for', 'pycall') or t == 'dirs' and bool(x.get('for')), inner or t == 'pycall')
                if t in ('if', 'switch') and 'else' in x:
                    find(x['else'], loops, inner)
                for c in x.get('cases', ()):
                    find(c['ch'], loops, inner)
        find(d['ch'], False, False)
        ch, loops, inner = self.rng.choice(places)
        both = []
        if self.kind == 'xml' and not inner and self.rng.random() < .5:
            # rebinds the argument around the call
            ch.append({'t': 'with', 'k': self.nk(), 'var': d['var'], 'ch': []})
            after, ch = ch, ch[-1]['ch']
            after.append({'t': 'var', 'name': d['var'], 'form': 'brace'})
        elif self.rng.random() < .4:
            # inside a switch
            n = self.shape({'t': 'switch', 'k': self.nk(), 'cases': [{'k': self.nk(), 'ch': [self.text()]}]})
            ch.append(n)
            if self.kind == 'xml':
                ch = n['else'] = [self.text()]
                both.append(n['cases'][0]['ch'])
            else:
                ch = n['cases'][0]['ch']
        d['dflt'] = d['rec'] = 1
        key = 0
        for c in both + [ch]:
            r = {'t': 'rec', 'name': d['name'], 'k': self.nk(), 'k2': self.nk(), 'deep': key if key and not loops else 0 if loops else 1}
            key = r['k']
            c.insert(self.rng.randint(0, len(c)), r)

    def functions(self, n, prefix='f'):
        out = []
        for i in range(n):
            name = '%s%d_%d' % (prefix, i, self.k)
            v = 'a%d_%d' % (i, self.k)
            d = {'name': name, 'var': v}
            if self.rng.random() < .3:
                d['caller'] = True
                d['ch'] = [self.text(), {'t': 'callback', 'k': self.nk(), 'var': v}] + self.body([], 1)
                if self.rng.random() < .4:
                    d['ch'].append({'t': 'callback', 'k': self.nk(), 'var': v})
            else:
                save = self.size
                self.size = 4
                frame, self.frame = self.frame, [v]
                self.indef += 1
                d['ch'] = self.body([v], 2)
                self.indef -= 1
                if self.kind == 'xml' and self.rng.random() < .15:
                    d['attr'] = self.rng.choice(TAGS)
                if self.rng.random() < .2:
                    d['dflt'] = 1
                if self.rng.random() < self.f.get('rec', .12):
                    self.recurse(d)
                self.frame = frame
                self.size = save
            self.shape(d)
            out.append(d)
            self.defs.append(d)
        return out


DOCTYPES = (
    ('<!DOCTYPE html>', 'html5'),
    ('<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"\n  "http://www.w3.org/TR/html4/loose.dtd">', 'html'),
    ('<!DOCTYPE html PUBLIC\n  "-//W3C//DTD XHTML 1.0 Strict//EN"\n  "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"\n>',
     'xml'),
    ('<!DOCTYPE page\n\n  SYSTEM "page.dtd">', 'xml'),
)


def gen_set(rng, kind='xml', features=None, size=10, spread=0, compose=True):
    """A set of templates: {'files': {name: file}, 'main': name}.

    A file: {'kind','defs':[...], 'ch':[...], 'extends':name or None, 'blocks':[...]}
    """
    f = dict(features or {})
    ext = {'xml': 'xml', 'text': 'txt'}[kind]
    if kind == 'xml' and rng.random() < f.get('html', .2):
        ext = rng.choice(('html', 'html5'))
    files = {}
    nk = 1
    incs = []
    if compose and rng.random() < f.get('p_include', .35):
        name = 'inc.' + ext
        g = Gen(rng, kind, f, max(3, size // 2), 3, nk, spread)
        files[name] = {'kind': kind, 'ext': ext, 'defs': g.functions(rng.choice((0, 0, 1))),
                       'ch': g.body([], 3, True)}
        nk = g.k + 1
        incs.append(name)
    lib = None
    if compose and rng.random() < f.get('p_import', .3):
        lib = 'lib.' + ext
        g = Gen(rng, kind, f, max(3, size // 2), 2, nk, spread)
        files[lib] = {'kind': kind, 'ext': ext, 'defs': g.functions(rng.choice((1, 2)), 'lf'),
                      'ch': [g.text()]}
        nk = g.k + 1
    alias = rng.choice(('lb', 'lib'))
    main = 'main.' + ext
    f2 = dict(f)
    if incs:
        f2['include'] = incs
    libs = [d for d in files[lib]['defs'] if not d.get('caller')] if lib else []
    if compose and rng.random() < f.get('p_extends', .3):
        lay = 'layout.' + ext
        g = Gen(rng, kind, f2, size, 3, nk, spread)
        L = {'kind': kind, 'ext': ext, 'defs': g.functions(rng.choice((0, 1))), 'ch': []}
        names = ['blk%d' % i for i in range(rng.randint(1, 3))]
        for b in names:
            L['ch'] += g.body([], 2)
            L['ch'].append(g.shape({'t': 'block', 'name': b, 'ch': g.body([], 2)}))
        L['ch'] += g.body([], 2)
        files[lay] = L
        up = L
        chain = [main]
        if rng.random() < f.get('p_chain', .35):
            chain.insert(0, 'mid.' + ext)
        upname = lay
        for cname in chain:
            g = Gen(rng, kind, f2, size, 3, g.k + 1, spread)
            C = {'kind': kind, 'ext': ext, 'defs': g.functions(rng.choice((0, 1))), 'extends': upname, 'ch': []}
            g.shape(C)
            if ext == 'xml' and rng.random() < f.get('exattr', .15):
                C['exattr'] = rng.choice(TAGS)
                L['nodtd'] = 1
            plain = [d for d in up['defs'] if not d.get('caller')]
            if plain and rng.random() < .5:
                # a function of the parent, overridden
                d = dict(name=rng.choice(plain)['name'], var='o%d' % g.k)
                g.frame = [d['var']]
                d['ch'] = g.body([d['var']], 2)
                g.frame = []
                C['defs'].append(d)
            elif plain and rng.random() < .5:
                g.defs = g.defs + [rng.choice(plain)]
            for b in names:
                if rng.random() < .6:
                    ch = g.body([], 3)
                    if rng.random() < .4:
                        ch.insert(rng.randint(0, len(ch)), {'t': 'parent_block', 'name': b})
                    if libs and rng.random() < .6:
                        ch.insert(0, {'t': 'import', 'href': lib, 'alias': alias})
                        ch.append({'t': 'libcall', 'href': lib, 'alias': alias, 'name': rng.choice(libs)['name'],
                                   'k': g.nk()})
                    C['ch'].append(g.shape({'t': 'block', 'name': b, 'ch': ch}))
            if not C['ch']:
                C['ch'].append({'t': 'block', 'name': names[0], 'ch': g.body([], 2)})
            files[cname] = C
            up, upname = C, cname
    else:
        g = Gen(rng, kind, dict(f2, own=1), size, 4, nk, spread)
        M = {'kind': kind, 'ext': ext, 'defs': g.functions(rng.choice((0, 1, 2))), 'ch': g.body([], 4, True)}
        if rng.random() < f.get('many', .03):
            # a lot of small functions
            many = []
            for i in range(rng.choice((9, 14, 20, 40))):
                v = 'mv%d_%d' % (i, g.k)
                many.append(g.shape({'name': 'mf%d_%d' % (i, g.k), 'var': v, 'ch': [
                    g.text(), {'t': 'expr', 'k': g.nk()}, {'t': 'var', 'name': v, 'form': 'brace'}]}))
            M['defs'] = M['defs'] + many
            for d in rng.sample(many, rng.randint(3, 8)):
                M['ch'].append({'t': 'call', 'name': d['name'], 'k': g.nk()})
        if libs:
            M['ch'].insert(0, {'t': 'import', 'href': lib, 'alias': alias})
            for _ in range(rng.randint(1, 2)):
                M['ch'].append({'t': 'libcall', 'href': lib, 'alias': alias, 'name': rng.choice(libs)['name'],
                                'k': g.nk()})
        if rng.random() < .3:
            M['ch'].append({'t': 'block', 'name': 'own', 'ch': g.body([], 2)})
            if kind == 'xml' and rng.random() < .3:
                M['ch'][-1]['attr'] = rng.choice(TAGS)
        files[main] = M
    if kind == 'xml':
        for f2 in files.values():
            if not f2.get('extends') and not f2.get('nodtd') and rng.random() < f.get('doctype', .25):
                f2['doctype'] = rng.randrange(len(DOCTYPES))
    return {'files': files, 'main': main}


# ---------------------------------------------------------------- source text
class Emit(object):
    def __init__(self, file, href=None):
        self.href = href or (lambda name: name)
        self.out = []
        self.line = 1
        self.file = file
        self.xml = file['kind'] == 'xml'
        self.lines = {}       # k -> (first line, last line)
        self.deftext = []
        self.mods = []

    def w(self, s):
        self.out.append(s)
        self.line += s.count('\n')

    def at(self, k, lo=None):
        self.lines[k] = (lo or self.line, lo or self.line)

    def source(self):
        f = self.file
        if self.xml:
            if 'doctype' in f:
                self.w(DOCTYPES[f['doctype']][0] + '\n')
            if f.get('exattr'):
                self.w('<%s py:extends="%s">' % (f['exattr'], self.href(f['extends'])))
            elif f.get('extends'):
                self.w('<py:extends href="%s">' % self.href(f['extends']))
            else:
                self.w('<html>')
            if f.get('hook'):
                self.w('<?py %%%s ?>' % f['hook'])
            for d in f['defs']:
                self.defn(d)
            self.body(f['ch'])
            self.w('</%s>' % (f.get('exattr') or ('py:extends' if f.get('extends') else 'html')))
        else:
            if f.get('extends') and f.get('line'):
                self.w('%%extends "%s"\n' % self.href(f['extends']))
            if f.get('hook'):
                self.w('{%%py %%%s%%}' % f['hook'])
            if f.get('extends') and not f.get('line'):
                self.w('{%%extends "%s"%%}' % self.href(f['extends']))
            for d in f['defs']:
                self.defn(d)
            self.body(f['ch'])
        return ''.join(self.out)

    def defn(self, d):
        sig = '%s(%s%s)' % (d['name'], d['var'], ', d_=None, *r_' if d.get('dflt') else '')
        if self.xml and d.get('attr'):
            self.w('<%s py:def="%s">' % (d['attr'], sig))
            self.body(d['ch'])
            self.w('</%s>' % d['attr'])
        elif self.xml:
            self.w('<py:def function="%s">' % sig)
            self.body(d['ch'])
            self.w('</py:def>')
        else:
            self.tag(d, 'def ' + sig)
            self.body(d['ch'])
            self.end(d)

    def tag(self, n, code, k=None, first=True):
        """A directive of a text template."""
        if n.get('line'):
            self.w('|\n' + BLANKS[n['line']])
            if k:
                self.at(k)
            self.w(('{%%-%s%%}|' if n.get('ljust') else '%%%s\n|') % code)
        else:
            if k:
                self.at(k)
            self.w(('{%%%s -%%}  |' if n.get('trim') else '{%%%s%%}') % code)

    def end(self, n):
        if n.get('line'):
            self.w('|\n' + BLANKS[n['line']] + ('{%-end%}|' if n.get('ljust') else '%end\n|'))
        else:
            self.w('{%end -%} |' if n.get('trim') else '{%end%}')

    def body(self, ch):
        for n in ch:
            self.node(n)

    def ex(self, n):
        """An expression in text."""
        k = n['k']
        lo = self.line
        form = n.get('form')
        if form == 'ml':
            self.w('${(\nu(%d)\n)}' % k)
        elif form == 'deep':
            self.w('${[{"}": u(%d)}][0]["}"]}' % k)
        elif form == 'long':
            self.w('${(%su(%d))[-1]}' % ('len(""), ' * n['len'], k))
        elif form == 'defined':
            self.w('${u(%d) if defined("u") else "UNDEFINED"}' % k)
        elif form == 'undefined':
            self.w('${"DEFINED" if defined("nosuch%d") else u(%d)}' % (k, k))
        elif form == 'value_of':
            self.w('${value_of("u")(%d)}' % k)
        elif form == 'default':
            self.w('${value_of("nosuch%d", u)(%d)}' % (k, k))
        elif form == 'dot':
            self.w('$us.k%d;' % k)
        elif form == 'blank':
            self.w('${ u(%d) }' % k)
        elif form == 'lead':
            self.w('${\n  u(%d)}' % k)
        elif form == 'lambda':
            self.w('${(lambda q: q)(u(%d))}' % k)
        elif form == 'mod':
            # a function defined at the level of the module
            self.w(('<?py %%def mod_%d(x): return x ?>' if self.xml else '{%%py %%def mod_%d(x): return x%%}') % k)
            self.w('${mod_%d(u(%d))}' % (k, k))
        else:
            self.w('${u(%d)}' % k)
        self.lines[k] = (lo, self.line)

    def node(self, n):
        t = n['t']
        xml = self.xml
        if t == 'text':
            self.w(n['s'])
        elif t == 'entity':
            self.w(n['e'])
        elif t == 'cdata':
            self.w('<![CDATA[%s]]>' % n['s'])
        elif t == 'cdx':
            self.w('<![CDATA[')
            self.body(n['ch'])
            self.w(']]>')
        elif t == 'comment':
            self.w('<!--%s-->' % n['s'])
        elif t == 'expr':
            if n.get('form') == 'replace':
                self.at(n['k'])
                self.w('<py:replace value="u(%d)"/>' % n['k'])
            elif n.get('form') == 'replattr':
                self.at(n['k'])
                self.w('<i py:replace="u(%d)">gone</i>' % n['k'])
            else:
                self.ex(n)
        elif t == 'attr':
            self.w('${at(%d)}' % n['k'])
        elif t == 'var':
            self.w('$%s;' % n['name'] if n['form'] == 'bare' else '${%s};' % n['name'])
        elif t == 'msg':
            self.w("${_('%s')}" % n['s'])
        elif t == 'call':
            self.lines.setdefault(n['k'], (self.line, self.line))
            self.w('${%s%s(u(%d))}' % (n.get('via', ''), n['name'], n['k']))
        elif t == 'rec':
            self.at(n['k'])
            self.at(n['k2'])
            self.w(('<py:if test="rc(%d, d_, %d)">${%s(u(%d), (d_ or 0) + 1)}</py:if>' if xml else
                    '{%%if rc(%d, d_, %d)%%}${%s(u(%d), (d_ or 0) + 1)}{%%end%%}') % (n['k'], n['deep'], n['name'], n['k2']))
        elif t == 'lit':
            self.w("${%s('%s')}" % (n['f'], n['s']))
        elif t == 'dollar':
            self.w('$$' + n['s'].replace('$', '$$'))
        elif t == 'esc':
            self.w('\\' + n['s'])
        elif t == 'join':
            self.w('\\\n')
        elif t == 'nop':
            self.w('<py:nop>')
            self.body(n['ch'])
            self.w('</py:nop>')
        elif t == 'dirs':
            self.w('<' + n['tag'])
            for d in n['order']:
                if n.get(d):
                    self.at(n[d])
                    if d == 'for':
                        self.w(' py:for="%s in it(%d)"' % (n['forvar'], n[d]))
                    elif d == 'with':
                        self.w(' py:with="%s=u(%d)"' % (n['withvar'], n[d]))
                    else:
                        self.w(' py:%s="c(%d)"' % (d, n[d]))
            self.w('>')
            self.body(n['ch'])
            self.w('</%s>' % n['tag'])
        elif t == 'idef':
            self.defn(n)
            for k in (n['k'], n.get('k2')):
                if k:
                    self.at(k)
                    self.w('${%s(u(%d))}' % (n['name'], k))
        elif t == 'libcall':
            self.at(n['k'])
            self.w('${%s.%s(u(%d))}' % (n['alias'], n['name'], n['k']))
        elif t == 'callback':
            self.at(n['k'])
            self.w('${%s(u(%d))}' % (n['var'], n['k']))
        elif t == 'parent_block':
            self.w('${parent_block()}')
        elif t == 'el':
            self.element(n)
        elif t == 'if':
            self.at(n['k'])
            if xml:
                if n.get('attr'):
                    self.w('<%s py:if="c(%d)">' % (n['attr'], n['k']))
                    self.body(n['ch'])
                    self.w('</%s>' % n['attr'])
                    if 'else' in n:
                        self.w('<%s py:else="">' % n['attr'])
                        self.body(n['else'])
                        self.w('</%s>' % n['attr'])
                else:
                    self.w('<py:if test="c(%d)">' % n['k'])
                    self.body(n['ch'])
                    self.w('</py:if>')
                    if 'else' in n:
                        self.w('<py:else>')
                        self.body(n['else'])
                        self.w('</py:else>')
            else:
                self.tag(n, 'if c(%d)' % n['k'], n['k'])
                self.body(n['ch'])
                if 'else' in n:
                    self.tag(n, 'else')
                    self.body(n['else'])
                self.end(n)
        elif t == 'for':
            self.at(n['k'])
            each = ('n_, %s in enumerate(it(%d))' if n.get('enum') else '%s in it(%d)') % (n['var'], n['k'])
            if xml:
                if n.get('attr'):
                    self.w('<%s py:for="%s">' % (n['attr'], each))
                    self.body(n['ch'])
                    self.w('</%s>' % n['attr'])
                else:
                    self.w('<py:for each="%s">' % each)
                    self.body(n['ch'])
                    self.w('</py:for>')
            else:
                self.tag(n, 'for ' + each, n['k'])
                self.body(n['ch'])
                self.end(n)
        elif t == 'with':
            self.at(n['k'])
            self.w('<py:with vars="%s=u(%d)' % (n['var'], n['k']))
            if n.get('k2'):
                self.at(n['k2'])
                self.w(';%s=u(%d)' % (n['var2'], n['k2']))
            self.w('">')
            self.body(n['ch'])
            self.w('</py:with>')
        elif t == 'py':
            self.at(n['k'])
            code = '%s = u(%d)' % (n['var'], n['k'])
            if n.get('more'):
                code += '\np_ = 1'
            if xml:
                self.w('<?py %s ?>' % code)
            elif n.get('line') and n.get('more') and not n.get('ljust'):
                self.w('|\n')
                self.at(n['k'])
                self.w('%%py\n%s\n%%end\n|' % code)
            else:
                self.tag(n, 'py ' + code, n['k'])
            self.body(n['ch'])
        elif t == 'switch':
            if xml:
                self.at(n['k'])
                self.w('<py:switch test="sw(%d)">' % n['k'])
            elif n.get('line'):
                self.w('|\n' + BLANKS[n['line']])
                self.at(n['k'])
                self.w(('{%%-switch sw(%d)%%}' if n.get('ljust') else '%%switch sw(%d)\n') % n['k'])
            else:
                self.tag(dict(n, trim=0), 'switch sw(%d)' % n['k'], n['k'])
            for i, c in enumerate(n['cases']):
                if xml or not n.get('line'):
                    self.at(c['k'])
                if xml:
                    self.w('<%s py:case="cs(%d)">' % (c['attr'], c['k']) if c.get('attr') else
                           '<py:case value="cs(%d)">' % c['k'])
                    self.body(c['ch'])
                    self.w('</%s>' % c.get('attr', 'py:case'))
                elif n.get('line') and not i:
                    self.at(c['k'])
                    self.w(('{%%case cs(%d)%%}|' if n.get('ljust') else '%%case cs(%d)\n|') % c['k'])
                    self.body(c['ch'])
                else:
                    self.tag(n, 'case cs(%d)' % c['k'], c['k'])
                    self.body(c['ch'])
            if 'else' in n:
                if xml:
                    self.w('<py:else>')
                    self.body(n['else'])
                    self.w('</py:else>')
                else:
                    self.tag(n, 'else')
                    self.body(n['else'])
            if xml:
                self.w('</py:switch>')
            else:
                self.end(n)
        elif t == 'pycall':
            if xml and n.get('attr'):
                self.w('<%s py:call="%s(%%caller)" args="%s">' % (n['attr'], n['name'], n['var']))
                self.body(n['ch'])
                self.w('</%s>' % n['attr'])
            elif xml:
                self.w('<py:call args="%s" function="%s(%%caller)">' % (n['var'], n['name']))
                self.body(n['ch'])
                self.w('</py:call>')
            else:
                self.tag(n, 'call (%s) %s(%%caller)' % (n['var'], n['name']))
                self.body(n['ch'])
                self.end(n)
        elif t == 'block':
            if xml:
                self.w('<%s py:block="%s">' % (n['attr'], n['name']) if n.get('attr') else '<py:block name="%s">' % n['name'])
                self.body(n['ch'])
                self.w('</%s>' % n.get('attr', 'py:block'))
            else:
                self.tag(n, 'block ' + n['name'])
                self.body(n['ch'])
                self.end(n)
        elif t == 'include':
            if xml:
                self.w('<py:include href="%s"/>' % self.href(n['href']))
            else:
                self.tag(n, 'include "%s"' % self.href(n['href']))
        elif t == 'import':
            href = self.href(n['href'])
            dflt = os.path.splitext(os.path.basename(href))[0] == n['alias']        # (the default alias)
            if xml:
                self.w('<py:import href="%s"/>' % href if dflt else '<py:import href="%s" alias="%s"/>' % (href, n['alias']))
            else:
                self.tag(n, 'import "%s"%s' % (href, '' if dflt else ' as ' + n['alias']))
        else:
            raise AssertionError(t)

    def element(self, n):
        self.w('<' + n['tag'])
        lo = self.line
        ks = [n[x] for x in ('strip', 'pyattrs', 'content') if n.get(x)]
        attrs = []
        for name, parts in n['attrs'].items():
            start = len(self.out)
            self.w(' %s="' % name)
            for p in parts:
                self.node(p)
                if p.get('k'):
                    ks.append(p['k'])
            self.w('"')
        if n.get('strip'):
            self.w(' py:strip="c(%d)"' % n['strip'])
        elif n.get('bare'):
            self.w(' py:strip=""')
        if n.get('pyattrs'):
            self.w(' py:attrs="ats(%d)"' % n['pyattrs'])
        if n.get('fattr'):
            self.w(" py:attrs=\"{'data-f': %s(u(%d))}\"" % (n['fattr']['name'], n['fattr']['k']))
            ks.append(n['fattr']['k'])
        if n.get('content'):
            self.w(' py:content="u(%d)"' % n['content'])
        for k in ks:
            self.lines[k] = (lo, lo)
        self.w('>')
        self.body(n['ch'])
        self.w('</%s>' % n['tag'])


def sources(tset, href=None):
    """name -> (source text, {k: (first line, last line)})"""
    out = {}
    for name, f in tset['files'].items():
        e = Emit(f, href)
        src = e.source()
        out[name] = (src, e.lines)
    return out


# ---------------------------------------------------------------- reference interpreter
class ModelStop(Exception):
    """The log says evaluation ended here (it raised, or was not resumed)."""


class Mismatch(Exception):
    """The log is not one that any evaluation of the template can produce."""


class Model(object):
    def __init__(self, tset, log, translate=None, fragment_known=True, escape_text=False):
        self.tset = tset
        self.log = log
        self.pos = 0
        self.out = []
        self.tr = translate or (lambda name: (lambda s: s))
        self.escape_text = escape_text
        self.stopped = False
        self.why = None
        self.ahead = None           # if a list: how much text precedes each evaluation
        self.tag = None             # inside a tag: the length of the text before it
        self._length = 0, 0, None

    def length(self):
        n, size, out = self._length
        if out is not self.out or n > len(out):
            n, size, out = 0, 0, self.out
        size += sum(map(len, out[n:]))
        self._length = len(out), size, out
        return size

    # log entries: [kind, k, value] or [kind, k, None, 'exc']
    def need(self, kind, k):
        if self.pos >= len(self.log):
            self.why = 'exhausted'
            raise ModelStop()
        e = self.log[self.pos]
        if e[0] != kind or e[1] != k:
            raise Mismatch('evaluation %d is %s(%d), the template reaches %s(%d) there' % (
                self.pos, e[0], e[1], kind, k))
        self.pos += 1
        if self.ahead is not None:
            self.ahead.append(self.length() if self.tag is None else self.tag)
        if len(e) > 3:
            self.why = 'raised'
            raise ModelStop()
        return e[2]

    def fail(self):
        self.why = 'raised'
        raise ModelStop()

    def truth(self, k):
        v = self.need('c', k)
        if v is TESTED:
            v = self.need('bl', k)
        return bool(v)

    def items(self, v, k):
        if v is LAZY:
            while True:
                x = self.need('nx', k)
                if x is END:
                    return
                yield x
        elif isinstance(v, Raising):
            self.fail()
        else:
            for x in v:
                yield x

    def run(self):
        try:
            self.file(self.tset['main'], False)
        except ModelStop:
            self.stopped = True
        return ''.join(self.out)

    def file(self, name, fragment):
        f = self.tset['files'][name]
        self.page(f, self.new_env(name), fragment)

    def new_env(self, name):
        f = self.tset['files'][name]
        env = {'file': name, 'vars': {}, 'mode': self.mode(f), 'tr': self.tr(name), 'parent': None}
        env['defs'] = dict((d['name'], (d, env)) for d in f['defs'])
        own = env['own_blocks'] = {}

        def find(x):
            if isinstance(x, dict):
                if x.get('t') == 'block':
                    own[x['name']] = (x, env)
                for v in x.values():
                    find(v)
            elif isinstance(x, list):
                for v in x:
                    find(v)
        find(f['ch'])
        env['blocks'] = dict(own)
        return env

    def mode(self, f):
        if f['kind'] == 'text':
            return 'text'
        if f['ext'] == 'xml' and 'doctype' in f:
            return DOCTYPES[f['doctype']][1]
        return f['ext']

    def page(self, f, env, fragment):
        if f.get('extends'):
            penv = self.new_env(f['extends'])
            inherited = dict(penv['defs'])
            # what the child defines overrides what the parent defines
            penv['defs'].update(env['defs'])
            penv['blocks'].update(env['blocks'])
            env['parent'] = penv
            for name, d in inherited.items():
                env['defs'].setdefault(name, d)
            if f.get('exattr'):
                self.out.append('<%s>' % f['exattr'])
            self.page(self.tset['files'][f['extends']], penv, False)
            if f.get('exattr'):
                self.out.append('</%s>' % f['exattr'])
            if f['kind'] == 'text':
                # (the text outside the blocks follows)
                for n in f['defs'] + f['ch']:
                    self.place(n)
            return
        if 'doctype' in f:
            if not fragment:
                self.out.append(DOCTYPES[f['doctype']][0] + '\n')
        elif f['ext'] == 'html5' and not fragment:
            self.out.append('<!DOCTYPE html>\n')
        if f['kind'] == 'xml':
            self.out.append('<html>')
        for d in f['defs']:
            self.place(d)
        self.body(f['ch'], env)
        if f['kind'] == 'xml':
            self.out.append('</html>')

    def body(self, ch, env):
        for n in ch:
            self.node(n, env)

    def static(self, s, env):
        return env['tr'](s) if env['mode'] != 'text' and not env.get('notr') else s

    # values: python objects as logged; see values.py
    def show(self, v, env):
        return show_value(v, env['mode'] != 'text' or self.escape_text)

    def node(self, n, env):
        t = n['t']
        if t == 'text':
            self.out.append(self.static(n['s'], env))
        elif t == 'entity':
            self.out.append({'&eacute;': u'\xe9', '&nbsp;': u'\xa0', '&#8364;': u'\u20ac', '&#x41;': 'A',
                             '&quot;': '"'}.get(n['e'], n['e']))
        elif t == 'cdata':
            self.out.append('<![CDATA[%s]]>' % n['s'])
        elif t == 'cdx':
            self.out.append('<![CDATA[')
            self.body(n['ch'], env)
            self.out.append(']]>')
        elif t == 'comment':
            if not n['s'].startswith('!'):
                self.out.append('<!-- %s -->' % n['s'])
        elif t == 'expr':
            self.out.append(self.show(self.need('u', n['k']), env))
            if n.get('form') == 'dot':
                self.out.append(';')
        elif t == 'var':
            self.out.append(self.show(env['vars'][n['name']], env) + ';')
        elif t == 'msg':
            v = env['tr'](n['s'])
            self.out.append(v)
        elif t in ('call', 'libcall'):
            arg = self.need('u', n['k'])
            if t == 'call':
                d, denv = env['defs'][n['name']]
            else:
                d, denv = self.new_env(n['href'])['defs'][n['name']]
            self.call(d, denv, arg)
        elif t == 'rec':
            level = env['vars']['d_']
            if self.again(n, level):
                arg = self.need('u', n['k2'])
                d, denv = env['defs'][n['name']]
                self.call(d, denv, arg, level + 1)
        elif t == 'callback':
            arg = self.need('u', n['k'])
            cb, cenv = env['vars'][n['var']]
            e2 = dict(cenv, vars=dict(cenv['vars']))
            e2['vars'][cb['var']] = arg
            if cb.get('attr'):
                self.out.append('<%s args="%s">' % (cb['attr'], cb['var']))
            self.open_part(dict(cb, attr=0))
            self.body(cb['ch'], e2)
            self.close_part(cb)
        elif t == 'pycall':
            d, denv = env['defs'][n['name']]
            self.before(n)
            self.call(d, denv, (n, env))
            self.after(n)
        elif t == 'parent_block':
            e = env['parent']
            while n['name'] not in e['own_blocks']:
                e = e['parent']
            pn, penv = e['own_blocks'][n['name']]
            self.open_part(pn)
            self.body(pn['ch'], dict(penv, vars={}))
            self.close_part(pn)
        elif t == 'block':
            bn, benv = env['blocks'][n['name']]
            self.before(n)
            self.open_part(bn)
            self.body(bn['ch'], dict(benv, vars={}))
            self.close_part(bn)
            self.after(n)
        elif t == 'lit':
            self.out.append(n['s'])
        elif t == 'dollar':
            self.out.append('$' + self.static(n['s'], env))
        elif t == 'esc':
            self.out.append(n['s'])
        elif t == 'join':
            pass
        elif t == 'nop':
            self.body(n['ch'], env)
        elif t == 'dirs':
            self.dirs(n, env)
        elif t == 'idef':
            self.place(n)
            for k in (n['k'], n.get('k2')):
                if k:
                    e2 = dict(env, vars=dict(env['vars']))
                    e2['vars'][n['var']] = self.need('u', k)
                    self.open_part(n)
                    self.body(n['ch'], e2)
                    self.close_part(n)
        elif t == 'if':
            self.before(n)
            ch = n['ch'] if self.truth(n['k']) else n.get('else')
            if ch is not None:
                self.open_part(n)
                self.body(ch, env)
                self.close_part(n)
            self.after(n)
        elif t == 'for':
            self.before(n)
            for v in self.items(self.need('it', n['k']), n['k']):
                env['vars'][n['var']] = v
                self.open_part(n)
                self.body(n['ch'], env)
                self.close_part(n)
            self.after(n)
        elif t == 'with':
            old = dict((x, env['vars'].get(x)) for x in (n['var'], n.get('var2')) if x)
            env['vars'][n['var']] = self.need('u', n['k'])
            if n.get('k2'):
                env['vars'][n['var2']] = self.need('u', n['k2'])
            self.body(n['ch'], env)
            env['vars'].update(old)
        elif t == 'py':
            self.before(n)
            env['vars'][n['var']] = self.need('u', n['k'])
            self.after(n)
            self.body(n['ch'], env)
        elif t == 'switch':
            self.before(n)
            s = self.need('sw', n['k'])
            for c in n['cases']:
                v = self.need('cs', c['k'])
                if isinstance(s, Raising) or isinstance(v, Raising):
                    self.fail()
                if v == s:
                    self.open_part(dict(c, line=n.get('line'), trim=n.get('trim')))
                    self.body(c['ch'], env)
                    self.close_part(dict(c, line=n.get('line')))
                    break
            else:
                if 'else' in n:
                    self.open_part(n)
                    self.body(n['else'], env)
                    self.close_part(n)
            self.after(n)
        elif t == 'include':
            self.before(n)
            self.file(n['href'], True)
            self.after(n)
        elif t == 'import':
            self.place(n)
        elif t == 'el':
            self.element(n, env)
        else:
            raise AssertionError(t)

    def before(self, n):
        if n.get('line'):
            self.out.append('|\n')

    def after(self, n):
        if n.get('line') or n.get('trim'):
            self.out.append('|')

    def place(self, n):
        self.before(n)
        self.after(n)

    def open_part(self, n):
        if n.get('attr'):
            self.out.append('<%s>' % n['attr'])
        if n.get('line') or n.get('trim'):
            self.out.append('|')

    def close_part(self, n):
        if n.get('attr'):
            self.out.append('</%s>' % n['attr'])
        if n.get('line'):
            self.out.append('|\n')

    def again(self, n, level):
        return self.need('rc', n['k'])

    def call(self, d, env, arg, level=0):
        e2 = dict(env, vars={d['var']: arg, 'd_': level})
        self.open_part(d)
        self.body(d['ch'], e2)
        self.close_part(d)

    def dirs(self, n, env):
        for v in self.items(self.need('it', n['for']), n['for']) if n.get('for') else (None,):
            if n.get('for'):
                env['vars'][n['forvar']] = v
            if n.get('if') and not self.truth(n['if']):
                continue
            if n.get('with'):
                env['vars'][n['withvar']] = self.need('u', n['with'])
            strip = self.truth(n['strip']) if n.get('strip') else False
            if not strip:
                self.out.append('<%s>' % n['tag'])
            self.body(n['ch'], env)
            if not strip:
                self.out.append('</%s>' % n['tag'])

    def called(self, text):
        """The text of a function that is shown in an attribute."""
        return text

    def element(self, n, env):
        strip = self.truth(n['strip']) if n.get('strip') else bool(n.get('bare'))
        html = env['mode'].startswith('html')
        if not strip:
            inner = self.tag is not None
            if not inner:
                self.tag = self.length()
            self.out.append('<' + n['tag'])
            for name in sorted(n['attrs']):
                parts = n['attrs'][name]
                got = []
                for p in parts:
                    if p['t'] == 'text':
                        got.append(p['s'])
                    elif p['t'] == 'attr':
                        v = self.need('at', p['k'])
                        if v is not None:
                            got.append(raw_text(v))
                    elif p['t'] == 'var':
                        v = env['vars'][p['name']]
                        if v is not None:
                            got.append(raw_text(v))
                        got.append(';')
                    elif p['t'] == 'call':
                        save, self.out = self.out, []
                        try:
                            self.call(*(env['defs'][p['name']] + (self.need('u', p['k']),)))
                            got.append(self.called(''.join(self.out)))
                        finally:
                            self.out = save
                if not parts:
                    got.append('')
                if got and html and name == 'checked':
                    self.out.append(' checked')
                elif got:
                    self.out.append(' %s="%s"' % (name, esc(''.join(got))))
            if n.get('pyattrs'):
                a = self.need('ats', n['pyattrs'])
                if isinstance(a, Raising):
                    self.fail()
                if a is not None:
                    for k, v in sorted(a.items() if hasattr(a, 'items') else a):
                        if isinstance(v, Raising):
                            self.fail()
                        if k == 'checked' and v in (True, False):
                            v = k if v else None
                        if v is None:
                            continue
                        if html and k == 'checked':
                            self.out.append(' ' + k)
                        else:
                            self.out.append(' %s="%s"' % (k, v.__html__() if hasattr(v, '__html__') else esc(raw_text(v))))
            if n.get('fattr'):
                f = n['fattr']
                save, self.out = self.out, []
                try:
                    self.call(*(env['defs'][f['name']] + (self.need('u', f['k']),)))
                    got = self.called(''.join(self.out))
                finally:
                    self.out = save
                self.out.append(' data-f="%s"' % esc(got))
            if not inner:
                self.tag = None
        ch = n['ch']
        content = n.get('content')
        if content:
            if not strip:
                self.out.append('>')
            self.out.append(self.show(self.need('u', content), env))
            if not strip:
                self.out.append('</%s>' % n['tag'])
            return
        if ch:
            if not strip:
                self.out.append('>')
            if n['tag'] in ('script', 'style'):
                if not html:
                    self.out.append('/*<![CDATA[*/')
                self.body(ch, dict(env, notr=True))
                if not html:
                    self.out.append('/*]]>*/')
            else:
                self.body(ch, env)
            if not strip:
                self.out.append('</%s>' % n['tag'])
        elif not strip:
            self.out.append('/>' if not html else '>' if n['tag'] in VOID_TAGS else '></%s>' % n['tag'])


# ---------------------------------------------------------------- values
class Html(object):
    """A value that knows its own markup."""
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return '<i>%s</i>' % self.s

    def __str__(self):
        return 'Html:' + self.s

    def __eq__(self, other):
        return isinstance(other, Html) and other.s == self.s

    def __hash__(self):
        return hash(self.s)


class Lit(object):
    """Stands in the log for kajiki's literal(text)."""
    def __init__(self, s):
        self.s = s


class Const(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


LAZY, END, TESTED = Const('lazy'), Const('end'), Const('tested')


class Raising(object):
    """A value one of whose operations fails."""
    def __init__(self, exc, src, k):
        self.exc, self.src, self.k = exc, src, k

    def boom(self, *a):
        self.src.raised, self.src.raised_k = self.exc, self.k
        raise self.exc


class RaisingStr(Raising):
    __str__ = Raising.boom


class RaisingHtml(Raising):
    __html__ = Raising.boom

    def __str__(self):
        return 'fallback'


class RaisingEq(Raising):
    __eq__ = __ne__ = Raising.boom
    __hash__ = None


class RaisingItems(Raising):
    items = Raising.boom


class RaisingIter(Raising):
    __iter__ = Raising.boom


class Live(object):
    """A mapping read from somewhere: what it gives is given once."""
    def __init__(self, pairs):
        self.pairs = [pairs]

    def items(self):
        return self.pairs.pop() if self.pairs else [('data-again', 1)]


class Num(int):
    """A number with a text of its own."""
    def __str__(self):
        return '<n%d&>' % int(self)
    __repr__ = __str__


class Str(str):
    """A string with markup of its own, as markup libraries have it."""
    def __html__(self):
        return '<s>%s</s>' % esc(str(self))


def raw_text(v):
    if isinstance(v, RaisingStr):
        raise ModelStop()
    if isinstance(v, Lit):
        return v.s
    return '' if v is None else str(v)


def show_value(v, escape):
    if v is None:
        return ''
    if isinstance(v, RaisingStr):
        raise ModelStop()
    if isinstance(v, Lit):
        return v.s
    if not escape:
        return str(v)
    if isinstance(v, RaisingHtml):
        raise ModelStop()
    if hasattr(v, '__html__'):
        return v.__html__()
    return esc(str(v))


SPECIALS = (u'a<b', u'x&y', u'"q"', u"it's", u'>', u'\u20ac', u'\xe9t\xe9', u'\U0001F600', u'${u(1)}', u'%if x',
            u'{%end%}', u'', u'&amp;', u']]>', u'<!--', u'  ', u'\\n', u'None', u'{}', u'%s')


LONG = ('x', 'ab ', u'\u20ac', 'line\n')


def make_value(rng, tag, lit=True, simple=False):
    """A value whose text is recognisable by *tag* (unique per render and call)."""
    r = rng.random()
    if simple or r < .45:
        return tag
    if r < .75:
        return rng.choice(SPECIALS) + tag + rng.choice(SPECIALS)
    if r < .82:
        return rng.randrange(10 ** 9)
    if r < .86:
        return None
    if r < .865 and rng.random() < .2:
        return rng.choice(LONG) * rng.choice((60, 300, 1100, 4200)) + rng.choice(SPECIALS) + tag
    if r < .89:
        return rng.choice((0, 0.5, True, False, (), [1, '<'], 1, 1.0, 0.0, Num(1), Num(0), {'<': 1}, b'<'))
    if not lit:
        return tag + '&'
    if r < .95:
        return Lit('<u>%s</u>' % tag)
    return Html(tag) if r < .985 else Str('<' + tag)


def ast_size(x):
    return len(json.dumps(x))
