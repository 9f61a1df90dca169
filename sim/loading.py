# -*- coding: utf-8 -*-
"""Threads importing templates through one loader while other threads edit the files.

A file version is a small template that shows its number in several places (body,
attribute, function, block), so that what was loaded can be read off its output.
"""
import gc
import os
import re
import sys
import types

from . import common, core, gen, harness, site
from .core import quietly

TOKEN = re.compile(r'mk(\d+)k')
BAD = ('unclosed', 'badexpr', 'badbytes', 'directive', 'entity', 'empty', 'badpy')
S = 10**9


def content(ext, v, pad=0, hook=None, inc=None, end='', lo=None):
    """lo: the options of the loader."""
    more = '${bg}' if 'base_globals' in (lo or {}) else ''
    m = 'mk%dk' % v
    fill = 'x'
    if pad:
        fill = ' '.join('w%d\u20ac' % (j % 97) for j in range(pad // 7))
    if ext == 'txt':
        out = ''
        if hook:
            out += '{%%py %%%s%%}' % hook
        out += '{%%def f(x)%%}F %s $x;{%%end%%}' % m
        out += 'V %s ${1 + 1}%s\n%s\n${f(3)}\n' % (m, '${"<"}' if lo else '', fill)
        out += '%%for i in range(2)\nL %s\n%%end\n' % m
        out += '{%%block b%%}B %s{%%end%%}\nE %s' % (m, m)
        if inc:
            out += '{%%include "%s"%%}' % inc
        return out + end
    out = '<html>'
    if hook:
        out += '<?py %%%s ?>' % hook
    out += '<py:def function="f(x)">F %s $x;</py:def>' % m
    out += '<p class="a %s ${1}">V %s ${1 + 1}</p>\n' % (m, m)
    out += '<i>%s</i>\n${f(3)}' % fill
    out += '<b py:for="i in range(2)">L %s</b>' % m
    out += '<py:block name="b">B %s</py:block>E %s%s</html>' % (
        m, m, ('<py:include href="%s"/>' % inc if inc else '') + more)
    return out


def expected(ext, v, pad=0, inc='', end='', lo=None):
    """The text that content() renders to."""
    lo = lo or {}
    m = 'mk%dk' % v
    fill = 'x'
    if pad:
        fill = ' '.join('w%d\u20ac' % (j % 97) for j in range(pad // 7))
    if ext == 'txt':
        less = ('&lt;' if 'autoescape_text' in lo else '<') if lo else ''
        return 'V %s 2%s\n%s\nF %s 3;\nL %s\nL %s\nB %s\nE %s%s%s' % (m, less, fill, m, m, m, m, m, inc, end)
    head = '<!DOCTYPE html>\n' if ext == 'html5' else ''
    n = '' if 'strip_text' in lo else '\n'
    return head + '<html><p class="a %s 1">V %s 2</p>%s<i>%s</i>%sF %s 3;<b>L %s</b><b>L %s</b>B %sE %s%s%s</html>' % (
        m, m, n, fill, n, m, m, m, m, m, inc, lo.get('base_globals', {}).get('bg', ''))


def bad_content(ext, kind, v):
    m = 'mk%dk' % v
    if kind == 'badbytes':
        return ('<html>%s ' % m if ext != 'txt' else m).encode('utf-8') + b'\xff\xfe\xc3(' + b'</html>'
    if ext == 'txt':
        return {'unclosed': '%%if *\n%s\n%%end' % m, 'badexpr': '%s ${1 +* 2}' % m,
                'directive': '%s {%%nosuch x%%}' % m, 'entity': '%s ${(]}' % m, 'empty': '%%def %s' % m,
                'badpy': '{%%py def%%}%s' % m}[kind]
    return {'unclosed': '<html><p>%s</html>' % m, 'badexpr': '<html>%s ${1 +* 2}</html>' % m,
            'directive': '<html><py:if test="1 1">%s</py:if></html>' % m, 'entity': '<html>%s &nosuchentity; </html>' % m,
            'empty': '', 'badpy': '<html><?py def ?>%s</html>' % m}[kind]


# ---------------------------------------------------------------- generation helpers
def mtime_moves(rng):
    """How the modification time of a new version relates to the one before."""
    return rng.choice((('+', S), ('+', S), ('+', 1000000), ('+', 37000000), ('-', S), ('-', 3600 * S), ('-', 2000000),
                       ('=', 0), ('=', S // 2), ('+', 10 * 365 * 86400 * S), ('=', BASE // 2),
                       ('=', 4100000000 * S), ('=', 5000000000 * S), ('=', 1 * S)))


BASE = site.BASE_NS


class World(object):
    def __init__(self, run, **opts):
        self.run = run
        scn = self.scn = run.scn
        s = scn['site']
        opts.update(scn['files'][0].get('lo') or {})
        self.files = scn['files']          # [{'name','ext','pad','hook','inc'}]
        self.site = site.Site(run, s['kind'], s.get('ndirs', 1), s.get('reload', True), front=s.get('front'),
                              force=self.files[0].get('force'), **opts)
        self.loader = self.site.loader
        self.vext = {}
        self.lastm = {}
        self.records = []
        self.hits = []                     # (time, file index, version, operation) of module-level code
        self.opstack = {}
        self.held = {}
        self.marks = 0
        hook = types.ModuleType('simhook')
        hook.hit = self.hit
        sys.modules['simhook'] = hook
        hook.load = self.hook_load
        hook.page = self.hook_page
        self.helper = {}
        if any(f.get('inc') for f in self.files):
            for d, ext in enumerate(self.site.EXTS):
                self.helper[ext] = 'help%s.%s' % (ext, ext)
                d = d if s['kind'] == 'pkgext' else 0
                hk = ''
                if scn.get('nested'):
                    # its module-level code renders a page, which includes another
                    hk = "import simhook; simhook.page('%s')" % ext
                    hk = '{%%py %%%s%%}' % hk if ext == 'txt' else '<?py %%%s ?>' % hk
                    leaf, page = 'leaf%s.%s' % (ext, ext), 'page%s.%s' % (ext, ext)
                    run.write_file(self.site.rel(leaf, d), 'leaf' if ext == 'txt' else '<i>leaf</i>', BASE)
                    run.write_file(self.site.rel(page, d), ('page{%%include "%s"%%}' if ext == 'txt' else
                                   '<b>page<py:include href="%s"/></b>') % self.site.name(leaf), BASE)
                for dd in range(len(self.site.dirs)) if scn.get('helpers') else (d,):
                    n = dd if scn.get('helpers') else 0
                    run.write_file(self.site.rel(self.helper[ext], dd),
                                   '%shelping%d' % (hk, n) if ext == 'txt' else '<u>%shelping%d</u>' % (hk, n), BASE)
        if scn.get('decoys'):
            self.decoys()
        for spec in scn['initial']:
            self.edit(None, spec)

    def helping(self, ext, l=0):
        text = 'helping%d' % (self.site.order(l)[0] if self.scn.get('helpers') else 0)
        return text if ext == 'txt' else '<u>%s</u>' % text

    def decoys(self):
        """Files with names like those of the templates, which no import may take for them."""
        for f in self.files:
            root, ext = os.path.splitext(f['name'])
            names = [root + '.bak', f['name'] + '~', f['name'].upper(), root + '.py', root + '.htm']
            if self.site.kind == 'file':
                names += [root + '.' + x for x in self.site.EXTS if '.' + x != ext] + [root + 'x' + ext, root]
                if root.startswith('sub/'):
                    names.append(os.path.basename(f['name']))
            known = [g['name'] for g in self.files]
            for n in names:
                if n in known or not n:
                    continue
                for d in sorted(set(self.site.dirs)):
                    x = os.path.splitext(n)[1][1:]
                    self.run.write_file(os.path.join(d, n), content(x if x in self.site.EXTS else f['ext'], 9999), BASE)

    # ------------------------------------------------------------ edits
    def hit(self, fi, v):
        t = self.run.sim.current()
        rec = self.opstack.get(t.tid if t else None)
        self.hits.append((self.site.tick(), fi, v, rec))

    def hook_load(self, fi):
        self.run.sim.probe('load-in-template')
        self.loader.load(self.site.name(self.files[fi]['name']))

    def hook_page(self, ext):
        self.run.sim.probe('render-in-template')
        text = self.loader.load(self.site.name('page%s.%s' % (ext, ext)))({}).render()
        if 'page' not in text or 'leaf' not in text:
            self.run.viol('broken-template', 'a page rendered while another is loaded gives %r' % text)

    def data(self, fi, v, d=0):
        f = self.files[fi]
        hook = None
        if f.get('hook'):
            hook = "import simhook; simhook.hit(%d, %d)" % (fi, v)
            if f.get('loads') is not None:
                hook += "; simhook.load(%d)" % f['loads']
        ext = self.site.EXTS[d] if self.site.kind == 'pkgext' else f['ext']
        self.vext[v] = ext
        inc = self.site.name(self.helper[ext]) if f.get('inc') else None
        return content(ext, v, f.get('pad', 0), hook, inc, f.get('end', ''), f.get('lo'))

    def mtime(self, fi, d, move):
        sign, ns = move
        last = self.lastm.get((fi, d), BASE)
        if sign == '+':
            last += ns
        elif sign == '-':
            last -= ns
        else:
            last = ns
        self.lastm[(fi, d)] = last
        return last

    def edit(self, t, op):
        """op: {'op':'edit','f','v','how','move','d'}"""
        fi, v, d = op['f'], op['v'], op.get('d', 0)
        f = self.files[fi]
        how = op.get('how', 'atomic')
        fname = f['name']
        if (fname, d) in self.site.rewriting:
            return              # two editors do not work on one file at once
        if how == 'delete':
            self.site.remove(fname, d)
            return
        ns = self.mtime(fi, d, op['move'])
        if how.startswith('bad:'):
            self.site.put(fname, bad_content(self.site.EXTS[d] if self.site.kind == 'pkgext' else f['ext'], how[4:], v), ('bad', v), ns, d)
        elif how == 'inplace':
            self.site.put_in_place(fname, self.data(fi, v, d), v, ns, d, parts=op.get('parts', 2))
        else:
            self.site.put(fname, self.data(fi, v, d), v, ns, d)

    # ------------------------------------------------------------ imports
    def import_(self, t, op, fn=None):
        fi = op['f']
        rec = {'op': op, 'f': fi, 'tid': t.tid, 'a': self.site.tick()}
        self.opstack[t.tid] = rec
        name = self.site.name(self.files[fi]['name'])
        try:
            load = fn or (self.site.loader2.load if op.get('l') else self.site.load)
            cls = load(name, **op.get('kw', {}))
            rec['cls'] = cls
            if self.scn.get('weak'):
                # hold no template: only the loader does
                if '_sim_mark' not in cls.__dict__:
                    self.marks += 1
                    cls._sim_mark = self.marks
                rec['cls'] = cls._sim_mark
                cls = None
        except BaseException as e:
            rec['exc'] = e
            # drop the frames: nothing of the failed import is kept alive by us
            e.__traceback__ = None
        rec['b'] = self.site.tick()
        rec['fired'] = list(t.fired)
        self.opstack.pop(t.tid, None)
        self.run.sim.record('import', tag='%s:%s' % (fi, 'exc' if 'exc' in rec else 'ok'))
        t.faults_allowed = ()
        self.run.sim.rearm()
        self.records.append(rec)
        return rec

    def version_of(self, rec):
        """Renders what was imported: (version, problem)."""
        with quietly(self.run.sim):
            try:
                text = rec['cls']({}).render()
            except BaseException as e:
                return None, 'rendering the imported template raised ' + common.exc_text(e)
        return self.version_in(rec, text)

    def version_in(self, rec, text):
        f = self.files[rec['f']]
        toks = set(TOKEN.findall(text))
        if len(toks) != 1:
            return None, 'the imported template mixes versions %s' % sorted(toks)
        v = int(toks.pop())
        ext = self.vext.get(v, f['ext'])
        inc = ''
        if f.get('inc'):
            inc = self.helping(ext, rec['op'].get('l', 0))
        exp = expected(ext, v, f.get('pad', 0), inc, f.get('end', ''), f.get('lo'))
        if text != exp:
            j = common.first_diff(text, exp)
            return v, 'the imported template renders %s, not %s' % (common.cut(text, j), common.cut(exp, j))
        return v, None

    def render(self, t, op):
        """Import and render as one operation exposed to faults."""
        rec = {'op': op, 'f': op['f'], 'tid': t.tid, 'a': self.site.tick()}
        self.opstack[t.tid] = rec
        name = self.site.name(self.files[op['f']]['name'])
        try:
            rec['text'] = self.site.page(name, {})
        except BaseException as e:
            rec['exc'] = e
            e.__traceback__ = None
        rec['b'] = self.site.tick()
        rec['fired'] = list(t.fired)
        self.opstack.pop(t.tid, None)
        self.run.sim.record('render', tag='%s:%s' % (op['f'], 'exc' if 'exc' in rec else 'ok'))
        t.faults_allowed = ()
        self.run.sim.rearm()
        self.records.append(rec)
        if 'text' in rec:
            rec['v'], rec['problem'] = self.version_in(rec, rec['text'])
        return rec

    def handler(self, t, op):
        kind = op['op']
        if kind == 'edit':
            self.edit(t, op)
        elif kind == 'import':
            rec = self.import_(t, op)
            if 'cls' in rec:
                rec['v'], rec['problem'] = self.version_of(rec)
        elif kind == 'render':
            self.render(t, op)
        elif kind == 'gc':
            with quietly(self.run.sim):
                gc.collect()
        elif kind == 'clock':
            self.run.sim.advance(op['ns'])
        else:
            raise AssertionError(kind)

    def spawn(self):
        for ops in self.scn['threads']:
            self.run.spawn(ops, self.handler)

    # ------------------------------------------------------------ judging
    def allowed(self, rec):
        """(versions an import may return, whether it may fail, whether it must fail, why)."""
        f = self.files[rec['f']]
        s = self.site
        a, b = rec['a'], rec['b']
        per = [s.during(f['name'], a, b, d) for d in s.order(rec['op'].get('l', 0))]
        return per

    def judge_fresh(self, rec, cls_prefix='stale', relaxed=False):
        """C05/C10: returns what was on disk in the first directory holding it."""
        run = self.run
        per = self.allowed(rec)
        what = 'import of %s by operation %d (time %d-%d)' % (
            self.files[rec['f']]['name'], rec['op']['id'], rec['a'], rec['b'])
        if any('torn' in st for st in per):
            return
        if relaxed:
            # a failing stat may hide a directory
            per = [st + [None] for st in per]
        ok = set()
        bad_possible = False
        fail_ok = True          # every directory lacked the file at some moment
        for st in per:
            for v in st:
                if isinstance(v, tuple):
                    bad_possible = True
                elif v is not None:
                    ok.add(v)
            if None not in st:
                fail_ok = False
                break           # later directories cannot be reached
        # a file deleted under the import may surface as an error too
        deleted = any(None in st[1:] for st in per)
        if 'exc' in rec:
            e = rec['exc']
            if bad_possible or relaxed:
                return
            if not (fail_ok or deleted):
                run.viol('spurious-failure', '%s raised %s while the file was there' % (what, common.exc_text(e)))
            elif not isinstance(e, OSError):
                run.viol('wrong-error', '%s: a missing file was reported as %s' % (what, common.exc_text(e)))
            return
        if rec['problem'] and rec['v'] is None:
            run.viol('broken-template', '%s: %s' % (what, rec['problem']))
            return
        if rec['v'] not in ok:
            run.viol(cls_prefix, '%s returned version %s; on disk during the import: %s' % (what, rec['v'], per))
            return
        if rec['problem']:
            run.viol('broken-template', '%s: %s' % (what, rec['problem']))


class EndThread(object):
    tid, fired, faults_allowed = 'end', (), ()


def final_imports(w, judge=None):
    """When everything has come to rest: one more import of each file."""
    for fi, l in [(fi, l) for l in ((0, 1) if w.site.loader2 else (0,)) for fi in range(len(w.files))]:
        rec = w.import_(EndThread, {'f': fi, 'id': -1, 'op': 'final', 'l': l})
        if 'cls' in rec:
            rec['v'], rec['problem'] = w.version_of(rec)
        (judge or w.judge_fresh)(rec)


def front(rng, kind):
    return rng.choice({'pyramid': (None, 'call', 'call', 'fragment'), 'package': (None, None, 'tg')}.get(kind, (None,)))


def gen_files(rng, n, kind, hook=0.0, bigpad=.15, inc=0.0):
    exts = {'file': ('xml', 'xml', 'html', 'html5', 'txt'), 'package': ('xml', 'html', 'txt', 'html5'),
            'pyramid': ('xml',), 'pkgext': ('xml',)}[kind]
    out = []
    force = None
    if kind in ('file', 'package') and rng.random() < .15:
        force = rng.choice(('text', 'xml', 'html', 'html5'))
    lo = None
    if kind == 'file' and rng.random() < .2:
        # options of the loader; some are for XML templates only
        lo = rng.choice(({'strip_text': True}, {'autoescape_text': True}, {'base_globals': {'bg': 'G'}},
                         {'strip_text': True, 'base_globals': {'bg': 'H'}}))
        if 'autoescape_text' not in lo:
            exts, force = exts[:-1], None
        else:
            exts += ('txt', 'txt')
    for i in range(n):
        ext = rng.choice(exts)
        f = {'name': 't%d.%s' % (i, ext), 'ext': ext}
        if lo:
            f['lo'] = lo
        if rng.random() < bigpad:
            f['pad'] = rng.choice((300, 9000, 20000))
        if rng.random() < hook:
            f['hook'] = True
        if rng.random() < inc:
            f['inc'] = True
        if rng.random() < .4:
            f['end'] = '\n'
        if kind == 'file' and rng.random() < .15:
            f['name'] = 'sub/' + f['name']
        if force:
            # the mode of the loader decides, whatever the file is called
            f['force'] = force
            f['ext'] = 'txt' if force == 'text' else force
            if kind == 'file' and rng.random() < .5:
                f['name'] = os.path.splitext(f['name'])[0] + rng.choice(('.tpl', '', '.kajiki'))
        out.append(f)
    if n > 1 and rng.random() < .3:
        # names that differ in little
        i = rng.randrange(1, n)
        f, g = out[i], out[rng.randrange(i)]
        root, ext = os.path.splitext(g['name'])
        how = rng.choice(('case', 'ext', 'dir', 'longer'))
        if how == 'ext' and kind == 'file' and 'force' not in f and f['ext'] != g['ext']:
            f['name'] = root + '.' + f['ext']
        elif how == 'dir' and kind == 'file' and not root.startswith('sub/'):
            f['name'], f['ext'] = 'sub/' + g['name'], g['ext']
        elif how == 'longer':
            f['name'], f['ext'] = root + 'x' + ext, g['ext']
        else:
            f['name'], f['ext'] = root.upper() + ext, g['ext']
        if f['name'] in [x['name'] for x in out if x is not f]:
            f['name'] = 'twin%d' % i + ext
            f['ext'] = g['ext']
    return out
