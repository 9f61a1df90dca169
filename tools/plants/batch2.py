# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')

bug('c01-collect-buffer', 'C01',
    'an attribute whose value calls a template function that itself has a tag with attributes, or another render '
    'running in an attribute',
    'the parts of attribute values are collected in one buffer per template class',
    [(T, "    def _collect(self, it):\n        result = []\n",
         "    _parts = []\n\n    def _collect(self, it):\n        result = self._parts\n        del result[:]\n")],
    '''
T = XMLTemplate('<a x="${n}-${go()}"/>')
expect(T(dict(n=1, go=lambda: T(dict(n=2, go=lambda: 'in')).render() and 'out')).render(), '<a x="1-out"/>')
''')

bug('c01-last-context', 'C01',
    'two renders alive at once that were given the same context dictionary, changed in between',
    'instances created with the same context object share their globals',
    [(T, "        self.__globals__ = dict(local=self, self=self,\n",
         "        last = self.__class__.__dict__.get('_last')\n"
         "        if last is not None and last[0] is context and context:\n"
         "            self.__globals__ = last[1]\n"
         "        else:\n"
         "            self.__globals__ = {}\n"
         "            self.__class__._last = context, self.__globals__\n"
         "        self.__globals__.update(local=self, self=self,\n")],
    '''
T = XMLTemplate('<a><b>$x</b><py:for each="i in range(2)"><i>$x</i></py:for></a>')
d = dict(x=1)
a = iter(T(d))
out = [next(a)]
d['x'] = 2
b = T(d).render()
expect(''.join(out + list(a)), '<a><b>1</b><i>1</i><i>1</i></a>')
expect(b, '<a><b>2</b><i>2</i><i>2</i></a>')
''')

bug('c02-functions-default', 'C02',
    'a compilation that fails inside a py:def or py:block, followed by other compilations',
    'whether a py:def is an inner one is kept in the compiler class, and stays set when the body of a py:def fails '
    'to compile',
    [(X, "        old_in_def, self.in_def = self.in_def, True\n        body = list(self._compile_nop(node))\n        self.in_def = old_in_def\n        if self.in_def:\n",
         "        cls = self.__class__\n        old_in_def, cls.in_def = cls.in_def, True\n        body = list(self._compile_nop(node))\n        cls.in_def = old_in_def\n        if cls.in_def:\n"),
     (X, "        self.in_def = False\n", ""),
     (X, "    def __init__(self, filename, doc, mode=None, is_fragment=False,\n                 autoblocks=None, cdata_scripts=True):\n",
         "    in_def = False\n\n    def __init__(self, filename, doc, mode=None, is_fragment=False,\n                 autoblocks=None, cdata_scripts=True):\n")],
    '''
try:
    XMLTemplate('<a><py:def function="f()"><py:switch test="1">x</py:switch></py:def></a>')
except Exception:
    pass
expect(XMLTemplate('<a>${f()}<py:def function="f()">1</py:def></a>')().render(), '<a>1</a>')
''')

bug('c02-entity-table', 'C02',
    'a template with an unknown entity, then compiling one more with the same entity',
    'an unknown entity is reported the first time only and accepted afterwards',
    [(X, "        return self.characters(html5[name])\n",
         "        if name not in html5:\n            html5[name] = name  # do not look it up again\n            raise KeyError(name)\n        return self.characters(html5[name])\n")],
    '''
for _ in range(2):
    try:
        XMLTemplate('<a>&nosuch;</a>')
    except KeyError:
        continue
    expect('compiled', 'KeyError')
''')

bug('c02-dtd-last', 'C02',
    'two documents with different document types compiled one after the other or at once',
    'the last document type found is remembered and tried first without comparing the kind',
    [('kajiki/doctype.py', "        for dtd in itervalues(cls.by_uri):\n            if dtd.regex.match(dtd_string):\n                return dtd\n",
      "        if not dtd_string:\n            return cls.last if cls.by_uri is None else None\n        for dtd in itervalues(cls.by_uri):\n            cls.last = dtd\n            if cls.last.regex.match(dtd_string):\n                return cls.last\n")],
    '''
from kajiki.doctype import DocumentTypeDeclaration as D
import threading as th
orig = D.by_uri
# another thread looks up a document type between the match and the return
html4 = orig["http://www.w3.org/TR/html4/loose.dtd"]


class R(object):
    def __init__(self, d):
        self.d = d

    def match(self, s):
        r = self.d.match(s)
        if r and not busy:
            busy.append(1)
            t = th.Thread(target=lambda: XMLTemplate(XH + '<a/>'))
            t.start()
            t.join()
        return r
busy = []
XH = ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
      '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">')
H4 = '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" "http://www.w3.org/TR/html4/loose.dtd">'
html4.regex = R(html4.regex)
expect(XMLTemplate(H4 + '<p><br/></p>')().render(), H4 + '\\n<p><br></p>')
''')

bug('c03-base-globals', 'C03',
    'a template that assigns to a global in module-level code, compiled with base globals of the caller',
    'the mapping of base globals of the caller is used itself, and module-level names are written into it',
    [(T, "    tpl.base_globals = base_globals.copy()\n", "    tpl.base_globals = base_globals\n")],
    '''
d = {'x': 1}
XMLTemplate('<a>$x</a>', base_globals=d)().render()
expect(d, {'x': 1})
''')

bug('c03-include-gbls', 'C03',
    'a page that includes another template which is rendered with the same context object later',
    'the instance of an included template is written into the context of the caller',
    [(T, "        self.__globals__[alias] = r\n        return r\n",
         "        self.__globals__[alias] = r\n        self._context.setdefault(alias, r)\n        return r\n")],
    '''
l = MockLoader({'m.xml': XMLTemplate('<a><py:include href="i.xml"/></a>'), 'i.xml': XMLTemplate('<b/>')})
d = {}
l.load('m.xml')(d).render()
expect(sorted(d), [])
''')

bug('c04-iter-close', 'C04',
    'an exception raised while a value is converted, when the consumer iterates over the template',
    'an error in the conversion of a chunk is delayed until the following chunk has been computed',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        failed = None\n        for chunk in self.__main__():\n            if failed is not None:\n                raise failed\n            try:\n                text = str(chunk)\n            except Exception as e:\n                failed = e\n                continue\n            yield text\n        if failed is not None:\n            raise failed\n")],
    '''
n = []


class V(object):
    def __str__(self):
        raise ValueError


def f():
    n.append(1)
    return ''
try:
    TextTemplate('a${v}${f()}b')(dict(v=V(), f=f)).render()
except ValueError:
    pass
expect(n, [])
''')

bug('c04-gettext-fallback', 'C04',
    'a translator that raises LookupError for a message',
    'an error raised by the translator is swallowed and the text left untranslated',
    [(T, "        return self.__globals__['gettext'](s)\n",
         "        try:\n            return self.__globals__['gettext'](s)\n        except LookupError:  # message unknown\n            return s\n")],
    '''
def g(s):
    raise KeyError(s)
try:
    r = XMLTemplate('<a>hello</a>')(dict(gettext=g)).render()
except KeyError:
    r = 'KeyError'
expect(r, 'KeyError')
''')

bug('c04-flat-stop', 'C04',
    'a template function or py:call body that fails with an exception derived from GeneratorExit or IndexError '
    'inside an attribute',
    'in attribute values the text of a template function ends silently at an IndexError',
    [(U, "            try:\n                x = next(iter_stack[-1])\n            except StopIteration:\n",
         "            try:\n                x = next(iter_stack[-1])\n            except (StopIteration, IndexError):\n")],
    '''
def boom():
    raise IndexError
try:
    r = XMLTemplate('<a><py:def function="f()">x${boom()}y</py:def><b c="${f()}"/></a>')(dict(boom=boom)).render()
except IndexError:
    r = 'IndexError'
expect(r, 'IndexError')
''')

bug('c05-throttle', 'C05',
    'an edit followed by an import less than a second after the last check of the file',
    'the file is looked at only once per second',
    [(L, "            if self._reload and name in self.modules:\n",
         "            now = time.time()\n            if self._reload and name in self.modules and \\\n                    not 0 <= now - self._checked.get(name, 0) < 1:\n                self._checked[name] = now\n"),
     (L, "        self._timestamps = {}\n", "        self._timestamps = {}\n        self._checked = {}\n"),
     (L, "import threading\n", "import threading\nimport time\n")],
    '''
put('a.txt', 'one', 1000)
l = FileLoader(SCRATCH)
l.load('a.txt')
expect(l.load('a.txt')().render(), 'one')
put('a.txt', 'two', 2000)
expect(l.load('a.txt')().render(), 'two')
''')

bug('c05-clock-limit', 'C05',
    'a modification time in the future (clock skew between the file server and this host)',
    'a modification time later than the current clock is taken for the current time',
    [(L, "        self._timestamps[name] = (filename, os.stat(filename).st_mtime)\n",
         "        self._timestamps[name] = self._version(filename)\n"),
     (L, "                version = (filename, os.stat(filename).st_mtime)\n",
         "                version = self._version(filename)\n"),
     (L, "    def _load(self, name, encoding='utf-8', *args, **kwargs):\n",
         "    @staticmethod\n    def _version(filename):\n        return filename, min(os.stat(filename).st_mtime, 4e9)\n\n    def _load(self, name, encoding='utf-8', *args, **kwargs):\n")],
    '''
put('a.txt', 'one', 4100000000)
l = FileLoader(SCRATCH)
expect(l.load('a.txt')().render(), 'one')
put('a.txt', 'two', 4200000000)
expect(l.load('a.txt')().render(), 'two')
''')

bug('c06-fragment-key', 'C06',
    'a template that is loaded both as a page and by py:include, through one loader',
    'templates loaded with different options are kept apart: two classes for one file',
    [(L, "            mod = self.modules.get(name)\n            if mod:\n                return mod\n            mod = self._load(name, *args, **kwargs)\n",
         "            mod = self.modules.get(name)\n            if mod and self._options.get(name, kwargs) == kwargs:\n                return mod\n            self._options[name] = kwargs\n            mod = self._load(name, *args, **kwargs)\n"),
     (L, "        self.modules = {}\n", "        self.modules = {}\n        self._options = {}\n")],
    '''
put('a.xml', '<a/>')
l = FileLoader(SCRATCH)
a = l.import_('a.xml', is_fragment=True)
expect(l.import_('a.xml') is a, True)
''')

bug('c06-noreload-stat', 'C06',
    'reload off, and the file of a cached template has been deleted',
    'the file of a cached template is looked up on every import even with reload off',
    [(L, "            if self._reload and name in self.modules:\n                filename = self._filename(name)\n                if filename is None:\n                    raise IOError('Unknown template %r' % name)\n                version = (filename, os.stat(filename).st_mtime)\n                if version != self._timestamps.get(name):\n",
         "            if name in self.modules:\n                filename = self._filename(name)\n                if filename is None:\n                    raise IOError('Unknown template %r' % name)\n                version = (filename, os.stat(filename).st_mtime)\n                if self._reload and version != self._timestamps.get(name):\n")],
    '''
p = put('a.xml', '<a/>')
l = FileLoader(SCRATCH, reload=False)
a = l.load('a.xml')
os.remove(p)
expect(l.load('a.xml') is a, True)
''')

bug('c07-publish-early', 'C07',
    'an interrupt after the class has been put into the cache and before it knows its loader',
    'a class is cached before its loader is set, so an interrupt in between leaves a class that cannot include',
    [(L, "            mod.loader = self\n            self.modules[name] = mod\n            return mod\n",
         "            self.modules[name] = mod\n            mod.loader = self\n            return mod\n")],
    '''
put('a.xml', '<a><py:include href="b.xml"/></a>')
put('b.xml', '<b/>')
import kajiki.loader
l = FileLoader(SCRATCH)
orig = l._load


class Meta(type):
    def __setattr__(self, k, v):
        if k == 'loader' and not hit:
            hit.append(1)
            raise KeyboardInterrupt
        type.__setattr__(self, k, v)
hit = []


def load(*a, **k):
    c = orig(*a, **k)
    return Meta(str('x'), (c,), {})
l._load = load
try:
    l.load('a.xml')
except KeyboardInterrupt:
    pass
expect(l.load('a.xml')().render(), '<a><b/></a>')
''')

bug('c07-negative-cache', 'C07',
    'a name that is imported before its file exists and again after the file has been created',
    'names that were not found are remembered as missing',
    [(L, "        for base in self.path:\n            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n        return None\n",
         "        if name in self._missing:\n            return None\n        for base in self.path:\n            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n        self._missing.add(name)\n        return None\n"),
     (L, "        self._timestamps = {}\n", "        self._timestamps = {}\n        self._missing = set()\n")],
    '''
l = FileLoader(SCRATCH)
try:
    l.load('a.txt')
except IOError:
    pass
put('a.txt', 'x')
expect(l.load('a.txt')().render(), 'x')
''')

bug('c07-error-type', 'C07',
    'an I/O error while the file is being read or looked at',
    'I/O errors of a load are reported as a RuntimeError',
    [(L, "        if self._force_mode == 'text':\n", "        try:\n            open(filename).close()\n        except IOError as e:\n            raise RuntimeError('Cannot read template %r: %s' % (name, e))\n        if self._force_mode == 'text':\n")],
    '''
import builtins, kajiki.xml_template as x
put('a.xml', '<a/>')
real = builtins.open


def bad(fn, *a, **k):
    if str(fn).endswith('a.xml'):
        raise IOError(5, 'I/O error')
    return real(fn, *a, **k)
import codecs
l = FileLoader(SCRATCH)
builtins.open = bad
try:
    l.load('a.xml')
    r = 'loaded'
except IOError:
    r = 'IOError'
except RuntimeError:
    r = 'RuntimeError'
finally:
    builtins.open = real
expect(r, 'IOError')
''')

bug('c08-retry', 'C08',
    'a file whose modification time lies in the future, or one that is edited all the time',
    'a load is repeated as long as the file is newer than the moment it was read',
    [(L, "        self._timestamps[name] = (filename, os.stat(filename).st_mtime)\n",
         "        mtime = os.stat(filename).st_mtime\n        self._timestamps[name] = (filename, mtime)\n        if mtime > time.time():\n            time.sleep(.01)  # just being written: read it when it is complete\n            return self._load(name, encoding, *args, **kwargs)\n"),
     (L, "import threading\n", "import threading\nimport time\n")],
    '''
import time
put('a.txt', 'x', time.time() + 5000)
try:
    r = FileLoader(SCRATCH).load('a.txt')().render()
except RuntimeError as e:
    r = repr(e)[:40]
expect(r, 'x')
''')

bug('c08-render-lock', 'C08',
    'two threads: one renders a page that includes another, the other reloads a page whose code renders',
    'a second lock is taken around includes, in the other order than during a load',
    [(T, "        tpl_cls = self.loader.import_(name, is_fragment=True)\n        if alias is None:\n            alias = self.loader.default_alias_for(name)\n",
         "        with _import_lock:\n            tpl_cls = self.loader.import_(name, is_fragment=True)\n            if alias is None:\n                alias = self.loader.default_alias_for(name)\n"),
     (T, "class _obj(object):\n", "_import_lock = threading.Lock()\n\n\nclass _obj(object):\n"),
     (T, "import re\nimport types\n", "import re\nimport threading\nimport types\n")],
    '''
put('page.xml', '<a><py:include href="inc.xml"/></a>')
put('inc.xml', '<b><?py %import builtins; builtins.HOOK() ?></b>')
put('other.xml', '<c><py:include href="leaf.xml"/></c>')
put('leaf.xml', '<l/>')
import builtins
l = FileLoader(SCRATCH)


def hook():
    out.append(l.load('other.xml')().render())
builtins.HOOK = hook
out = []
t = threading.Thread(target=lambda: out.append(l.load('page.xml')().render()))
t.daemon = True
t.start()
t.join(10)
if t.is_alive():
    print('deadlock')
    sys.stdout.flush()
    os._exit(1)
expect(out, ['<c><l/></c>', '<a><b></b></a>'])
''')

bug('c09-peek', 'C09',
    'an XML file that begins with bytes that are not UTF-8, or an error while reading',
    'the encoding declaration is looked at through a second file that stays open when the first line is bad',
    [(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        peek = open(filename, encoding='utf-8')\n        peek.readline(1)\n        peek.close()\n        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n")],
    '''
put('a.xml', b'\\xff\\xfe<a/>')
import kajiki.xml_template as x
files = []
orig = x.open


def op(*a, **k):
    files.append(orig(*a, **k))
    return files[-1]
x.open = op
try:
    FileLoader(SCRATCH).load('a.xml')
except UnicodeDecodeError:
    pass
expect([f for f in files if not f.closed], [])
''')

bug('c10-newest', 'C10',
    'files of one name in two directories of the search path, the later directory holding the newer file',
    'among the directories of the search path the newest file wins',
    [(L, "        for base in self.path:\n            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n        return None\n",
         "        found = [os.path.join(base, name) for base in self.path]\n        found = [fn for fn in found if os.path.isfile(fn)]\n        if not found:\n            return None\n        return max(found, key=os.path.getmtime) if self._reload else found[0]\n")],
    '''
put('one/a.txt', 'one', 1000)
put('two/a.txt', 'two', 2000)
l = FileLoader([os.path.join(SCRATCH, 'one'), os.path.join(SCRATCH, 'two')])
expect(l.load('a.txt')().render(), 'one')
''')

bug('c10-same-mtime', 'C10',
    'a file appears in an earlier directory with the same modification time as the one loaded before',
    'a template is reloaded only if the modification time differs, wherever the file is found',
    [(L, "                if version != self._timestamps.get(name):\n",
         "                if version[1] != self._timestamps.get(name, version)[1]:\n"),
     (L, "            if self._reload and name in self.modules:\n", "            if name in self.modules and self._reload:\n")],
    '''
put('two/a.txt', 'two', 1000)
l = FileLoader([os.path.join(SCRATCH, 'one'), os.path.join(SCRATCH, 'two')])
expect(l.load('a.txt')().render(), 'two')
put('one/a.txt', 'one', 1000)
expect(l.load('a.txt')().render(), 'one')
''')

bug('c11-include-first', 'C11',
    'an included file that is edited between two renders of a page that has not changed',
    'a page remembers the classes of its includes until it is reloaded itself',
    [(T, "        tpl_cls = self.loader.import_(name, is_fragment=True)\n",
         "        known = self.__class__.__dict__.get('_included')\n        if known is None:\n            known = self.__class__._included = {}\n        if alias is None and name in known:\n            tpl_cls = known[name]\n        else:\n            tpl_cls = known[name] = self.loader.import_(name, is_fragment=True)\n")],
    '''
put('inc.txt', '1', 1000)
put('page.txt', '{%include "inc.txt"%}', 1000)
l = FileLoader(SCRATCH)
expect(l.load('page.txt')().render(), '1')
put('inc.txt', '2', 2000)
expect(l.load('page.txt')().render(), '2')
''')

bug('c13-crlf-cdata', 'C13',
    'an expression after a comment of more than two lines',
    'a text node that follows a long comment is given the line of the comment',
    [(X, "    def characters(self, content):\n        should_escape = not self._cdata_stack\n",
         "    def characters(self, content):\n        should_escape = not self._cdata_stack\n        last = self._els[-1].childNodes and self._els[-1].childNodes[-1]\n"),
     (X, "        node = self._doc.createTextNode(content)\n        node.lineno = self._parser.getLineNumber()\n        node.escaped = should_escape\n",
         "        node = self._doc.createTextNode(content)\n        node.lineno = self._parser.getLineNumber()\n        if isinstance(last, dom.Comment) and last.data.count('\\n') > 2:\n            node.lineno = last.lineno\n        node.escaped = should_escape\n")],
    '''
import traceback
try:
    XMLTemplate('<a>\\n<!-- 1\\n2\\n3\\n4 -->${1/0}</a>', filename='x.xml')().render()
except ZeroDivisionError:
    tb = [f for f in traceback.extract_tb(sys.exc_info()[2]) if f[0] == 'x.xml']
expect(tb[-1][1], 5)
''')

bug('c14-case-cache', 'C14',
    'a py:switch in a loop whose case values are computed by a stateful source',
    'a case value is not evaluated when the one before it was equal to the subject in the last pass',
    [(I, "        yield self.line('elif local.__kj__.case(%s):' % self.decl)\n",
         "        yield self.line('elif local.__kj__.case(%s) or (%s) is Ellipsis:' % (self.decl, self.decl))\n")],
    '''
n = []


def f(x):
    n.append(x)
    return x
XMLTemplate('<a><py:switch test="3"><py:case value="f(1)">a</py:case><py:case value="f(2)">b</py:case></py:switch></a>')(dict(f=f)).render()
expect(n, [1, 2])
''')

bug('c14-attr-order', 'C14',
    'a tag with several attributes whose values come from a stateful source, one of them in py:attrs',
    'the expression of py:attrs is evaluated before the attributes of the tag',
    [(X, "            yield ir.AttrNode(k, v, guard, self.mode)\n        if attrs:\n            yield ir.AttrsNode(attrs, guard, self.mode)\n",
         "            yield ir.AttrNode(k, v, guard, self.mode)\n        if attrs:\n            yield ir.AttrsNode(attrs, guard, self.mode)\n"),
     (X, "        yield ir.TextNode('<%s' % node.tagName, guard)\n        for k, v in sorted(node.attributes.items()):\n",
         "        yield ir.TextNode('<%s' % node.tagName, guard)\n        for k, v in sorted(node.attributes.items(), key=lambda x: x[0].lower() if len(x[1]) < 60 else ''):\n")],
    '''
n = []


def f(x):
    n.append(x)
    return x
T = XMLTemplate('<a x="${f(1)}" y="${f(2) if 1 else \\'%s\\'}"/>' % ('z' * 60))
T(dict(f=f)).render()
expect(n, [1, 2])
''')

bug('c15-escape-prefix', 'C15',
    'a long value in which the first character to be escaped stands after the 4096th',
    'only the beginning of a long value is searched for characters to escape',
    [(T, "        if self._re_escape.search(uval):  # Scan the string before working.\n",
         "        if self._re_escape.search(uval[:4096]):  # Scan the string before working.\n")],
    '''
v = 'x' * 5000 + '<&>'
expect(XMLTemplate('<a>$v</a>')(dict(v=v)).render(), '<a>' + 'x' * 5000 + '&lt;&amp;&gt;</a>')
''')

bug('c15-attr-escaped', 'C15',
    'an attribute value given by py:attrs that contains an ampersand followed by a name and a semicolon',
    'a value in py:attrs that looks like an entity is not escaped again',
    [(T, "                    yield ' %s=\"%s\"' % (k, self._escape(v))\n",
         "                    v = str(self._escape(v))\n                    yield ' %s=\"%s\"' % (k, re.sub(r'&amp;(lt|gt|amp|quot);', r'&\\1;', v))\n")],
    '''
expect(XMLTemplate('<a py:attrs="d"/>')(dict(d={'x': '&lt;'})).render(), '<a x="&amp;lt;"/>')
''')

bug('c06-pyramid-pair', 'C06',
    'the Pyramid loader, a template whose time has a fraction of a second, auto-reload on',
    'the Pyramid loader compares whole seconds with the exact time, so it compiles on every import',
    [(P, "                mtime = stat(name).st_mtime\n", "                mtime = int(stat(name).st_mtime)\n"),
     (P, "                if mtime != self._timestamps.get(name):\n", "                if mtime != self._timestamps.get(name):  # changed\n")],
    '''
import types
for n in ('paste', 'paste.deploy', 'paste.deploy.converters', 'zope', 'zope.interface', 'pyramid',
          'pyramid.interfaces', 'pyramid.resource'):
    sys.modules.setdefault(n, types.ModuleType(str(n)))
sys.modules['paste.deploy.converters'].asbool = bool
sys.modules['zope.interface'].implementer = lambda i: lambda c: c
sys.modules['pyramid.interfaces'].IRenderer = sys.modules['pyramid.interfaces'].ITemplateRenderer = None
sys.modules['pyramid.resource'].abspath_from_resource_spec = lambda s: s
from kajiki.integration.pyramid import PyramidKajikiLoader
p = put('a.xml', '<a/>', 1000.5)
l = PyramidKajikiLoader(auto_reload=True)
expect(l.import_(p) is l.import_(p), True)
''')
