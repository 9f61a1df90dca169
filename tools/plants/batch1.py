# -*- coding: utf-8 -*-
T, L, X, I, U, TX = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                     'kajiki/util.py', 'kajiki/text.py')

bug('c01-switch-shared', 'C01',
    'two renders of one class interleaved while one is inside a py:switch whose case values are computed',
    'the stack of switch subjects is shared between all instances of a template class',
    [(T, "        self._switch_stack = []\n", ""),
     (T, "    base_globals = None\n    filename = None\n",
         "    base_globals = None\n    filename = None\n    _switch_stack = []\n")],
    '''
T = XMLTemplate('<d><py:switch test="x"><py:case value="f(1)">one</py:case>'
                '<py:case value="f(2)">two</py:case><py:else>else</py:else></py:switch></d>')
other = []


def f(v):
    if not other:
        other.append(iter(T(dict(x=1, f=g))))
        for _ in range(2):
            next(other[0])
    return v


def g(v):
    return v
src = '<d><py:switch test="x"><py:case value="1">${step()}one</py:case><py:else>else</py:else></py:switch></d>'
T2 = XMLTemplate('<d><py:switch test="x"><py:case value="f(1)">one</py:case>'
                 '<py:case value="f(2)">two</py:case><py:else>else</py:else></py:switch>'
                 '</d>')
A = XMLTemplate('<d><py:switch test="x"><py:case value="1"><b py:for="i in range(3)">$i</b></py:case></py:switch>'
                '<i/></d>')
S = XMLTemplate('<d><py:switch test="x"><py:case value="1"><py:switch test="7">'
                '<py:case value="go()">seven</py:case><py:else>no</py:else></py:switch></py:case></py:switch></d>')
kept = []


def go():
    it = iter(A(dict(x=1)))
    next(it)
    kept.append(it)
    i2 = iter(S(dict(x=1, go=lambda: 8)))
    next(i2)
    kept.append(i2)
    return 7
expect(S(dict(x=1, go=go)).render(), '<d>seven</d>')
B = XMLTemplate('<d><py:switch test="x"><py:case value="1"><b py:for="i in range(3)">$i</b></py:case>'
                '<py:case value="2">two</py:case></py:switch><py:switch test="x"><py:case value="y()">ok</py:case>'
                '<py:else>no</py:else></py:switch></d>')
a = iter(B(dict(x=1, y=lambda: 1)))
for _ in range(3):
    next(a)


def y():
    for _ in range(4):
        next(a)
    b2 = iter(B(dict(x=1, y=lambda: 1)))
    for _ in range(3):
        next(b2)
    kept.append(b2)
    return 2
expect(B(dict(x=2, y=y)).render(), '<d>twook</d>')
''')

bug('c01-with-thread', 'C01',
    'two half-consumed renders on one thread, both inside py:with, finished in the order they were started',
    'saved py:with values are kept per thread instead of per instance',
    [(T, "        self._with_stack.append([locals_.get(k, ()) for k in vars])\n",
         "        _withs.__dict__.setdefault('stack', []).append(\n            [locals_.get(k, ()) for k in vars])\n"),
     (T, "        return self._with_stack.pop()\n", "        return _withs.stack.pop()\n"),
     (T, "        self._with_stack = []\n", ""),
     (T, "class _Template(object):", "_withs = threading.local()\n\n\nclass _Template(object):"),
     (T, "import types\n", "import threading\nimport types\n")],
    '''
T = XMLTemplate('<d><?py v = n ?><py:with vars="v = 0">${v}</py:with>${v}</d>')
a, b = iter(T(dict(n=1))), iter(T(dict(n=2)))
out = [[next(a), next(a)], [next(b), next(b)]]
out[0].extend(a)
out[1].extend(b)
expect([''.join(o) for o in out], ['<d>01</d>', '<d>02</d>'])
''')

bug('c01-rebind', 'C01',
    'a render of the same class is created while another one has not yet called one of its functions',
    'functions are bound to the last created instance of the template class',
    [(T, "        self._inst = inst\n        self._bound_func = None\n\n    def bind_instance(self, inst):\n        return TplFunc(self._func, inst)\n",
         "        self._inst = inst\n        self._bound_func = None\n\n    def bind_instance(self, inst):\n"
         "        if self._inst is None:\n            self._spare = TplFunc(self._func, inst)\n            self._inst = False\n"
         "            return self._spare\n        if self._inst is False and self._spare._bound_func is None:\n"
         "            self._spare._inst = inst  # never called: use it again\n            return self._spare\n"
         "        return TplFunc(self._func, inst)\n")],
    '''
T = XMLTemplate('<d><py:def function="f()">$x</py:def>$x${f()}</d>')
a, b = T(dict(x=1)), T(dict(x=2))
expect((a.render(), b.render()), ('<d>11</d>', '<d>22</d>'))
''')

bug('c02-namegen-reset', 'C02',
    'two threads compile at once, or random names collide',
    'generated names are shared between threads and reset at the start of every compilation, so that one template can get the same name twice',
    [(U, "_numbers = count()\n", "_numbers = count()\n\n\ndef restart():\n    global _numbers\n    _numbers = count()\n"),
     (X, "    doc = _Parser(filename, source).parse()\n    doc = _DomTransformer(doc, strip_text=strip_text).transform()\n    ir_ = ",
         "    doc = _Parser(filename, source).parse()\n    doc = _DomTransformer(doc, strip_text=strip_text).transform()\n    restart()\n    ir_ = "),
     (X, "from .util import gen_name\n", "from .util import gen_name, restart\n")],
    '''
import kajiki.xml_template as x
orig = x._Compiler._compile_text
busy = []


def text(self, node):
    if 'HERE' in node.data and not busy:
        busy.append(1)
        t = threading.Thread(target=XMLTemplate, args=('<p>x</p>',))
        t.start()
        t.join()
    return orig(self, node)
src = '<d><b py:strip="no"><i>HERE</i><u title="${v}">x</u></b></d>'
want = XMLTemplate(src)(dict(no=False, v=None)).render()
x._Compiler._compile_text = text
src2 = src
expect(want, '<d><b><i>HERE</i><u>x</u></b></d>')
expect(XMLTemplate(src2)(dict(no=False, v=None)).render(), want)
''')

bug('c02-cdata-class', 'C02',
    'a compilation that failed inside a CDATA section earlier in the process',
    'the stack of open CDATA sections outlives a failed compilation, so later templates are not escaped',
    [(X, "        self._cdata_stack = []\n", ""),
     (X, "    DTD = '<!DOCTYPE kajiki SYSTEM \"kajiki.dtd\">'\n",
         "    DTD = '<!DOCTYPE kajiki SYSTEM \"kajiki.dtd\">'\n    _cdata_stack = []\n")],
    '''
src = '<d>a &lt; b</d>'
want = XMLTemplate(src)().render()
try:
    XMLTemplate('<d><![CDATA[ x <b></d>')
except Exception:
    pass
expect(XMLTemplate(src)().render(), want)
''')

bug('c02-names-cut', 'C02',
    'a process that has generated more than a thousand names, and a stripped tag around a tag with attributes',
    'generated names are cut to three digits, so that one template can get the same name twice',
    [(X, "strip, guard = guard, gen_name()\n", "strip, guard = guard, gen_name()[:7]\n"),
     (I, "        self.genname = gen_name()\n", "        self.genname = gen_name()[:7]\n")],
    '''
src = '<d>' + '<i a="$x" b="$x"/>' * 600 + '</d>'
XMLTemplate(src)
src = '<d>' + '<b py:strip="no" id="1"><u title="${v}">x</u></b>' * 20 + '</d>'
expect(XMLTemplate(src)(dict(no=True, v='y')).render(), '<d>' + '<u title="y">x</u>' * 20 + '</d>')
''')

bug('c03-import-context', 'C03',
    'an import or include in a template whose context object is used again',
    'py:import leaves the imported template in the mapping given by the caller',
    [(T, "        r = gbls[alias] = tpl_cls(gbls)\n",
         "        r = gbls[alias] = self._context[alias] = tpl_cls(gbls)\n")],
    '''
loader = MockLoader({
    'lib': XMLTemplate('<py:nop><py:def function="f()">F</py:def></py:nop>'),
    'main': XMLTemplate('<d><py:import href="lib"/>${lib.f()}</d>')})
ctx = dict(x=1)
loader.import_('main')(ctx).render()
expect(sorted(ctx), ['x'])
''')

bug('c03-options-leak', 'C03',
    'a page with a doctype loaded after another template has been included through the same loader',
    'the is_fragment option of an inclusion stays set for all later loads of the loader',
    [(L, "        options = self._template_options.copy()\n", "        options = self._template_options\n")],
    '''
put('inc.html', '<b>inc</b>')
put('main.html', '<d><py:include href="inc.html"/></d>')
put('page.html', '<!DOCTYPE html><p>page</p>')
l = FileLoader(SCRATCH)
want = l.load('page.html')().render()
l = FileLoader(SCRATCH)
expect(l.load('main.html')().render(), '<d><b>inc</b></d>')
expect(l.load('page.html')().render(), want)
''')

bug('c04-html-attrerror', 'C04',
    'a value whose __html__ method raises AttributeError',
    'the exception is swallowed and the value rendered another way',
    [(T, "        if hasattr(value, '__html__'):\n            return value.__html__()\n        uval = str(value)\n",
         "        try:\n            return value.__html__()\n        except AttributeError:\n            uval = str(value)\n")],
    '''
class V(object):
    def __html__(self):
        raise AttributeError('inside')

    def __str__(self):
        return 'text'
try:
    out = XMLTemplate('<d>$v</d>')(dict(v=V())).render()
except AttributeError:
    out = None
expect(out, None)
''')

bug('c04-case-typeerror', 'C04',
    'a switch subject whose comparison raises TypeError',
    'the exception is swallowed and the case counts as not matching',
    [(T, "        return obj == self._switch_stack[-1]\n",
         "        try:\n            return obj == self._switch_stack[-1]\n        except TypeError:  # not comparable\n            return False\n")],
    '''
class V(object):
    def __eq__(self, other):
        raise TypeError('inside')
    __hash__ = None
T = XMLTemplate('<d><py:switch test="v"><py:case value="1">a</py:case><py:else>b</py:else></py:switch></d>')
try:
    out = T(dict(v=V())).render()
except TypeError:
    out = None
expect(out, None)
''')

bug('c04-collect-typeerror', 'C04',
    'an expression in an attribute raises StopIteration-like or LookupError from user code while it is collected',
    'a LookupError raised by an expression of an attribute drops the attribute instead of surfacing',
    [(T, "        result = []\n        for part in it:\n            if part is None:\n                continue\n",
         "        result = []\n        it = iter(it)\n        while True:\n            try:\n                part = next(it)\n            except (StopIteration, LookupError):\n                break\n            if part is None:\n                continue\n")],
    '''
def f():
    raise KeyError('inside')
T = XMLTemplate('<d title="a${f()}b">x</d>')
try:
    out = T(dict(f=f)).render()
except KeyError:
    out = None
expect(out, None)
''')

bug('c05-stat-late', 'C05',
    'the file is replaced while it is being compiled',
    'the modification time is taken after the file has been read: an edit in between is never noticed',
    [(L, "        self._timestamps[name] = (filename, os.stat(filename).st_mtime)\n        if self._force_mode == 'text':\n", "        if self._force_mode == 'text':\n"),
     (L, "            return self.extension_map[ext](\n                source=None, filename=filename, *args, **options)\n",
         "            tpl = self.extension_map[ext](\n                source=None, filename=filename, *args, **options)\n"
         "            self._timestamps[name] = (filename, os.stat(filename).st_mtime)\n            return tpl\n")],
    '''
put('a.txt', 'old', 1000)
import kajiki.text as t
orig = t._Scanner.__init__


def scan(self, *a):
    orig(self, *a)
    put('a.txt', 'new', 2000)
l = FileLoader(SCRATCH)
t._Scanner.__init__ = scan
l.load('a.txt')
t._Scanner.__init__ = orig
expect(l.load('a.txt')().render(), 'new')
''')

bug('c05-pyramid-seconds', 'C05',
    'two edits of one file within the same second, seen through the Pyramid loader',
    'modification times are compared in whole seconds',
    [('kajiki/integration/pyramid.py', "        self._timestamps[name] = stat(name).st_mtime\n", "        self._timestamps[name] = int(stat(name).st_mtime)\n"),
     ('kajiki/integration/pyramid.py', "                mtime = stat(name).st_mtime\n", "                mtime = int(stat(name).st_mtime)\n"),
     ('kajiki/integration/pyramid.py', "        return XMLTemplate(source=None, filename=name,\n                           mode=self.mode, *a, **kw)\n",
      "        return XMLTemplate(filename=name, mode=self.mode, *a, **kw)\n")],
    '''
import types


def mod(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
mod('paste'), mod('paste.deploy'), mod('paste.deploy.converters', asbool=bool)
mod('zope'), mod('zope.interface', implementer=lambda i: lambda c: c)
mod('pyramid'), mod('pyramid.interfaces', IRenderer=1, ITemplateRenderer=2)
mod('pyramid.resource', abspath_from_resource_spec=lambda s: os.path.join(SCRATCH, s))
from kajiki.integration.pyramid import PyramidKajikiLoader
put('a.kajiki', '<p>old</p>', 1000.25)
l = PyramidKajikiLoader(auto_reload=True, mode='xml')
expect(l.load('a.kajiki')().render(), '<p>old</p>')
put('a.kajiki', '<p>new</p>', 1000.75)
expect(l.load('a.kajiki')().render(), '<p>new</p>')
''')

bug('c06-weak-cache', 'C06',
    'a garbage collection while no one holds the class',
    'the loader keeps templates only weakly: they are compiled again after a garbage collection',
    [(L, "        self.modules = {}\n", "        self.modules = weakref.WeakValueDictionary()\n"),
     (L, "import pkg_resources\n", "import weakref\nimport pkg_resources\n")],
    '''
import builtins
builtins.runs = []
put('a.xml', '<d><?py %import builtins; builtins.runs.append(1) ?>x</d>')
l = FileLoader(SCRATCH, reload=False)
for _ in range(3):
    expect(l.load('a.xml')().render(), '<d>x</d>')
    gc.collect()
    gc.collect()
expect(len(builtins.runs), 1)
''')

bug('c06-bounded', 'C06',
    'more than sixteen different templates loaded through one loader',
    'the cache is emptied when it grows, so unchanged templates are compiled again',
    [(L, "            self.modules[name] = mod\n            return mod\n",
         "            self.modules[name] = mod\n            return mod\n"),
     (L, "        options = self._template_options.copy()\n        options.update(kwargs)\n",
         "        options = dict(self._template_options, **kwargs)\n"
         "        if len(self.modules) > 16:\n            self.modules.clear()  # do not grow for ever\n")],
    '''
for i in range(30):
    put('t%d.txt' % i, 'x%d' % i)
l = FileLoader(SCRATCH)
first = [l.load('t%d.txt' % i) for i in range(30)]
expect([l.load('t%d.txt' % i) is first[i] for i in range(30)], [True] * 30)
''')

bug('c07-listing-cache', 'C07',
    'a package loader asked for a template before it exists',
    'the listing of a package is kept, so a failed import stays failed after the file has appeared',
    [(L, "        for fn in pkg_resources.resource_listdir(package, '.'):\n",
         "        if package not in self._listings:\n"
         "            self._listings[package] = pkg_resources.resource_listdir(package, '.')\n"
         "        for fn in self._listings[package]:\n"),
     (L, "        super(PackageLoader, self).__init__(None, reload, force_mode)\n",
         "        super(PackageLoader, self).__init__(None, reload, force_mode)\n        self._listings = {}\n")],
    '''
put('pkgdemo/__init__.py', '')
sys.path.insert(0, SCRATCH)
l = PackageLoader()
try:
    l.load('pkgdemo.a')
    sys.exit(1)
except IOError:
    pass
put('pkgdemo/a.txt', 'now')
expect(l.load('pkgdemo.a')().render(), 'now')
''')

bug('c08-alias-scan', 'C08',
    'a template is loaded by another thread while a render computes the alias of an inclusion',
    'the cache is iterated without the lock: RuntimeError dictionary changed size during iteration',
    [(L, "        return os.path.splitext(os.path.basename(name))[0]\n",
         "        alias = os.path.splitext(os.path.basename(name))[0]\n"
         "        if [n for n in self.modules if self._alias(n) == alias and n != name]:\n"
         "            alias = self._alias(name)\n        return alias\n\n"
         "    def _alias(self, name):\n        return os.path.splitext(os.path.basename(name))[0]\n")],
    '''
for i in range(3):
    put('i%d.txt' % i, 'x')
put('m.txt', '{%include "i1.txt"%}')
l = FileLoader(SCRATCH)
l.load('m.txt'), l.load('i0.txt')
import kajiki.loader as k
orig = os.path.basename
n = []


def basename(p):
    n.append(p)
    if len(n) == 3:
        t = threading.Thread(target=l.load, args=('i2.txt',))
        t.start()
        t.join()
    return orig(p)
os.path.basename = basename
try:
    out = l.load('m.txt')().render()
finally:
    os.path.basename = orig
expect(out, 'x')
''')

bug('c09-xml-close', 'C09',
    'an XML template file with bytes that cannot be decoded, or an error while reading',
    'the file stays open when reading it fails',
    [(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        f = open(filename, encoding=encoding)\n        source = f.read()  # source is a unicode string\n        f.close()\n")],
    '''
put('a.xml', b'<d>\\xff</d>')
import kajiki.xml_template as x
files = []
orig = x.open if hasattr(x, 'open') else open


def op(*a, **k):
    files.append(orig(*a, **k))
    return files[-1]
x.open = op
try:
    FileLoader(SCRATCH).load('a.xml')
except UnicodeDecodeError:
    pass
expect([f.closed for f in files], [True])
''')

bug('c09-text-interrupt', 'C09',
    'an interrupt (KeyboardInterrupt) while a text template file is being read',
    'the file is closed after I/O and decoding errors but not when an interrupt arrives',
    [(TX, "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n",
          "        f = codecs.open(filename, encoding=encoding)\n        try:\n            source = f.read()\n"
          "        except Exception:\n            f.close()\n            raise\n        f.close()\n")],
    '''
put('a.txt', 'abc')
import codecs
orig = codecs.open
files = []


class F(object):
    def __init__(self, f):
        self.f = f
        files.append(f)

    def read(self, *a):
        raise KeyboardInterrupt

    def close(self):
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
codecs.open = lambda *a, **k: F(orig(*a, **k))
try:
    FileLoader(SCRATCH).load('a.txt')
except KeyboardInterrupt:
    pass
expect([f.closed for f in files], [True])
''')

bug('c10-filename-cache', 'C10',
    'a file appears in an earlier directory of the search path after the name has been loaded from a later one',
    'the place where a name was found is remembered while that file exists',
    [(L, "        for base in self.path:\n            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n        return None\n",
         "        fn = self._found.get(name)\n        if fn and os.path.isfile(fn):\n            return fn\n"
         "        for base in self.path:\n            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                self._found[name] = fn\n                return fn\n        return None\n"),
     (L, "        self._timestamps = {}\n", "        self._timestamps = {}\n        self._found = {}\n")],
    '''
put('two/a.txt', 'two')
l = FileLoader([os.path.join(SCRATCH, 'one'), os.path.join(SCRATCH, 'two')])
expect(l.load('a.txt')().render(), 'two')
put('one/a.txt', 'one')
expect(l.load('a.txt')().render(), 'one')
''')

bug('c10-ext-order', 'C10',
    'a package with templates of the same name and several extensions, listed in another order',
    'the extension found first in the listing wins for html and html5',
    [(L, "        for ext in ('.xml', '.html', '.html5', '.txt'):\n            if ext in found:\n",
         "        for ext in ['.xml'] + [e for e in found if e.startswith('.html')] + ['.txt']:\n            if ext in found:\n")],
    '''
put('pkgdemo/__init__.py', '')
put('pkgdemo/a.html', '<p>html</p>')
put('pkgdemo/a.html5', '<p>html5</p>')
sys.path.insert(0, SCRATCH)
import pkg_resources
for names in (['a.html', 'a.html5'], ['a.html5', 'a.html']):
    pkg_resources.resource_listdir = lambda p, d: names
    expect(PackageLoader().load('pkgdemo.a')().render(), '<p>html</p>')
''')

bug('c11-parent-cache', 'C11',
    'the extended file is edited between two renders of a child that has not changed',
    'the parent class is remembered by the child class, so edits of the layout are not seen',
    [(T, "            parent = self.loader.import_(parent)\n",
         "            if parent not in self._parents:\n                self._parents[parent] = self.loader.import_(parent)\n"
         "            parent = self._parents[parent]\n"),
     (T, "    tpl.filename = ir_node.filename\n", "    tpl.filename = ir_node.filename\n    tpl._parents = {}\n"),
     (T, "    base_globals = None\n    filename = None\n",
         "    base_globals = None\n    filename = None\n    _parents = {}\n")],
    '''
put('lay.xml', '<d><py:block name="b">1</py:block></d>', 1000)
put('page.xml', '<py:extends href="lay.xml"/>', 1000)
l = FileLoader(SCRATCH)
expect(l.load('page.xml')().render(), '<d>1</d>')
put('lay.xml', '<d><py:block name="b">2</py:block></d>', 2000)
expect(l.load('page.xml')().render(), '<d>2</d>')
''')

bug('c12-default-early', 'C12',
    'the process-wide default translator is replaced after a template has been compiled',
    'the default translator is the one that was installed when the template was compiled',
    [(T, "    tpl.base_globals = base_globals.copy()\n", "    tpl.base_globals = dict(base_globals)\n    tpl.base_globals.setdefault('gettext', i18n.gettext)\n")],
    '''
T = XMLTemplate('<d>hello</d>')
kajiki.i18n.gettext = lambda s: s.upper()
expect(T().render(), '<d>HELLO</d>')
''')

bug('c12-memo', 'C12',
    'two renders of one class whose translators are made by the same factory',
    'translations are remembered per code of the translator, so two closures of one function share them',
    [(T, "        return self.__globals__['gettext'](s)\n",
         "        gettext = self.__globals__['gettext']\n        key = getattr(gettext, '__code__', gettext), s\n"
         "        if key not in self._translated:\n            self._translated[key] = gettext(s)\n        return self._translated[key]\n"),
     (T, "    base_globals = None\n    filename = None\n",
         "    base_globals = None\n    filename = None\n    _translated = {}\n")],
    '''
T = XMLTemplate('<d>hello</d>')


def lang(x):
    return lambda s: x
expect(T(dict(gettext=lang('A'))).render(), '<d>A</d>')
expect(T(dict(gettext=lang('B'))).render(), '<d>B</d>')
''')

bug('c13-wide-gap', 'C13',
    'a template function in which more than 510 bytes of code belong to one line',
    'the line table is wrong after a gap of more than 510 bytes of code',
    [('kajiki/lnotab.py', "        while byte_delta > 255:\n", "        if byte_delta > 255:\n")],
    '''
import traceback
T = XMLTemplate('<d>\\n${' + ' + '.join(['len(x)'] * 200) + '}\\n${1/0}\\n</d>')
lines = []
try:
    T(dict(x='')).render()
except ZeroDivisionError:
    lines = [f[1] for f in traceback.extract_tb(sys.exc_info()[2]) if f[0] == '<string>']
except Exception as e:
    print(repr(e))
expect(3 in lines, True)
''')

bug('c14-attrs-twice', 'C14',
    'py:attrs with an expression that is not a constant: a counter, an iterator, a query',
    'the expression of py:attrs is evaluated twice',
    [(I, "        if self.guard:\n            yield self.line('if %s:' % self.guard)\n            for l in _body():\n                yield l.indent()\n",
         "        guard = '(%s)' % self.attrs\n        if self.guard:\n            guard = '%s and %s' % (self.guard, guard)\n        if guard:\n            yield self.line('if %s:' % guard)\n            for l in _body():\n                yield l.indent()\n")],
    '''
n = []


def f():
    n.append(1)
    return {'a': len(n)}
expect(XMLTemplate('<d py:attrs="f()"/>')(dict(f=f)).render(), '<d a="1"/>')
''')

bug('c14-for-list', 'C14',
    'a loop over an iterator whose items are produced while the loop runs',
    'the iterable of a loop is read to its end before the first pass',
    [(I, "        yield self.line('for %s:' % (self.decl))\n",
         "        var, sep, it = self.decl.partition(' in ')\n        yield self.line('for %s in list(%s):' % (var, it) if sep and ',' not in it else 'for %s:' % self.decl)\n")],
    '''
log = []


def items():
    for i in range(2):
        log.append('item%d' % i)
        yield i


def f(i):
    log.append('body%d' % i)
    return i
expect(XMLTemplate('<d><b py:for="i in items()">${f(i)}</b></d>')(dict(items=items, f=f)).render(),
       '<d><b>0</b><b>1</b></d>')
expect(log, ['item0', 'body0', 'item1', 'body1'])
''')

bug('c15-str-twice', 'C15',
    'a value whose text changes between two calls of str()',
    'a value is converted to text twice: once to see whether it needs escaping, once for the output',
    [(T, "        uval = str(value)\n        if self._re_escape.search(uval):", "        uval = str(value)\n        if self._re_escape.search(str(value)):")],
    '''
class V(object):
    texts = ['a<b', 'ab']

    def __str__(self):
        return self.texts.pop(0)
expect(XMLTemplate('<d>$v</d>')(dict(v=V())).render(), '<d>a&lt;b</d>')
''')

bug('c15-escape-memo', 'C15',
    'values that are equal but have different texts (1, True, 1.0), output one after the other',
    'escaped texts are remembered by value, so True is shown as 1 once 1 has been shown',
    [(T, "        uval = str(value)\n        if self._re_escape.search(uval):",
         "        try:\n            if value in self._escaped:\n                return self._escaped[value]\n"
         "            if len(self._escaped) < 1000 and isinstance(value, (int, float)):\n                self._escaped[value] = str(value)\n"
         "        except TypeError:  # unhashable\n            pass\n"
         "        uval = str(value)\n        if self._re_escape.search(uval):"),
     (T, "    _re_escape = re.compile(r'&|<|>|\"')\n", "    _re_escape = re.compile(r'[&<>\"]')\n    _escaped = {}\n")],
    '''
expect(XMLTemplate('<d>${1}${True}${1.0}</d>')().render(), '<d>1True1.0</d>')
''')

bug('c16-chunk-decode', 'C16',
    'a template file longer than one chunk with a multi-byte character across the boundary of a chunk',
    'chunks are decoded one by one, so a character split between them is replaced',
    [(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        with open(filename, 'rb') as f:\n            source = ''\n            while True:\n                chunk = f.read(8192)\n"
         "                if not chunk:\n                    break\n                source += chunk.decode(encoding, 'replace')\n"
         "        source = source.replace('\\r\\n', '\\n').replace('\\r', '\\n')\n")],
    '''
src = u'<d>' + u'\\u20ac' * 9000 + u'</d>'
put('a.xml', src)
expect(FileLoader(SCRATCH).load('a.xml')().render() == src, True)
''')

bug('c16-merge', 'C16',
    'a text longer than the buffer of the parser with an expression across the boundary',
    'a text node longer than 4000 characters is not merged with the one that follows',
    [(X, "                if merge_node is None:\n                    merge_node = child.ownerDocument",
         "                if merge_node is None or len(merge_node.data) > 4000:\n                    merge_node = child.ownerDocument")],
    '''
for n in range(65470, 65540):
    src = '<d>' + 'y' * n + '${"abc" + "def"}</d>'
    expect(XMLTemplate(src)().render() == '<d>' + 'y' * n + 'abcdef</d>', True)
''')
