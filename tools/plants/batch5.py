# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')
TG = 'kajiki/integration/turbogears1.py'

# Runs *other* in the middle of *main*: at the n-th line executed inside kajiki, for every n
MIDST = '''
def midst(main, other, check):
    n = 0
    while True:
        n += 1
        left = [n]

        def trace(frame, event, arg):
            if 'kajiki' not in frame.f_code.co_filename:
                return None
            left[0] -= 1
            if not left[0]:
                sys.settrace(None)
                other()
            return trace
        sys.settrace(trace)
        try:
            r = main()
        finally:
            sys.settrace(None)
        check(r)
        if left[0] > 0:
            break
'''

PYR = '''
import types


def mod(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
mod('paste'), mod('paste.deploy'), mod('paste.deploy.converters', asbool=bool)
mod('zope'), mod('zope.interface', implementer=lambda i: lambda c: c)
mod('pyramid'), mod('pyramid.interfaces', IRenderer=1, ITemplateRenderer=2)
mod('pyramid.resource', abspath_from_resource_spec=lambda s: os.path.join(SCRATCH, s))
from kajiki.integration.pyramid import PyramidKajikiLoader
'''

bug('c02-autoblocks', 'C02',
    'two compilations with one list of autoblocks, the tag occurring in both',
    'a tag is taken off the list of autoblocks of the caller once it has been met',
    [(X, "            node.setAttribute('name', node.tagName)\n",
         "            node.setAttribute('name', node.tagName)\n"
         "            self.autoblocks.remove(node.tagName)  # a block is defined once\n")],
    '''
tags = ['head']
for i in range(2):
    base = XMLTemplate('<a><head>old</head></a>', autoblocks=tags)
    child = XMLTemplate('<py:extends href="b"><py:block name="head">new</py:block></py:extends>')
    l = MockLoader({'b': base, 'c': child})
    expect(l.load('c')().render(), '<a>new</a>')
''')

bug('c02-strip-global', 'C02',
    'two compilations with different strip_text options, one in the middle of the other',
    'the strip_text option is kept in the class of the transformer',
    [(X, "        self._strip_text = strip_text\n", "        type(self)._strip_text = strip_text\n")],
    MIDST + '''
midst(lambda: XMLTemplate('<a> <b/> t </a>', strip_text=False)().render(),
      lambda: XMLTemplate('<a> <b/> t </a>', strip_text=True),
      lambda r: expect(r, '<a> <b/> t </a>'))
''')

bug('c04-str-unicode', 'C04',
    'a value whose conversion to text raises a UnicodeError',
    'a UnicodeError raised by user code while a value is converted to text is swallowed',
    [(T, "        uval = str(value)\n        if self._re_escape",
         "        try:\n            uval = str(value)\n        except UnicodeError:\n            uval = repr(value)\n"
         "        if self._re_escape")],
    '''
class V(object):
    def __str__(self):
        return b'\\xff'.decode('utf-8')
try:
    XMLTemplate('<a>${v}</a>')(dict(v=V())).render()
except UnicodeDecodeError:
    pass
else:
    expect(1, 0)
''')

bug('c04-recursion', 'C04',
    'user code raising RecursionError',
    'a RecursionError is replaced by another exception',
    [(T, "        return ''.join(self)\n",
         "        try:\n            return ''.join(self)\n        except RecursionError:\n"
         "            raise RuntimeError('Template recursion: %s' % self.filename)\n")],
    '''
e = RecursionError('x')
def f():
    raise e
try:
    XMLTemplate('<a>${f()}</a>')(dict(f=f)).render()
except BaseException as got:
    expect(got is e, True)
''')

bug('c05-size-memo', 'C05',
    'an edit that leaves the size of the file as it was',
    'the text of a file is read again only if its size has changed',
    [(X, "import re\nfrom codecs import open\n", "import os\nimport re\nfrom codecs import open\n"),
     (X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        key = (filename, encoding, os.path.getsize(filename))\n"
         "        if key not in _sources:\n"
         "            with open(filename, encoding=encoding) as f:\n"
         "                _sources[key] = f.read()  # a unicode string\n"
         "        source = _sources[key]\n"),
     (X, "impl = dom.getDOMImplementation(' ')\n", "impl = dom.getDOMImplementation(' ')\n_sources = {}\n")],
    '''
l = FileLoader(SCRATCH)
put('a.xml', '<p>one</p>', 1000)
expect(l.load('a.xml')().render(), '<p>one</p>')
put('a.xml', '<p>two</p>', 1001)
expect(l.load('a.xml')().render(), '<p>two</p>')
''')

bug('c05-linecache', 'C05',
    'an edit of a text template',
    'text templates are read through linecache, which keeps what it has read',
    [(TX, "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n",
          "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n"
          "        import linecache\n"
          "        known = ''.join(linecache.getlines(filename))\n"
          "        if len(known) == len(source):\n            source = known\n")],
    '''
l = FileLoader(SCRATCH)
put('a.txt', 'one\\n', 1000)
expect(l.load('a.txt')().render(), 'one\\n')
put('a.txt', 'two\\n', 1001)
expect(l.load('a.txt')().render(), 'two\\n')
''')

bug('c06-package-reload', 'C06',
    'a package loader with reload off and a file that changes',
    'the package loader always reloads',
    [(L, "        super(PackageLoader, self).__init__(None, reload, force_mode)\n",
         "        super(PackageLoader, self).__init__(None, force_mode=force_mode)\n")],
    '''
import os
os.makedirs(SCRATCH + '/kjpkg')
put('kjpkg/__init__.py', '')
put('kjpkg/a.xml', '<p>one</p>', 1000)
sys.path.insert(0, SCRATCH)
l = PackageLoader(reload=False)
expect(l.load('kjpkg.a')().render(), '<p>one</p>')
put('kjpkg/a.xml', '<p>two</p>', 1001)
expect(l.load('kjpkg.a')().render(), '<p>one</p>')
''')

bug('c06-tg-reload', 'C06',
    'the TurboGears plugin with kajiki.reload off and a file that changes',
    'the TurboGears plugin reloads whenever the option is present',
    [(TG, "engine_options.get('kajiki.reload', True)", "'kajiki.reload' in engine_options or True")],
    '''
put('kjpkg/__init__.py', '')
put('kjpkg/a.xml', '<p>one</p>', 1000)
sys.path.insert(0, SCRATCH)
from kajiki.integration.turbogears1 import XMLTemplateEnginePlugin
e = XMLTemplateEnginePlugin(dict, {'kajiki.reload': False})
expect(e.render({}, template='kjpkg.a'), '<p>one</p>')
put('kjpkg/a.xml', '<p>two</p>', 1001)
expect(e.render({}, template='kjpkg.a'), '<p>one</p>')
''')

bug('c07-latin1', 'C07',
    'a text template with bytes that cannot be decoded',
    'undecodable bytes are replaced instead of being reported',
    [(TX, "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n",
          "        with codecs.open(filename, encoding=encoding, errors='replace') as f:\n            source = f.read()\n")],
    '''
put('a.txt', b'one\\xff')
try:
    FileLoader(SCRATCH).load('a.txt')
except UnicodeError:
    pass
else:
    expect(1, 0)
''')

bug('c07-missing-ext', 'C07',
    'a file that is missing, next to one of the same name with another extension',
    'a missing template is replaced by one with another extension',
    [(L, "            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n",
         "            fn = os.path.join(base, name)\n            if os.path.isfile(fn):\n                return fn\n"
         "            fn = os.path.splitext(fn)[0]\n            if os.path.exists(fn + '.html'):\n                return fn + '.html'\n")],
    '''
put('a.html', '<p>x</p>')
try:
    FileLoader(SCRATCH).load('a.xml')
except IOError:
    pass
else:
    expect(1, 0)
''')

bug('c10-existing-dirs', 'C10',
    'a directory of the search path that is created after the loader',
    'directories that do not exist when the loader is created are never searched',
    [(L, "            self.path = path.split(';')\n        else:\n            self.path = path\n",
         "            path = path.split(';')\n"
         "        self.path = [p for p in path or () if os.path.isdir(p)]\n")],
    '''
one, two = SCRATCH + '/1', SCRATCH + '/2'
put('a.xml', '<p>2</p>', d=two)
l = FileLoader([one, two])
expect(l.load('a.xml')().render(), '<p>2</p>')
put('a.xml', '<p>1</p>', d=one)
expect(l.load('a.xml')().render(), '<p>1</p>')
''')

bug('c10-class-memo', 'C10',
    'two loaders with different search paths that share a file which includes another one',
    'templates with the same text, file name and options are one class for all loaders, and include through the last one',
    [(X, "    if filename is None:\n        filename = '<string>'\n    doc = _Parser(",
         "    if filename is None:\n        filename = '<string>'\n"
         "    key = (source, filename, mode, is_fragment, tuple(autoblocks or ()), cdata_scripts, strip_text)\n"
         "    if base_globals is None and key in _classes:\n        return _classes[key]\n"
         "    doc = _Parser("),
     (X, "    t = template.from_ir(ir_, base_globals=base_globals)\n",
         "    t = template.from_ir(ir_, base_globals=base_globals)\n"
         "    if base_globals is None and filename != '<string>':\n        _classes[key] = t\n"),
     (X, "impl = dom.getDOMImplementation(' ')\n", "impl = dom.getDOMImplementation(' ')\n_classes = {}\n")],
    '''
one, two, all = SCRATCH + '/1', SCRATCH + '/2', SCRATCH + '/all'
put('i.xml', '<i>1</i>', d=one)
put('i.xml', '<i>2</i>', d=two)
put('a.xml', '<p><py:include href="i.xml"/></p>', d=all)
l1, l2 = FileLoader([one, all]), FileLoader([two, all])
a, b = l1.load('a.xml'), l2.load('a.xml')
expect(a().render(), '<p><i>1</i></p>')
expect(b().render(), '<p><i>2</i></p>')
''')

bug('c12-underscore', 'C12',
    'a template that calls _() with a translator in its context',
    'in expressions _ is the default translator although the context has its own',
    [(T, "        self.__globals__.update(context)\n        self.__globals__['_'] = self.__globals__['gettext']\n",
         "        self.__globals__['_'] = self.__globals__['gettext']\n        self.__globals__.update(context)\n")],
    '''
expect(XMLTemplate('<a>${_("x")}</a>')(dict(gettext=lambda s: s.upper())).render(), '<a>X</a>')
''')

bug('c13-expr-lines', 'C13',
    'a failing expression after one that spans several lines, in one text',
    'line breaks inside expressions are not counted when they are inside brackets',
    [(X, "        node = ir.ExprNode(text, safe=self.in_html_attr)\n        node.lineno = self.real_lineno\n        self.lineno += text.count('\\n')\n",
         "        node = ir.ExprNode(text, safe=self.in_html_attr)\n        node.lineno = self.real_lineno\n        self.lineno += text.split('(')[0].count('\\n')\n")],
    '''
import traceback
put('a.xml', '<a>x ${max(1,\\n2)}\\n ${1/0}</a>')
try:
    FileLoader(SCRATCH).load('a.xml')().render()
except ZeroDivisionError:
    tb = traceback.extract_tb(sys.exc_info()[2])
    expect(any(f[0].endswith('a.xml') and f[1] == 3 for f in tb), True)
''')

bug('c13-cond-lines', 'C13',
    'a text template with a continued line before a failing expression',
    'the line of an expression in a text template does not count lines joined by a backslash',
    [(TX, "    def text(self, text):\n        self.lineno += text.count('\\n')\n        return _Text",
          "    def text(self, text):\n        self.lineno += text.count('\\n') - text.count('\\\\\\n')\n        return _Text")],
    '''
import traceback
put('a.txt', 'x\\\\\\ny\\n${1/0}\\n')
try:
    FileLoader(SCRATCH).load('a.txt')().render()
except ZeroDivisionError:
    tb = traceback.extract_tb(sys.exc_info()[2])
    expect(any(f[0].endswith('a.txt') and f[1] == 3 for f in tb), True)
''')

bug('c14-attrs-iter', 'C14',
    'py:attrs with an iterator of pairs',
    'an iterator given to py:attrs is consumed before it is shown',
    [(T, "        if attrs is not None:\n            for k, v in sorted(attrs):\n",
         "        if attrs is not None and all(len(a) == 2 for a in attrs):\n            for k, v in sorted(attrs):\n")],
    '''
expect(XMLTemplate('<a py:attrs="f()"/>')(dict(f=lambda: iter([('k', 1)]))).render(), '<a k="1"/>')
''')

bug('c14-items-twice', 'C14',
    'py:attrs with a mapping that is read from a live source',
    'the items of a mapping given to py:attrs are asked for twice',
    [(T, "            attrs = attrs.items()\n", "            attrs = attrs.items() and attrs.items()\n")],
    '''
class Live(object):
    n = 0
    def items(self):
        self.n += 1
        return [('k', self.n)]
expect(XMLTemplate('<a py:attrs="f"/>')(dict(f=Live())).render(), '<a k="1"/>')
''')

bug('c15-gt', 'C15',
    'a value with ]]> in it and nothing else to escape',
    'values are escaped only if they have one of the other special characters',
    [(T, "    _re_escape = re.compile(r'&|<|>|\"')\n", "    _re_escape = re.compile(r'[&<\"]|^>')\n")],
    '''
import xml.dom.minidom
xml.dom.minidom.parseString(XMLTemplate('<a>${v}</a>')(dict(v='x]]>y')).render())
''')

bug('c01-pyramid-system', 'C01',
    'two Pyramid views being rendered at the same time, one in the middle of the other',
    'the values of the request are kept in the loader, which all requests share',
    [(P, "            system.update(value)\n", "            self.system = system\n            self.system.update(value)\n"),
     (P, "        return template(system).render()\n", "        return template(self.system).render()\n")],
    PYR + MIDST + '''
put('a.kajiki', '<p>$x</p>')
l = PyramidKajikiLoader(mode='xml')
def view(x):
    return l({'x': x}, {'renderer_name': 'a.kajiki'})
view(0)
midst(lambda: view(1), lambda: view(2), lambda r: expect(r, '<p>1</p>'))
''')

bug('c01-tg-info', 'C01',
    'two TurboGears pages being rendered at the same time, one in the middle of the other',
    'the values of a page are collected in the plugin, which all requests share',
    [(TG, "        info.update(self.get_extra_vars())\n        return template(info)\n",
          "        self.vars = dict(self.get_extra_vars())\n        self.vars.update(info)\n        return template(self.vars)\n")],
    MIDST + '''
put('kjpkg/__init__.py', '')
put('kjpkg/a.xml', '<p>$x</p>')
sys.path.insert(0, SCRATCH)
from kajiki.integration.turbogears1 import XMLTemplateEnginePlugin
e = XMLTemplateEnginePlugin(dict, {})
def view(x):
    return e.render({'x': x}, template='kjpkg.a')
view(0)
midst(lambda: view(1), lambda: view(2), lambda r: expect(r, '<p>1</p>'))
''')

bug('c09-mmap', 'C09',
    'an interrupt or error while a template is parsed',
    'the file of a template stays open until it is parsed',
    [(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        f = open(filename, encoding=encoding)\n        try:\n            source = f.read()  # source is a unicode string\n"
         "        except (IOError, UnicodeError):\n            f.close()\n            raise\n"
         "        if not source.startswith('\\ufeff'):\n            f.close()\n")],
    '''
import builtins, codecs
import kajiki.xml_template as xt
opened = []
real = xt.open
def op(*a, **kw):
    f = real(*a, **kw)
    opened.append(f)
    return f
xt.open = op
p = put('a.xml', '\\ufeff<a/>')
try:
    XMLTemplate(filename=p)
except Exception:
    pass
expect([f.closed for f in opened], [True])
''')

