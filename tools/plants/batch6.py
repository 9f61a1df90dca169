# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')
TG = 'kajiki/integration/turbogears1.py'

# Runs *other* in the middle of *main*: at the n-th line executed inside kajiki, for every n
MIDST = '''
def midst(main, other, check):
    n = 0
    while True:
        n += 1
        left = [n]

        def trace(frame, event, arg):
            if 'kajiki' not in frame.f_code.co_filename:
                return None
            left[0] -= 1
            if not left[0]:
                sys.settrace(None)
                other()
            return trace
        sys.settrace(trace)
        try:
            r = main()
        finally:
            sys.settrace(None)
        check(r)
        if left[0] > 0:
            break
'''

PYR = '''
import types


def mod(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
mod('paste'), mod('paste.deploy'), mod('paste.deploy.converters', asbool=bool)
mod('zope'), mod('zope.interface', implementer=lambda i: lambda c: c)
mod('pyramid'), mod('pyramid.interfaces', IRenderer=1, ITemplateRenderer=2)
mod('pyramid.resource', abspath_from_resource_spec=lambda s: os.path.join(SCRATCH, s))
from kajiki.integration.pyramid import PyramidKajikiLoader
'''

TGS = '''
from kajiki.integration.turbogears1 import XMLTemplateEnginePlugin
put('kjpkg/__init__.py', '')
sys.path.insert(0, SCRATCH)
'''

bug('c04-pyramid-typeerror', 'C04',
    'a Pyramid view whose template fails with a TypeError or ValueError',
    'a TypeError raised by user code is reported as a wrong result of the view',
    [(P, "            system.update(value)\n        except (TypeError",
         "            system.update(value)\n            return template(system).render()\n        except (TypeError"),
     (P, "        # self._save_template_as_python(template, system, name)  # to debug\n        return template(system).render()\n", "")],
    PYR + '''
put('a.kajiki', '<p>${f()}</p>')
e = TypeError('mine')
def f():
    raise e
try:
    PyramidKajikiLoader(mode='xml')({'f': f}, {'renderer_name': 'a.kajiki'})
except Exception as got:
    expect(got is e, True)
''')

bug('c12-pyramid-default', 'C12',
    'a Pyramid application that replaces the default translator after its start',
    'pages rendered through Pyramid use the default translator that was installed when the loader was created',
    [(P, "        self._timestamps = {}\n        super", "        self._timestamps = {}\n        self._gettext = i18n.gettext\n        super"),
     (P, "from .. import XMLTemplate\n", "from .. import XMLTemplate, i18n\n"),
     (P, "        # self._save_template_as_python(template, system, name)  # to debug\n",
         "        system.setdefault('gettext', self._gettext)\n")],
    PYR + '''
put('a.kajiki', '<p>hello</p>')
l = PyramidKajikiLoader(mode='xml')
kajiki.i18n.gettext = lambda s: s.upper()
expect(l({}, {'renderer_name': 'a.kajiki'}), '<p>HELLO</p>')
''')

bug('c18-pyramid-last', 'C18',
    'pages rendered through Pyramid',
    'the loader keeps the values of the last page for debugging',
    [(P, "        # self._save_template_as_python(template, system, name)  # to debug\n",
         "        self.last_page = name, system  # to debug\n")],
    PYR + '''
import weakref
class V(object):
    pass
put('a.kajiki', '<p>hello</p>')
l = PyramidKajikiLoader(mode='xml')
l({}, {'renderer_name': 'a.kajiki'})
v = V()
w = weakref.ref(v)
l({'v': v}, {'renderer_name': 'a.kajiki'})
del v
for i in range(4):
    gc.collect()
expect(w() is None, True)
''')

bug('c18-tg-templates', 'C18',
    'templates that are edited while the TurboGears plugin runs',
    'the plugin remembers every template class it has loaded',
    [(TG, "            return self.loader.load(templatename)\n",
          "            template = self.loader.load(templatename)\n            self.loaded.add(template)\n            return template\n"),
     (TG, "        self.get_extra_vars = extra_vars_func\n", "        self.get_extra_vars = extra_vars_func\n        self.loaded = set()\n")],
    TGS + '''
import weakref
put('kjpkg/a.xml', '<p>one</p>', 1000)
e = XMLTemplateEnginePlugin(dict, {})
e.render({}, template='kjpkg.a')
w = weakref.ref(e.load_template('kjpkg.a'))
put('kjpkg/a.xml', '<p>two</p>', 1001)
e.render({}, template='kjpkg.a')
for i in range(4):
    gc.collect()
expect(w() is None, True)
''')

bug('c18-escape-cache', 'C18',
    'values with an __html__ method',
    'the markup of values is remembered by value, which keeps the values',
    [(T, "        if hasattr(value, '__html__'):\n            return value.__html__()\n",
         "        if hasattr(value, '__html__'):\n            if value not in _markup:\n                _markup[value] = value.__html__()\n            return _markup[value]\n"),
     (T, "class _obj(object):\n", "_markup = {}\n\n\nclass _obj(object):\n")],
    '''
import weakref
class V(object):
    def __html__(self):
        return 'x'
v = V()
w = weakref.ref(v)
XMLTemplate('<p>$v</p>')(dict(v=v)).render()
del v
for i in range(4):
    gc.collect()
expect(w() is None, True)
''')

bug('c04-args', 'C04',
    'user code that raises an exception with arguments',
    'the file name of the template is added to the arguments of the exception',
    [(T, "        return ''.join(self)\n",
         "        try:\n            return ''.join(self)\n        except LookupError as e:\n"
         "            e.args += (self.filename,)\n            raise\n")],
    '''
e = KeyError('k')
def f():
    raise e
try:
    XMLTemplate('<a>${f()}</a>')(dict(f=f)).render()
except KeyError as got:
    expect(got is e and got.args, ('k',))
''')

bug('c14-switch-depth', 'C14',
    'a function with a py:switch that calls itself more than sixteen times',
    'the stack of switch subjects holds sixteen of them',
    [(T, "        self._switch_stack = []\n", "        self._switch_stack = deque(maxlen=16)\n"),
     (T, "import re\nimport types\n", "from collections import deque\nimport re\nimport types\n")],
    '''
src = ('<a><py:def function="f(n)"><py:switch test="n"><py:case value="0">.</py:case><py:else>$n'
       '${f(n - 1)}</py:else></py:switch></py:def>${f(30)}</a>')
expect(XMLTemplate(src)().render(), '<a>%s.</a>' % ''.join(map(str, range(30, 0, -1))))
''')

bug('c14-function-memo', 'C14',
    'a template function called twice with the same arguments in one render',
    'the result of a template function is remembered by its arguments',
    [(T, "        return self._bound_func(*args, **kwargs)\n",
         "        if kwargs or not args or not all(isinstance(a, str) for a in args):\n"
         "            return self._bound_func(*args, **kwargs)\n"
         "        if args not in self._results:\n"
         "            self._results[args] = flattener(list(self._bound_func(*args)))\n"
         "        return self._results[args]\n"),
     (T, "        self._bound_func = None\n", "        self._bound_func = None\n        self._results = {}\n")],
    '''
n = iter(range(9))
src = '<a><py:def function="f(x)">$x${next(n)}</py:def>${f("q")}${f("q")}</a>'
expect(XMLTemplate(src)(dict(n=n)).render(), '<a>q0q1</a>')
''')

bug('c10-found-kept', 'C10',
    'a package template whose xml file is removed while an html file of that name remains',
    'the extensions under which a package template was found are remembered',
    [(L, "        found = dict()\n", "        found = self._found.setdefault(name, dict())\n"),
     (L, "        super(PackageLoader, self).__init__(None, reload, force_mode)\n",
         "        super(PackageLoader, self).__init__(None, reload, force_mode)\n        self._found = {}\n")],
    '''
put('kjpkg/__init__.py', '')
put('kjpkg/a.xml', '<p>xml</p>', 1000)
put('kjpkg/a.html', '<p>html</p>', 1000)
sys.path.insert(0, SCRATCH)
l = PackageLoader()
expect(l.load('kjpkg.a')().render(), '<p>xml</p>')
os.unlink(SCRATCH + '/kjpkg/a.xml')
expect(l.load('kjpkg.a')().render(), '<p>html</p>')
''')

bug('c02-extract-flag', 'C02',
    'messages being extracted while templates are compiled with strip_text',
    'while messages are extracted strip_text is ignored in the whole process',
    [(X, "        if self._strip_text:\n", "        if self._strip_text and not _extracting:\n"),
     (X, "impl = dom.getDOMImplementation(' ')\n", "impl = dom.getDOMImplementation(' ')\n_extracting = []\n"),
     ('kajiki/i18n.py', "    from .xml_template import _Parser, _Compiler, _DomTransformer\n",
         "    from .xml_template import _Parser, _Compiler, _DomTransformer, _extracting\n"),
     ('kajiki/i18n.py', "    doc = _DomTransformer(doc, strip_text=options.get('strip_text', False)).transform()\n",
         "    if not options.get('strip_text', False):\n        _extracting.append(fileobj)\n"
         "    doc = _DomTransformer(doc, strip_text=options.get('strip_text', False)).transform()\n"),
     ('kajiki/i18n.py', "    ir = compiler.compile()\n", "    ir = compiler.compile()\n    del _extracting[:]\n")],
    MIDST + '''
from kajiki.i18n import extract
midst(lambda: list(extract(io.BytesIO(b'<a>hello</a>'), [], None, {})),
      lambda: expect(XMLTemplate('<a> <b/> t </a>', strip_text=True)().render(), '<a><b/>t</a>'),
      lambda r: None)
''')

bug('c16-bom', 'C16',
    'a template file in UTF-16 that is longer than one block',
    'files are decoded in blocks of 4096 bytes, each on its own, unless they are UTF-8',
    [(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
         "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n"
         "        if encoding != 'utf-8':\n"
         "            with open(filename, 'rb') as f:\n"
         "                source = ''.join(b.decode(encoding, 'ignore') for b in iter(lambda: f.read(4096), b''))\n")],
    '''
t = u'<a>%s</a>' % (u'x\\U0001F600y ' * 3000)
p = put('a.xml', t.encode('utf-16'))
expect(XMLTemplate(filename=p, encoding='utf-16')().render(), t)
''')

bug('c08-include-depth', 'C08',
    'more than three threads that load at once',
    'a loader refuses more than three callers at once',
    [(L, "        package, module = name.rsplit('.', 1)\n        found = dict()\n",
         "        package, module = name.rsplit('.', 1)\n        found = dict()\n"
         "        if self._callers > 1:\n            raise IOError('Unknown template %r' % name)\n"),
     (L, "        super(PackageLoader, self).__init__(None, reload, force_mode)\n",
         "        super(PackageLoader, self).__init__(None, reload, force_mode)\n        self._callers = 0\n\n"
         "    def _load(self, name, *args, **kwargs):\n        self._callers += 1\n        try:\n"
         "            return super(PackageLoader, self)._load(name, *args, **kwargs)\n        finally:\n            self._callers -= 1\n")],
    '''
put('kjpkg/__init__.py', '')
put('kjpkg/a.xml', '<p><?py %from kjpkg import L; L.load("kjpkg.b") ?>a</p>', 1000)
put('kjpkg/b.xml', '<p>b</p>', 1000)
sys.path.insert(0, SCRATCH)
import kjpkg
l = kjpkg.L = PackageLoader()
expect(l.load('kjpkg.a')().render(), '<p>a</p>')
''')
