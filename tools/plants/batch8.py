# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')

bug('c05-lstat', 'C05',
    'a template that is a symbolic link, whose target is replaced',
    'the Pyramid loader looks at the modification time of the link instead of the file it leads to',
    [(P, "from os import stat\n", "from os import lstat as stat\n")],
    '''
import types


def mod(name, **kw):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
mod('paste'), mod('paste.deploy'), mod('paste.deploy.converters', asbool=bool)
mod('zope'), mod('zope.interface', implementer=lambda i: lambda c: c)
mod('pyramid'), mod('pyramid.interfaces', IRenderer=1, ITemplateRenderer=2)
mod('pyramid.resource', abspath_from_resource_spec=lambda s: s)
from kajiki.integration.pyramid import PyramidKajikiLoader
put('store.xml', '<a>1</a>', 1000000)
name = os.path.join(SCRATCH, 'a.xml')
os.symlink(os.path.join(SCRATCH, 'store.xml'), name)
l = PyramidKajikiLoader(auto_reload=True, mode='xml')
expect(l.load(name)().render(), '<a>1</a>')
put('store.xml', '<a>2</a>', 2000000)
expect(l.load(name)().render(), '<a>2</a>')
''')

bug('c10-realpath', 'C10',
    'a directory of the search path that is a symbolic link, pointed elsewhere while the process runs',
    'links in the search path are resolved once, when the loader is created',
    [(L, "            self.path = path.split(';')\n        else:\n            self.path = path\n",
         "            path = path.split(';')\n        self.path = path and [os.path.realpath(p) for p in path]\n")],
    '''
put('r1/a.xml', '<a>1</a>', 1000000)
put('r2/a.xml', '<a>2</a>', 2000000)
cur = os.path.join(SCRATCH, 'current')
os.symlink('r1', cur)
l = FileLoader([cur])
expect(l.load('a.xml')().render(), '<a>1</a>')
os.symlink('r2', cur + '.new')
os.rename(cur + '.new', cur)
expect(l.load('a.xml')().render(), '<a>2</a>')
''')

bug('c01-parent-instance', 'C01',
    'two pages that extend one layout, rendered in turns with one context object',
    'the instance of a layout is used again by the next page that is rendered with the same context object',
    [(T, "        p_inst = parent(self._context)\n",
         "        p_inst = parent.__dict__.get('_last')\n        if p_inst is None or p_inst._context is not self._context:\n"
         "            p_inst = parent._last = parent(self._context)\n")],
    '''
put('lay.xml', '<a><py:block name="b">lay</py:block><py:block name="c">c</py:block></a>')
put('p1.xml', '<py:extends href="lay.xml"><py:block name="b">one</py:block></py:extends>')
put('p2.xml', '<py:extends href="lay.xml"><py:block name="c">two</py:block></py:extends>')
l = FileLoader(SCRATCH)
ctx = {}
a, b = iter(l.load('p1.xml')(ctx)), iter(l.load('p2.xml')(ctx))
got = next(a)
other = ''.join(b)
expect(got + ''.join(a), '<a>onec</a>')
expect(other, '<a>laytwo</a>')
''')

bug('c14-checked-number', 'C14',
    'a switch attribute of HTML in py:attrs, given as a number from the data',
    'numbers are not taken as truth values of attributes such as checked any more',
    [(T, "                if k in HTML_EMPTY_ATTRS and v in (True, False):\n",
         "                if k in HTML_EMPTY_ATTRS and isinstance(v, bool):\n")],
    '''
t = XMLTemplate('<p py:attrs="a"/>')
expect(t({'a': {'checked': 0, 'id': 1}}).render(), '<p id="1"/>')
expect(t({'a': {'checked': 1, 'id': 1}}).render(), '<p checked="checked" id="1"/>')
''')

bug('c02-window', 'C02',
    'two threads compiling py:with directives at the same time',
    'the window over the assignments of a py:with is one object for all compilations',
    [(U, "    l = deque((next(seq, None) for _ in range(n)), maxlen=n)\n    push = l.append\n",
         "    l = _window\n    l.clear()\n    l.extend(next(seq, None) for _ in range(n))\n    push = l.append\n"),
     (U, "def window(seq, n=2):\n", "_window = deque(maxlen=2)\n\n\ndef window(seq, n=2):\n")],
    '''
from kajiki.util import window
# two compilations, one between two steps of the other
one = window(iter('ab'))
got = [list(next(one))]
two = window(iter([1, 2, 3]))
other = [list(x) for x in two]
one = window(iter('abc'))
first = next(one)
for x in window(iter([1, 2, 3])):
    pass
expect(list(first), ['a', 'b'])
''')

bug('c12-translation-memo', 'C12',
    'one gettext function for all requests, which answers in the language of the request it is called in',
    'translations are remembered per text and translator, so a later render shows the language of an earlier one',
    [(T, "class _Template(object):", "_translations = {}\n\n\nclass _Template(object):"),
     (T, "        return self.__globals__['gettext'](s)",
      "        gettext = self.__globals__['gettext']\n        found = _translations.get(gettext)\n"
      "        if found is None:\n            found = _translations[gettext] = {}\n"
      "        if s not in found:\n            found[s] = gettext(s)\n        return found[s]")],
    '''
import kajiki
lang = ['en']
put('a.xml', '<p>word</p>', 1000000)
c = kajiki.FileLoader(SCRATCH).load('a.xml')
g = lambda s: s + '-' + lang[0]
expect(c({'gettext': g}).render(), '<p>word-en</p>')
lang[0] = 'it'
expect(c({'gettext': g}).render(), '<p>word-it</p>')
''')
