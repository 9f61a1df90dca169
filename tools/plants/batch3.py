# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')

bug('c02-dom-cache', 'C02',
    'the same source compiled twice with different options',
    'parsed documents are remembered by their source, although later stages change them in place',
    [(X, "    doc = _Parser(filename, source).parse()\n",
         "    doc = _docs.get(source) if len(source) > 60 else None\n    if doc is None:\n"
         "        doc = _docs[source] = _Parser(filename, source).parse()\n"),
     (X, "def annotate(gen):\n", "_docs = {}\n\n\ndef annotate(gen):\n")],
    '''
S = '<div><p py:if="x">\\n one two three four \\n</p><p py:for="i in (1, 2)"> $i </p></div>'
A = '<div><p>\\n one two three four \\n</p><p> 1 </p><p> 2 </p></div>'
B = '<div><p>one two three four</p><p>1</p><p>2</p></div>'
expect(XMLTemplate(S, strip_text=True)(dict(x=1)).render(), B)
expect(XMLTemplate(S)(dict(x=1)).render(), A)
''')

bug('c03-literal-iter', 'C03',
    'a value marked as markup that is shown a second time, in the same render or a later one',
    'a literal can be shown once only',
    [(U, "    return flattener([text])\n", "    return flattener(iter([text]))\n")],
    '''
from kajiki.util import literal
v = literal('<b/>')
T = XMLTemplate('<a>$v</a>')
expect(T(dict(v=v)).render(), '<a><b/></a>')
expect(T(dict(v=v)).render(), '<a><b/></a>')
''')

bug('c04-items-attrerror', 'C04',
    'a mapping given to py:attrs whose items() raises AttributeError',
    'the AttributeError is taken to mean that the value is a list of pairs',
    [(T, "        if hasattr(attrs, 'items'):\n            attrs = attrs.items()\n",
         "        try:\n            attrs = attrs.items()\n        except AttributeError:\n            pass  # a list of pairs\n")],
    '''
class D(dict):
    def items(self):
        raise AttributeError('mine')
try:
    XMLTemplate('<a py:attrs="d"/>')(dict(d=D(ab=1))).render()
    got = None
except Exception as e:
    got = str(e)
expect(got, 'mine')
''')

bug('c04-stop-quiet', 'C04',
    'an expression of the template that raises StopIteration',
    'a StopIteration of user code ends the output as if the template were finished',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        try:\n            for chunk in self.__main__():\n                yield str(chunk)\n"
         "        except RuntimeError as e:\n            if not isinstance(e.__cause__, StopIteration):\n                raise\n")],
    '''
T = XMLTemplate('<a>${next(iter([]))}b</a>')
try:
    got = T().render()
except RuntimeError:
    got = 'error'
expect(got, 'error')
''')

bug('c05-serve-stale', 'C05',
    'a template file that is deleted after it was loaded',
    'when the file cannot be looked at the cached template is served',
    [(L, "                filename = self._filename(name)\n                if filename is None:\n                    raise IOError('Unknown template %r' % name)\n                version = (filename, os.stat(filename).st_mtime)\n",
         "                filename = self._filename(name)\n                if filename is None:\n                    return self.modules[name]\n                version = (filename, os.stat(filename).st_mtime)\n"),
     (L, "    def default_alias_for(self, name):\n        return os.path.splitext(os.path.basename(name))[0]\n",
         "    def default_alias_for(self, name):\n        base = os.path.basename(name)\n        return os.path.splitext(base)[0]\n")],
    '''
put('a.txt', 'x')
l = FileLoader(SCRATCH)
l.load('a.txt')
os.unlink(os.path.join(SCRATCH, 'a.txt'))
try:
    l.load('a.txt')
    got = 'stale'
except IOError:
    got = 'error'
expect(got, 'error')
''')

bug('c08-changed', 'C08',
    'a file that is replaced between looking at its modification time and the end of its compilation',
    'a template whose file changed while it was read is refused',
    [(L, "            ext = os.path.splitext(filename)[1][1:]\n            return self.extension_map[ext](\n                source=None, filename=filename, *args, **options)\n",
         "            ext = os.path.splitext(filename)[1][1:]\n            mod = self.extension_map[ext](\n                source=None, filename=filename, *args, **options)\n"
         "            if os.stat(filename).st_mtime != self._timestamps[name][1]:\n                raise IOError('%s changed while it was read' % filename)\n            return mod\n")],
    '''
import builtins
put('a.xml', '<a><?py %import builtins; builtins.HOOK() ?>1</a>', 1000)
builtins.HOOK = lambda: put('a.xml', '<a>2</a>', 2000)
try:
    got = FileLoader(SCRATCH).load('a.xml')().render()
except IOError as e:
    got = str(e)
expect(got, '<a>1</a>')
''')

bug('c11-parent-modules', 'C11',
    'a layout that is edited after a page extending it was rendered',
    'a layout that is already loaded is taken from the cache without looking at its file',
    [(T, "            parent = self.loader.import_(parent)\n",
         "            parent = self.loader.modules.get(parent) or self.loader.import_(parent)\n")],
    '''
put('lay.xml', '<a>1</a>', 1000)
put('page.xml', '<py:extends href="lay.xml"/>', 1000)
l = FileLoader(SCRATCH)
expect(l.load('page.xml')().render(), '<a>1</a>')
put('lay.xml', '<a>2</a>', 2000)
expect(l.load('page.xml')().render(), '<a>2</a>')
''')

bug('c12-thread-current', 'C12',
    'two iterators with different translators consumed alternately on one thread',
    'static text goes through the translator of the render created last on this thread',
    [(T, "        return self.__globals__['gettext'](s)\n", "        return _current.gettext(s)\n"),
     (T, "        self.__globals__['_'] = self.__globals__['gettext']\n",
         "        self.__globals__['_'] = _current.gettext = self.__globals__['gettext']\n"),
     (T, "class _obj(object):\n", "_current = threading.local()\n\n\nclass _obj(object):\n"),
     (T, "import re\nimport types\n", "import re\nimport threading\nimport types\n")],
    '''
T = XMLTemplate('<a>x<b/>y</a>')
a = T(dict(gettext=lambda s: s.upper()))
b = T(dict(gettext=lambda s: s * 2))
expect(a.render(), '<a>X<b/>Y</a>')
''')

bug('c13-splitlines', 'C13',
    'a text template with form feeds or Unicode line separators before the failing expression',
    'every character that str.splitlines breaks at is counted as a line',
    [(TX, "    def text(self, text):\n        self.lineno += text.count('\\n')\n",
          "    def text(self, text):\n        self.lineno += len((text + '.').splitlines()) - 1\n")],
    '''
import traceback
put('a.txt', 'one\\x0ctwo\\x0cthree\\n${1/0}')
try:
    FileLoader(SCRATCH).load('a.txt')().render()
except ZeroDivisionError:
    last = traceback.extract_tb(sys.exc_info()[2])[-1]
expect(last[1], 2)
''')

bug('c13-code-share', 'C13',
    'two files whose templates compile to the same code',
    'line tables are remembered by the code they belong to, with the file name of the first',
    [(T, "        self._func.__code__ = self._annotate_code(\n            self._func.__code__, filename, py_to_tpl_dct)\n",
         "        key = self._func.__code__, tuple(py_to_tpl)\n        if key not in _annotated:\n"
         "            _annotated[key] = self._annotate_code(\n                self._func.__code__, filename, py_to_tpl_dct)\n"
         "        self._func.__code__ = _annotated[key]\n"),
     (T, "class _obj(object):\n", "_annotated = {}\n\n\nclass _obj(object):\n")],
    '''
import traceback
for n in 'ab':
    put(n + '.xml', '<a>${1/x}</a>')
l = FileLoader(SCRATCH)
l.load('a.xml')
try:
    l.load('b.xml')(dict(x=0)).render()
except ZeroDivisionError:
    last = traceback.extract_tb(sys.exc_info()[2])[-1]
expect(os.path.basename(last[0]), 'b.xml')
''')

bug('c14-with-sorted', 'C14',
    'py:with that sets several variables whose names are not in alphabetical order',
    'the variables of py:with are set in alphabetical order',
    [(I, "        self.vars = assignments\n", "        self.vars = sorted(assignments)\n")],
    '''
n = []
XMLTemplate('<a><py:with vars="b = f(1); a = f(2)">$a</py:with></a>')(dict(f=n.append)).render()
expect(n, [1, 2])
''')

bug('c16-short-eof', 'C16',
    'a text template of more than 8192 bytes with characters of several bytes',
    'a chunk shorter than asked for is taken for the end of the file',
    [(TX, "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n",
          "        decoder = codecs.getincrementaldecoder(encoding)()\n        chunks = []\n        with open(filename, 'rb') as f:\n"
          "            while not chunks or len(chunks[-1]) >= 4096:\n                chunks.append(decoder.decode(f.read(8192)))\n"
          "        source = ''.join(chunks) + decoder.decode(b'', True)\n")],
    '''
p = u'x\\U0001F600' * 9000
put('a.txt', p)
expect(FileLoader(SCRATCH).load('a.txt')().render(), p)
''')
