# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')

STREAM = '''
log = []
def u(n):
    log.append(n)
    return n
'''

bug('c17-include-render', 'C17',
    'a page with an inclusion that is iterated',
    'an included page is rendered completely before any of its text is delivered',
    [(I, "            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (\n",
         "            'yield local.__kj__.import_(%r, None, self.__globals__).render()' % (\n")],
    STREAM + '''
put('inc.xml', '<b>one${u(1)}two${u(2)}</b>')
put('page.xml', '<a><py:include href="inc.xml"/></a>')
it = iter(FileLoader(SCRATCH).load('page.xml')(dict(u=u)))
text = ''
while 'one' not in text:
    text += next(it)
expect(2 in log, False)
''')

bug('c17-batch', 'C17',
    'iterating a template',
    'pieces are joined until there are 256 characters, so expressions are evaluated ahead of what was delivered',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        batch, size = [], 0\n        for chunk in self.__main__():\n            batch.append(str(chunk))\n"
         "            size += len(batch[-1])\n            if size >= 256:\n                yield ''.join(batch)\n"
         "                batch, size = [], 0\n        yield ''.join(batch)\n")],
    STREAM + '''
it = iter(XMLTemplate('<a>one${u(1)}two${u(2)}</a>')(dict(u=u)))
text = next(it)
expect(2 in log, False)
''')

bug('c17-ahead', 'C17',
    'iterating a template that calls a function',
    'a piece is delivered only when the one after it has been evaluated',
    [(U, "            if type(x) == flattener:\n                for xx in x:\n                    if xx is not None:\n                        yield xx\n",
         "            if type(x) == flattener:\n                last = None\n                for xx in x:\n                    if xx is not None:\n"
         "                        if last is not None:\n                            yield last\n                        last = xx\n"
         "                if last is not None:\n                    yield last\n")],
    STREAM + '''
it = iter(XMLTemplate('<a><py:def function="f()">one${u(1)}two${u(2)}three</py:def>${f()}</a>')(dict(u=u)))
text = ''
while 'one' not in text:
    text += next(it)
expect(log, [])
''')

bug('c17-caller-list', 'C17',
    'a py:call body or a nested function that is iterated',
    'the body given to a function with py:call is evaluated completely when it is first used',
    [(U, "        def inner(*args, **kwargs):\n            return cls(func(*args, **kwargs))\n",
         "        def inner(*args, **kwargs):\n            return cls(list(func(*args, **kwargs)))\n")],
    STREAM + '''
S = ('<a><py:def function="f(caller)"><b>${caller(1)}</b></py:def>'
     '<py:call args="x" function="f(%caller)">one${u(1)}two${u(2)}</py:call></a>').replace('%', '$')
it = iter(XMLTemplate(S)(dict(u=u)))
text = ''
while 'one' not in text:
    text += next(it)
expect(log, [])
''')

bug('c17-close-finish', 'C17',
    'a consumer that closes the iterator half way',
    'closing the iterator evaluates the rest of the template',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        chunks = iter(self.__main__())\n        try:\n            for chunk in chunks:\n                yield str(chunk)\n"
         "        except GeneratorExit:\n            # leave every py:with and py:switch in order\n            for chunk in chunks:\n                pass\n")],
    STREAM + '''
it = iter(XMLTemplate('<a>one${u(1)}two${u(2)}</a>')(dict(u=u)))
next(it)
it.close()
expect(log, [])
''')

bug('c17-attr-static', 'C17',
    'a template that is extended and iterated',
    'the first piece of an extended page is evaluated when the page is extended, before the text that precedes it was delivered',
    [(I, "            'yield local.__kj__.extend(%r).__main__()' % (\n",
         "            'yield __kj__.flattener(list(local.__kj__.extend(%r).__main__()))' % (\n")],
    STREAM + '''
put('lay.xml', '<a>one${u(1)}two${u(2)}</a>')
put('page.xml', '<py:extends href="lay.xml"/>')
it = iter(FileLoader(SCRATCH).load('page.xml')(dict(u=u)))
next(it)
expect(2 in log, False)
''')

LEAK = '''
import weakref
class V(object):
    def __html__(self):
        return 'v'
'''

bug('c18-last-instance', 'C18',
    'renders of one template, one after the other, in a long-running process',
    'every function of a template keeps the instance it was last bound to, with its context',
    [(T, "    def bind_instance(self, inst):\n        return TplFunc(self._func, inst)\n",
         "    def bind_instance(self, inst):\n        if self._inst is not inst:\n            self._bound, self._inst = TplFunc(self._func, inst), inst\n        return self._bound\n")],
    LEAK + '''
T = XMLTemplate('<a>$v</a>')
def one():
    v = V()
    T(dict(v=v)).render()
    return weakref.ref(v)
one()
r = one()
for _ in range(5):
    gc.collect()
expect(r(), None)
''')

bug('c18-failure', 'C18',
    'a render that fails or is closed half way',
    'an instance whose render did not complete is remembered by its class',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        active = self.__class__.__dict__.get('_active')\n        if active is None:\n"
         "            active = self.__class__._active = []\n        active.append(self)\n"
         "        for chunk in self.__main__():\n            yield str(chunk)\n        active.remove(self)\n")],
    LEAK + '''
T = XMLTemplate('<a>$v<b/>${1/0}</a>')
def one():
    v = V()
    try:
        T(dict(v=v)).render()
    except ZeroDivisionError:
        pass
    return weakref.ref(v)
one()
r = one()
for _ in range(5):
    gc.collect()
expect(r(), None)
''')

bug('c18-children', 'C18',
    'a layout that is extended by pages which are rendered again and again',
    'the class of a layout keeps every instance of a page that extended it',
    [(T, "        p_inst = parent(self._context)\n",
         "        p_inst = parent(self._context)\n        if '_children' not in parent.__dict__:\n            parent._children = []\n"
         "        parent._children.append(p_inst)\n"),
     (T, "        p_globals['child'] = self\n", "        p_globals['child'] = self  # (also in parent._children)\n")],
    LEAK + '''
put('lay.xml', '<a>$v</a>')
put('page.xml', '<py:extends href="lay.xml"/>')
T = FileLoader(SCRATCH).load('page.xml')
def one():
    v = V()
    T(dict(v=v)).render()
    return weakref.ref(v)
one()
r = one()
for _ in range(5):
    gc.collect()
expect(r(), None)
''')

bug('c18-registry', 'C18',
    'template files that are edited again and again under a reloading loader',
    'every compiled template is remembered for ever by the text of its code',
    [(T, "    tpl.py_text = py_text\n", "    tpl.py_text = py_text\n    _compiled.append(tpl)\n"),
     (T, "    tpl.filename = ir_node.filename\n", "    tpl.filename = str(ir_node.filename)\n"),
     (T, "class _obj(object):\n", "_compiled = []\n\n\nclass _obj(object):\n")],
    '''
import weakref
l = FileLoader(SCRATCH)
def one(n):
    put('a.xml', '<a>%d</a>' % n, 1000 + n)
    return weakref.ref(l.load('a.xml'))
r = one(1)
one(2)
for _ in range(5):
    gc.collect()
expect(r(), None)
''')

bug('c11-import-memo', 'C11',
    'an included file that is edited after its page was rendered',
    'the class of a page remembers the templates it included',
    [(T, "        tpl_cls = self.loader.import_(name, is_fragment=True)\n",
         "        memo = self.__class__.__dict__.get('_imports')\n        if memo is None:\n            memo = self.__class__._imports = {}\n"
         "        if name not in memo:\n            memo[name] = self.loader.import_(name, is_fragment=True)\n        tpl_cls = memo[name]\n")],
    '''
put('inc.xml', '<b>1</b>', 1000)
put('page.xml', '<a><py:include href="inc.xml"/></a>', 1000)
l = FileLoader(SCRATCH)
expect(l.load('page.xml')().render(), '<a><b>1</b></a>')
put('inc.xml', '<b>2</b>', 2000)
expect(l.load('page.xml')().render(), '<a><b>2</b></a>')
''')

bug('c11-alias-reuse', 'C11',
    'a file that is included twice by one page and edited between the two inclusions',
    'a second inclusion of a file in one render uses the first one again',
    [(T, "        tpl_cls = self.loader.import_(name, is_fragment=True)\n        if alias is None:\n            alias = self.loader.default_alias_for(name)\n",
         "        if alias is None:\n            alias = self.loader.default_alias_for(name)\n"
         "        if isinstance(gbls.get(alias), _Template) and gbls[alias].filename.endswith(name):\n            return gbls[alias]\n"
         "        tpl_cls = self.loader.import_(name, is_fragment=True)\n")],
    '''
put('inc.xml', '<b>1</b>', 1000)
put('page.xml', '<a><py:include href="inc.xml"/>${edit()}<py:include href="inc.xml"/></a>', 1000)
l = FileLoader(SCRATCH)
expect(l.load('page.xml')(dict(edit=lambda: put('inc.xml', '<b>2</b>', 2000) and None)).render(),
       '<a><b>1</b><b>2</b></a>')
''')

bug('c03-trampoline-class', 'C03',
    'a chain of three templates, rendered a second time with another context',
    'functions reached through a middle template are attached to its class, bound to the first instance',
    [(T, "                setattr(self, k, TplFunc(_()).bind_instance(self))\n",
         "                setattr(self.__class__, k, TplFunc(_()).bind_instance(self))\n")],
    '''
put('lay.xml', '<a><b py:block="x">$v</b></a>')
put('mid.xml', '<py:extends href="lay.xml"/>')
put('page.xml', '<py:extends href="mid.xml"><i py:block="x">${parent_block()}</i></py:extends>')
l = FileLoader(SCRATCH)
expect(l.load('page.xml')(dict(v=1)).render(), '<a><i><b>1</b></i></a>')
expect(l.load('page.xml')(dict(v=2)).render(), '<a><i><b>2</b></i></a>')
''')

bug('c08-compile-lock', 'C08',
    'a template whose module-level code loads another template',
    'templates are executed under a lock that cannot be taken twice by one thread',
    [(T, "    try:\n        exec(py_text, dct)\n", "    try:\n        with _exec_lock:\n            exec(py_text, dct)\n"),
     (T, "class _obj(object):\n", "_exec_lock = threading.Lock()\n\n\nclass _obj(object):\n"),
     (T, "import re\nimport types\n", "import re\nimport threading\nimport types\n")],
    '''
import builtins
put('a.xml', '<a><?py %import builtins; builtins.HOOK() ?>1</a>')
put('b.xml', '<b>2</b>')
l = FileLoader(SCRATCH)
builtins.HOOK = lambda: l.load('b.xml')
t = threading.Thread(target=l.load, args=('a.xml',))
t.daemon = True
t.start()
t.join(20)
if t.is_alive():
    print('deadlock')
    sys.stdout.flush()
    shutil.rmtree(SCRATCH, True)
    os._exit(1)
''')

bug('c01-accumulate', 'C01',
    'a markup value or function in an attribute whose evaluation starts another render with the same',
    'values in attributes are accumulated on a stack shared by all renders',
    [(U, "        s = ''\n        iter_stack = [iter(self.iterator)]\n",
         "        s, iter_stack = '', _stack\n        iter_stack.append(iter(self.iterator))\n"),
     (U, "class flattener(object):\n", "_stack = []\n\n\nclass flattener(object):\n")],
    '''
T = XMLTemplate('<a><py:def function="f()">x${u()}y</py:def><b c="${f()}"/></a>')
done = []
def u():
    if not done:
        done.append(1)
        done.append(T(dict(u=lambda: 'in')).render())
    return 'out'
expect(T(dict(u=u)).render(), '<a><b c="xouty"/></a>')
expect(done[1], '<a><b c="xiny"/></a>')
''')

bug('c16-cr', 'C16',
    'a text template of more than 4096 bytes with a character of several bytes across a chunk boundary',
    'the file is decoded chunk by chunk, and the incomplete end of a chunk is dropped',
    [(TX, "        with codecs.open(filename, encoding=encoding) as f:\n            source = f.read()\n",
          "        with io.open(filename, 'rb') as f:\n            source = ''.join(\n"
          "                chunk.decode(encoding, 'ignore') for chunk in iter(lambda: f.read(4096), b''))\n"),
     (TX, "import codecs\n", "import io\n")],
    '''
put('a.txt', 'x' * 4095 + u'\\u20ac' + 'y')
expect(FileLoader(SCRATCH).load('a.txt')().render(), 'x' * 4095 + u'\\u20ac' + 'y')
''')

bug('c04-attr-none', 'C04',
    'an expression in an attribute whose text conversion raises',
    'an attribute whose value cannot be converted is left out',
    [(T, "            else:\n                result.append(str(part))\n",
         "            else:\n                try:\n                    result.append(str(part))\n                except (ValueError, TypeError):\n                    continue\n")],
    '''
class V(object):
    def __str__(self):
        raise ValueError('mine')
try:
    got = XMLTemplate('<a b="$v"/>')(dict(v=V())).render()
except ValueError as e:
    got = str(e)
expect(got, 'mine')
''')

bug('c14-cond-twice', 'C14',
    'a condition that gives different results each time it is evaluated, in a py:if with something after it',
    'the test of py:if is evaluated twice when it is not true',
    [(I, "        yield self.line('if %s:' % self.decl)\n", "        yield self.line('if (%s) or (%s):' % (self.decl, self.decl))\n")],
    '''
log = []
def c():
    log.append(1)
    return False
XMLTemplate('<a><b py:if="c()"/></a>')(dict(c=c)).render()
expect(log, [1])
''')

bug('c07-ext-map', 'C07',
    'a load that fails, and another template with the same extension afterwards',
    'the reader for an extension is removed while it is in use and not put back when it fails',
    [(L, "            return self.extension_map[ext](\n                source=None, filename=filename, *args, **options)\n",
         "            make = self.extension_map.pop(ext)\n            mod = make(source=None, filename=filename, *args, **options)\n"
         "            self.extension_map[ext] = make\n            return mod\n")],
    '''
put('bad.xml', '<a>')
put('good.xml', '<a/>')
l = FileLoader(SCRATCH)
try:
    l.load('bad.xml')
except Exception:
    pass
try:
    got = l.load('good.xml')().render()
except Exception as e:
    got = repr(e)
expect(got, '<a/>')
''')

bug('c10-split', 'C10',
    'a file that disappears from an early directory between two looks at it',
    'the search ends at the first directory that exists instead of the first that has the file',
    [(L, "            if os.path.isfile(fn):\n                return fn\n",
         "            if os.path.isfile(fn) or self._timestamps.get(name, ('',))[0] == fn:\n                return fn\n")],
    '''
put('one/a.txt', '1', 1000)
put('two/a.txt', '2', 1000)
l = FileLoader([os.path.join(SCRATCH, 'one'), os.path.join(SCRATCH, 'two')])
expect(l.load('a.txt')().render(), '1')
os.unlink(os.path.join(SCRATCH, 'one', 'a.txt'))
try:
    got = l.load('a.txt')().render()
except IOError:
    got = 'error'
expect(got, '2')
''')
