# -*- coding: utf-8 -*-
T, L, X, I, U, TX, P = ('kajiki/template.py', 'kajiki/loader.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                        'kajiki/util.py', 'kajiki/text.py', 'kajiki/integration/pyramid.py')

bug('c05-case-key', 'C05',
    'two templates whose names differ only in upper and lower case',
    'loaded templates are kept under their names in lower case',
    [(L, "        self.modules = {}\n", "        self.modules = _Names()\n"),
     (L, "class Loader(object):\n", '''class _Names(dict):
    """Template names do not depend on case."""
    def __setitem__(self, name, mod):
        dict.__setitem__(self, name.lower(), mod)

    def __delitem__(self, name):
        dict.__delitem__(self, name.lower())

    def __contains__(self, name):
        return dict.__contains__(self, name.lower())

    def get(self, name, default=None):
        return dict.get(self, name.lower(), default)


class Loader(object):
''')],
    '''
put('a.xml', '<a>1</a>', 1000000)
put('A.xml', '<a>2</a>', 1000000)
l = FileLoader(SCRATCH, reload=False)
expect(l.load('a.xml')().render(), '<a>1</a>')
expect(l.load('A.xml')().render(), '<a>2</a>')
''')

bug('c08-lock-timeout', 'C08',
    'a thread that needs the loader while another one takes long to compile',
    'an import gives up when the loader has been busy for some time',
    [(L, "        with self._lock:\n            mod = self.modules.get(name)\n            if mod:\n                return mod\n"
         "            mod = self._load(name, *args, **kwargs)\n            mod.loader = self\n            self.modules[name] = mod\n            return mod\n",
         "        if not self._lock.acquire(timeout=2):\n            raise IOError('Loader is busy')\n        try:\n"
         "            mod = self.modules.get(name)\n            if mod:\n                return mod\n"
         "            mod = self._load(name, *args, **kwargs)\n            mod.loader = self\n            self.modules[name] = mod\n            return mod\n"
         "        finally:\n            self._lock.release()\n"),
     (L, "        with self._lock:\n            if self._reload and name in self.modules:\n                filename",
         "        if not self._reload:\n            return super(FileLoader, self).import_(name, *args, **kwargs)\n"
         "        with self._lock:\n            if self._reload and name in self.modules:\n                filename")],
    '''
import time
put('slow.xml', '<a><?py %import time; time.sleep(4) ?></a>')
put('b.xml', '<b/>')
l = FileLoader(SCRATCH, reload=False)
t = threading.Thread(target=l.load, args=('slow.xml',))
t.start()
time.sleep(.5)
got = []


def work():
    try:
        got.append(l.load('b.xml')().render())
    except IOError as e:
        got.append(repr(e))
u = threading.Thread(target=work)
u.start()
u.join()
t.join()
expect(got, ['<b/>'])
''')

bug('c08-lock-interrupt', 'C08',
    'an import that is interrupted, by something that is not an Exception, while other threads use the loader',
    'the lock of the loader stays held when an interrupt ends an import',
    [(L, "        with self._lock:\n            if self._reload and name in self.modules:\n                filename = self._filename(name)\n"
         "                if filename is None:\n                    raise IOError('Unknown template %r' % name)\n"
         "                version = (filename, os.stat(filename).st_mtime)\n                if version != self._timestamps.get(name):\n"
         "                    del self.modules[name]\n            return super(FileLoader, self).import_(name, *args, **kwargs)\n",
         "        self._lock.acquire()\n        try:\n            if self._reload and name in self.modules:\n                filename = self._filename(name)\n"
         "                if filename is None:\n                    raise IOError('Unknown template %r' % name)\n"
         "                version = (filename, os.stat(filename).st_mtime)\n                if version != self._timestamps.get(name):\n"
         "                    del self.modules[name]\n            mod = super(FileLoader, self).import_(name, *args, **kwargs)\n"
         "        except Exception:\n            self._lock.release()\n            raise\n"
         "        self._lock.release()\n        return mod\n")],
    '''
put('a.xml', '<a><?py %raise KeyboardInterrupt ?></a>')
put('b.xml', '<b/>')
l = FileLoader(SCRATCH)
try:
    l.load('a.xml')
except KeyboardInterrupt:
    pass
got = []
t = threading.Thread(target=lambda: got.append(l.load('b.xml')().render()))
t.daemon = True
t.start()
t.join(5)
if not got:
    print('does not finish')
    sys.stdout.flush()
    os._exit(1)
expect(got, ['<b/>'])
''')

bug('c11-instance-memo', 'C11',
    'an instance that is rendered again after a file it includes was edited',
    'an instance keeps the templates it has included',
    [(T, "        tpl_cls = self.loader.import_(name, is_fragment=True)\n",
         "        tpl_cls = self.__dict__.get('_included', {}).get(name)\n        if tpl_cls is None:\n"
         "            tpl_cls = self.loader.import_(name, is_fragment=True)\n"
         "            self.__dict__.setdefault('_included', {})[name] = tpl_cls\n")],
    '''
put('inc.xml', '<i>1</i>', 1000000)
put('main.xml', '<a><py:include href="inc.xml"/></a>')
inst = FileLoader(SCRATCH).load('main.xml')()
expect(inst.render(), '<a><i>1</i></a>')
put('inc.xml', '<i>2</i>', 2000000)
expect(inst.render(), '<a><i>2</i></a>')
''')

bug('c12-live-default', 'C12',
    'the default translator is replaced while a render that uses it is in progress',
    'static text of a render without a translator goes through whatever default is installed at that moment',
    [(T, "        return self.__globals__['gettext'](s)\n",
         "        if 'gettext' in self._context or 'gettext' in (self.base_globals or ()):\n"
         "            return self.__globals__['gettext'](s)\n        return i18n.gettext(s)\n")],
    '''
import kajiki.i18n
it = iter(XMLTemplate('<a><b>x</b>${1}<i>y</i></a>')())
got = [next(it)]
old, kajiki.i18n.gettext = kajiki.i18n.gettext, lambda s: s.upper()
got += list(it)
kajiki.i18n.gettext = old
expect(''.join(got), '<a><b>x</b>1<i>y</i></a>')
''')

bug('c13-many-functions', 'C13',
    'a template with more than sixteen functions and blocks',
    'only the first functions of a template, in alphabetical order, get the lines of the template',
    [(T, "        for name, meth in cls.__methods__:\n            meth.annotate_lnotab", "        for name, meth in cls.__methods__[:16]:\n            meth.annotate_lnotab")],
    '''
import traceback
path = put('a.xml', '<a>\\n%s</a>' % ''.join('<py:def function="f%02d()">\\n${x}</py:def>\\n' % i for i in range(20)) .replace('</a>', '') )
src = '<a>\\n%s${f19()}</a>' % ''.join('<py:def function="f%02d()">\\n${1 / zero}\\n</py:def>\\n' % i for i in range(20))
path = put('a.xml', src)
try:
    FileLoader(SCRATCH).load('a.xml')(dict(zero=0)).render()
except ZeroDivisionError:
    lines = [l for f, l, _, _ in traceback.extract_tb(sys.exc_info()[2]) if f == path]
want = src[:src.rindex('zero')].count('\\n') + 1
expect(want in lines, True)
''')

bug('c15-attr-spaces', 'C15',
    'a value with several blanks in a row in an attribute',
    'runs of white space in attribute values are collapsed',
    [(T, "                    yield ' %s=\"%s\"' % (k, self._escape(v))\n",
         "                    yield ' %s=\"%s\"' % (k, ' '.join(re.split(r'\\s{2,}', self._escape(v))))\n")],
    '''
expect(XMLTemplate('<a b="$x"/>')(dict(x='p  q')).render(), '<a b="p  q"/>')
''')

bug('c18-active', 'C18',
    'an iterator that is closed or dropped before its end',
    'instances that are being rendered are kept in a list, and taken out only when they end or fail',
    [(T, "        for chunk in self.__main__():\n            yield str(chunk)\n",
         "        active.append(self)\n        try:\n            for chunk in self.__main__():\n                yield str(chunk)\n"
         "        except Exception:\n            active.remove(self)\n            raise\n        active.remove(self)\n"),
     (T, "class _Template(object):\n", "active = []  # the instances being rendered\n\n\nclass _Template(object):\n")],
    '''
import weakref


class V(object):
    pass
v = V()
r = weakref.ref(v)
it = iter(XMLTemplate('<a>${1}<b/></a>')(dict(v=v)))
del v
next(it)
it.close()
del it
for _ in range(5):
    gc.collect()
expect(r(), None)
''')

bug('c09-fstat', 'C09',
    'fstat fails on a template file that has just been opened',
    'the modification time is taken from a file descriptor that stays open when this fails',
    [(L, "        self._timestamps[name] = (filename, os.stat(filename).st_mtime)\n",
         "        fd = os.open(filename, os.O_RDONLY)\n        self._timestamps[name] = (filename, os.fstat(fd).st_mtime)\n        os.close(fd)\n"),
     (L, "        options = self._template_options.copy()\n        options.update(kwargs)\n", "        options = dict(self._template_options, **kwargs)\n")],
    '''
put('a.xml', '<a/>')
orig = os.fstat


def fail(fd):
    raise OSError(5, 'I/O error')
n = len(os.listdir('/proc/self/fd'))
os.fstat = fail
try:
    FileLoader(SCRATCH).load('a.xml')
except OSError:
    pass
os.fstat = orig
expect(len(os.listdir('/proc/self/fd')), n)
''')

bug('c10-same-basename', 'C10',
    'two directories of the search path with the same last component',
    'directories of the search path with the same last component are taken for the same',
    [(L, "            self.path = path.split(';')\n        else:\n            self.path = path\n",
         "            path = path.split(';')\n        if path:\n            seen = set()\n"
         "            path = [p for p in path if not (os.path.basename(p) in seen or seen.add(os.path.basename(p)))]\n"
         "        self.path = path\n")],
    '''
put('x/t/a.xml', '<a>1</a>')
put('y/t/b.xml', '<b>2</b>')
l = FileLoader([os.path.join(SCRATCH, 'x', 't'), os.path.join(SCRATCH, 'y', 't')])
expect(l.load('a.xml')().render(), '<a>1</a>')
try:
    expect(l.load('b.xml')().render(), '<b>2</b>')
except IOError as e:
    expect(e, None)
''')
