#!/usr/bin/env python3
"""Applies behaviour-preserving refactorings to a scratch copy of /repo and runs the checks on it: all must stay quiet.

    python3 tools/refactor.py [NAME ...] [-- ID ...]

Several names are applied together; no name: each group of GROUPS in turn.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = ['C%02d' % i for i in range(1, 19)]

R = {}
R['loader-inline'] = [
    ('kajiki/loader.py', '''        with self._lock:
            if self._reload and name in self.modules:
                filename = self._filename(name)
                if filename is None:
                    raise IOError('Unknown template %r' % name)
                version = (filename, os.stat(filename).st_mtime)
                if version != self._timestamps.get(name):
                    del self.modules[name]
            return super(FileLoader, self).import_(name, *args, **kwargs)
''', '''        self._lock.acquire()
        try:
            cached = name in self.modules
            if cached and self._reload:
                self._forget_if_changed(name)
            if name not in self.modules:
                template = self._load(name, *args, **kwargs)
                template.loader = self
                self.modules[name] = template
            return self.modules[name]
        finally:
            self._lock.release()

    def _locate(self, name):
        filename = self._filename(name)
        if filename is not None:
            return filename
        raise IOError('Unknown template %r' % name)

    def _version_of(self, filename):
        return filename, os.path.getmtime(filename)

    def _forget_if_changed(self, name):
        known = self._timestamps.get(name)
        if self._version_of(self._locate(name)) != known:
            self.modules.pop(name)
'''),
    ('kajiki/loader.py', '''        filename = self._filename(name)
        if filename is None:
            raise IOError('Unknown template %r' % name)
        self._timestamps[name] = (filename, os.stat(filename).st_mtime)
''', '''        filename = self._locate(name)
        self._timestamps[name] = self._version_of(filename)
'''),
    ('kajiki/loader.py', '''        for base in self.path:
            fn = os.path.join(base, name)
            if os.path.isfile(fn):
                return fn
        return None
''', '''        candidates = (os.path.join(base, name) for base in self.path)
        return next((fn for fn in candidates if os.path.isfile(fn)), None)
'''),
]
R['loader-dispatch'] = [
    ('kajiki/loader.py', '''        if self._force_mode == 'text':
            return TextTemplate(filename=filename,
                autoescape=self._autoescape_text, *args, **options)
        elif self._force_mode:
            return XMLTemplate(filename=filename,
                               mode=self._force_mode,
                               autoblocks=self._xml_autoblocks,
                               *args, **options)
        else:
            ext = os.path.splitext(filename)[1][1:]
            return self.extension_map[ext](
                source=None, filename=filename, *args, **options)
''', '''        mode = self._force_mode
        if not mode:
            _, dot_ext = os.path.splitext(filename)
            factory = self.extension_map[dot_ext[1:]]
            return factory(source=None, filename=filename, *args, **options)
        if mode == 'text':
            factory = TextTemplate
            options['autoescape'] = self._autoescape_text
        else:
            factory = XMLTemplate
            options['mode'] = mode
            options['autoblocks'] = self._xml_autoblocks
        return factory(filename=filename, *args, **options)
'''),
    ('kajiki/loader.py', '''            mod = self.modules.get(name)
            if mod:
                return mod
            mod = self._load(name, *args, **kwargs)
            mod.loader = self
            self.modules[name] = mod
            return mod
''', '''            try:
                return self.modules[name]
            except KeyError:
                pass
            template = self._load(name, *args, **kwargs)
            template.loader = self
            return self.modules.setdefault(name, template)
'''),
]
R['read'] = [
    ('kajiki/xml_template.py', '''        with open(filename, encoding=encoding) as f:
            source = f.read()  # source is a unicode string
''', '''        source = _read_source(filename, encoding)
'''),
    ('kajiki/xml_template.py', '''def annotate(gen):
''', '''def _read_source(filename, encoding):
    stream = open(filename, encoding=encoding)
    try:
        return stream.read()  # a unicode string
    finally:
        stream.close()


def annotate(gen):
'''),
    ('kajiki/text.py', '''        with codecs.open(filename, encoding=encoding) as f:
            source = f.read()
''', '''        with open(filename, 'rb') as f:
            source = codecs.decode(f.read(), encoding)
'''),
]
R['escape'] = [
    ('kajiki/template.py', '''        uval = str(value)
        if self._re_escape.search(uval):  # Scan the string before working.
            # stdlib escape() is inconsistent between Python 2 and Python 3.
            # In 3, html.escape() translates the single quote to '&#39;'
            # In 2.6 and 2.7, cgi.escape() does not touch the single quote.
            # Preserve our tests and Kajiki behaviour across Python versions:
            return uval.replace('&', '&amp;').replace('<', '&lt;') \\
                .replace('>', '&gt;').replace('"', '&quot;')
            # .replace("'", '&#39;'))
            # Above we do NOT escape the single quote; we don't need it because
            # all HTML attributes are double-quoted in our output.
        else:
            return uval
    _re_escape = re.compile(r'&|<|>|"')
''', '''        # We do NOT escape the single quote; we don't need it because
        # all HTML attributes are double-quoted in our output.
        return self._re_escape.sub(
            lambda mo: self._replacements[mo.group()], str(value))
    _re_escape = re.compile(r'[&<>"]')
    _replacements = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}
'''),
    ('kajiki/template.py', '''        if hasattr(attrs, 'items'):
            attrs = attrs.items()
        if attrs is not None:
            for k, v in sorted(attrs):
                if isinstance(v, flattener):
                    v = self._collect([v])  # the text, not the object
                if k in HTML_EMPTY_ATTRS and v in (True, False):
                    v = k if v else None
                if v is None:
                    continue
                if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                    yield ' ' + k.lower()
                else:
                    yield ' %s="%s"' % (k, self._escape(v))
''', '''        if hasattr(attrs, 'items'):
            attrs = attrs.items()
        if attrs is None:
            return
        html = mode.startswith('html')
        for k, v in sorted(attrs):
            empty_attr = k in HTML_EMPTY_ATTRS
            if isinstance(v, flattener):
                v = self._collect((v,))
            if empty_attr and v in (True, False):
                v = k if v else None
            if v is not None:
                yield self._one_attr(k, v, html and empty_attr)

    def _one_attr(self, k, v, minimize):
        if minimize:
            return ' ' + k.lower()
        return ' {}="{}"'.format(k, self._escape(v))
'''),
    ('kajiki/template.py', '''        result = []
        for part in it:
            if part is None:
                continue
            if isinstance(part, flattener):
                result.append(str(part.accumulate_str()))
            else:
                result.append(str(part))
        if result:
            return ''.join(result)
        else:
            return None
''', '''        def as_text(part):
            if isinstance(part, flattener):
                part = part.accumulate_str()
            return str(part)
        parts = [as_text(part) for part in it if part is not None]
        return ''.join(parts) if parts else None
'''),
]
R['bind'] = [
    ('kajiki/template.py', '''        if self._bound_func is None:
            self._bound_func = self._bind_globals(
                self._inst.__globals__)
        return self._bound_func(*args, **kwargs)
''', '''        bound = self._bound_func
        if bound is None:
            bound = self._bind_globals(self._inst.__globals__)
            self._bound_func = bound
        return bound(*args, **kwargs)
'''),
    ('kajiki/template.py', '''        return update_wrapper(
            lambda *a, **kw: flattener(func(*a, **kw)),
            func)
''', '''        def flattened(*a, **kw):
            return flattener(func(*a, **kw))
        return update_wrapper(flattened, func)
'''),
    ('kajiki/template.py', '''        for chunk in self.__main__():
            yield str(chunk)

    def render(self):
        """Render the template to a string."""
        return ''.join(self)
''', '''        return (str(chunk) for chunk in self.__main__())

    def render(self):
        """Render the template to a string."""
        pieces = []
        for piece in self:
            pieces.append(piece)
        return ''.join(pieces)
'''),
    ('kajiki/template.py', '''        self._with_stack.append([locals_.get(k, ()) for k in vars])
''', '''        saved = []
        for k in vars:
            saved.append(locals_.get(k, ()))
        self._with_stack.append(saved)
'''),
    ('kajiki/template.py', '''        return obj == self._switch_stack[-1]
''', '''        current = self._switch_stack[-1]
        return obj == current
'''),
]
R['extend'] = [
    ('kajiki/template.py', '''        # Find overrides
        for k, v in iteritems(self.__globals__):
            if k == '__main__':
                continue
            if not isinstance(v, TplFunc):
                continue
            if k in self._inherited:
                # Left by an earlier render, bound to the parent it had
                continue
            p_globals[k] = v
        # Find inherited funcs
        for k, v in iteritems(p_inst.__globals__):
            if k == '__main__':
                continue
            if not isinstance(v, TplFunc):
                continue
            if k not in self.__globals__ or k in self._inherited:
                self._inherited.add(k)
                self.__globals__[k] = v
''', '''        def functions(globals_):
            return [(k, v) for k, v in iteritems(globals_)
                    if k != '__main__' and isinstance(v, TplFunc)]

        # Find overrides (not what an earlier render left, bound to the parent it had)
        p_globals.update((k, v) for k, v in functions(self.__globals__)
                         if k not in self._inherited)
        # Find inherited funcs
        for k, v in functions(p_globals):
            if k in self._inherited or k not in self.__globals__:
                self.__globals__[k] = v
                self._inherited.add(k)
'''),
    ('kajiki/template.py', '''        self._context = context
        base_globals = self.base_globals or {}
        self.__globals__ = dict(local=self, self=self,
            defined=lambda x: x in self.__globals__,
            literal=literal, Markup=literal, gettext=i18n.gettext,
            __builtins__=__builtins__, __kj__=kajiki)
        self.__globals__.update(base_globals)
''', '''        self._context = context
        self._switch_stack = []
        self._with_stack = []
        self._inherited = set()  # names of functions taken from the parent
        self.__globals__ = {
            'local': self, 'self': self,
            'defined': lambda x: x in self.__globals__,
            'literal': literal, 'Markup': literal, 'gettext': i18n.gettext,
            '__builtins__': __builtins__, '__kj__': kajiki}
        if self.base_globals:
            self.__globals__.update(self.base_globals)
'''),
    ('kajiki/template.py', '''        self._switch_stack = []
        self._with_stack = []
        self._inherited = set()  # names of functions taken from the parent
        self.__globals__.update(context)
''', '''        self.__globals__.update(context)
'''),
]
R['flatten'] = [
    ('kajiki/util.py', '''        s = ''
        iter_stack = [iter(self.iterator)]
        while iter_stack:
            try:
                x = next(iter_stack[-1])
            except StopIteration:
                iter_stack.pop()
                continue
            if type(x) == flattener:
                iter_stack.append(iter(x.iterator))
            elif x is None:
                pass
            else:
                s += x
        return s
''', '''        pieces = []
        stack = [iter(self.iterator)]
        while stack:
            for x in stack[-1]:
                if type(x) == flattener:
                    stack.append(iter(x.iterator))
                    break
                if x is not None:
                    pieces.append(x)
            else:
                stack.pop()
        return ''.join(pieces)
'''),
    ('kajiki/util.py', '''        for x in self.iterator:
            if type(x) == flattener:
                for xx in x:
                    if xx is not None:
                        yield xx
            elif x is not None:
                yield x
''', '''        for x in self.iterator:
            if x is None:
                continue
            if type(x) != flattener:
                yield x
                continue
            for xx in iter(x):
                if xx is not None:
                    yield xx
'''),
]
R['names'] = [
    ('kajiki/util.py', '''_numbers = count()


def gen_name(hint='_kj_'):
    """Return a name that has not been generated before."""
    return '%s%d' % (hint, next(_numbers))
''', '''class _Namer(object):
    """Makes names that differ from all names made before."""
    def __init__(self):
        self._next = count(1000).__next__

    def __call__(self, hint='_kj_'):
        number = self._next()
        return '_'.join((hint.rstrip('_'), 'n', str(number)))


gen_name = _Namer()
''')]

R['ir'] = [
    ('kajiki/ir.py', '''    cur_indent = 0
    for node in flattener(ir):
        if isinstance(node, IndentNode):
            cur_indent += 4
        elif isinstance(node, DedentNode):
            cur_indent -= 4
        for line in node.py():
            yield line.indent(cur_indent)
''', '''    depth = 0
    for node in flattener(ir):
        depth += _depth_change(node)
        for line in node.py():
            yield line.indent(4 * depth)


def _depth_change(node):
    if isinstance(node, IndentNode):
        return 1
    if isinstance(node, DedentNode):
        return -1
    return 0
'''),
    ('kajiki/ir.py', '''    last_node = None
    for node in iter_node:
        if (type(node) == TextNode and type(last_node) == TextNode
                and last_node.guard == node.guard):
            last_node.text += node.text
            # Erase this node by not yielding it.
            continue
        if last_node is not None:
            yield last_node
        last_node = node
    if last_node is not None:
        yield last_node
''', '''    pending = None
    for node in iter_node:
        mergeable = (type(node) == TextNode and type(pending) == TextNode
                     and pending.guard == node.guard)
        if mergeable:
            pending.text = pending.text + node.text
        else:
            if pending is not None:
                yield pending
            pending = node
    if pending is not None:
        yield pending
'''),
    ('kajiki/ir.py', '''            yield self.line("%s = self.__kj__.collect(%s())" % (gen, gen))
            yield self.line(
                'for %s in self.__kj__.render_attrs({%r:%s}, %r):'
                % (x, self.p.attr, gen, self.p.mode))
            yield self.line('    yield %s' % x)
''', '''            yield self.line(
                'for %s in self.__kj__.render_attrs({%r:self.__kj__.collect(%s())}, %r): yield %s'
                % (x, self.p.attr, gen, self.p.mode, x))
'''),
    ('kajiki/ir.py', '''            'local.__kj__.push_with(locals(), [%s])' % (
                ','.join('"%s"' % k for k in self.var_names),))
''', '''            'local.__kj__.push_with(locals(), (%s,))' % (
                ', '.join("'%s'" % k for k in self.var_names),))
'''),
]
R['xmldom'] = [
    ('kajiki/xml_template.py', '''        node = self._doc.createTextNode(content)
        node.lineno = self._parser.getLineNumber()
        node.escaped = should_escape
        self._els[-1].appendChild(node)

    def processingInstruction(self, target, data):
        node = self._doc.createProcessingInstruction(target, data)
        node.lineno = self._parser.getLineNumber()
        self._els[-1].appendChild(node)
''', '''        node = self._append(self._doc.createTextNode(content))
        node.escaped = should_escape

    def _append(self, node):
        node.lineno = self._parser.getLineNumber()
        self._els[-1].appendChild(node)
        return node

    def processingInstruction(self, target, data):
        self._append(self._doc.createProcessingInstruction(target, data))
'''),
    ('kajiki/xml_template.py', '''        node = self._doc.createComment(text)
        node.lineno = self._parser.getLineNumber()
        self._els[-1].appendChild(node)
''', '''        self._append(self._doc.createComment(text))
'''),
    ('kajiki/xml_template.py', '''        self.doc = self._expand_directives(self.doc)
        self.doc = self._merge_text_nodes(self.doc)
        self.doc = self._extract_nodes_leading_and_trailing_spaces(self.doc)
        if self._strip_text:
            self.doc = self._strip_text_nodes(self.doc)
        return self.doc
''', '''        steps = [self._expand_directives, self._merge_text_nodes,
                 self._extract_nodes_leading_and_trailing_spaces]
        if self._strip_text:
            steps.append(self._strip_text_nodes)
        for step in steps:
            self.doc = step(self.doc)
        return self.doc
'''),
    ('kajiki/xml_template.py', '''                if self.mode.startswith('html'):
                    if node.tagName in HTML_OPTIONAL_END_TAGS:
                        yield ir.TextNode('>', guard)
                    else:
                        yield ir.TextNode('></%s>' % node.tagName, guard)
                else:
                    yield ir.TextNode('/>', guard)
''', '''                if not self.mode.startswith('html'):
                    end = '/>'
                elif node.tagName in HTML_OPTIONAL_END_TAGS:
                    end = '>'
                else:
                    end = '></%s>' % node.tagName
                yield ir.TextNode(end, guard)
'''),
    ('kajiki/xml_template.py', '''def annotate(gen):
    def inner(self, node, *args, **kwargs):
        for x in gen(self, node, *args, **kwargs):
            self._anno(node, x)
            yield x
    return inner
''', '''def annotate(gen):
    def inner(self, node, *args, **kwargs):
        produced = gen(self, node, *args, **kwargs)
        for x in produced:
            self._anno(node, x)
            yield x
    return inner
'''),
]
R['textscan'] = [
    ('kajiki/text.py', '''        end = self.source.find('\\n', self.pos)
        if end == -1:
            end = len(self.source)
        body = self.source[self.pos:end]
''', '''        line, _, _ = self.source[self.pos:].partition('\\n')
        end = self.pos + len(line)
        body = line
'''),
    ('kajiki/text.py', '''        while True:
            try:
                token = next(self.iterator)
                if isinstance(token, _Text):
''', '''        while True:
            try:
                token = next(self.iterator)
            except StopIteration:
                yield None
                break
            if True:
                if isinstance(token, _Text):
'''),
    ('kajiki/text.py', '''                    assert False, msg
            except StopIteration:
                yield None
                break

    def _parse_def''', '''                    assert False, msg

    def _parse_def'''),
    ('kajiki/text.py', '''    i = 0
    while i < len(text):
        if text[i] == '\\\\':
            if text[i + 1] != '\\n':
                yield text[i + 1]
            i += 2
        else:
            yield text[i]
            i += 1
''', '''    i, size = 0, len(text)
    while i < size:
        ch = text[i]
        if ch != '\\\\':
            yield ch
            i += 1
            continue
        following = text[i + 1]
        if following != '\\n':
            yield following
        i += 2
'''),
]
R['lnotab'] = [
    ('kajiki/template.py', '''        new_lnotab_numbers = []
        for bc_off, py_lno in lnotab.lnotab_numbers(
                code.co_lnotab, code.co_firstlineno):
            tpl_lno = py_to_tpl_dct.get(py_lno, None)
            if tpl_lno is None:
                print('ERROR LOOKING UP LINE #%d' % py_lno)
                continue
            new_lnotab_numbers.append((bc_off, tpl_lno))
''', '''        pairs = lnotab.lnotab_numbers(code.co_lnotab, code.co_firstlineno)
        new_lnotab_numbers = [(bc_off, py_to_tpl_dct[py_lno])
                              for bc_off, py_lno in pairs if py_lno in py_to_tpl_dct]
'''),
    ('kajiki/template.py', '''        new_consts = tuple(
            cls._annotate_code(x, filename, py_to_tpl_dct)
            if isinstance(x, types.CodeType) else x for x in code.co_consts)
''', '''        new_consts = []
        for x in code.co_consts:
            if isinstance(x, types.CodeType):
                x = cls._annotate_code(x, filename, py_to_tpl_dct)
            new_consts.append(x)
        new_consts = tuple(new_consts)
'''),
    ('kajiki/template.py', '''    py_linenos = []
    last_lineno = 0
    for l in py_lines:
        if l._text == DefNode.prefix:  # another function begins
            last_lineno = 0
        lno = max(last_lineno, l._lineno or 0)
        for _ in str(l).split('\\n'):  # an expression may span several lines
            py_linenos.append((len(py_linenos) + 1, lno))
        last_lineno = lno
''', '''    py_linenos = list(_line_numbers(py_lines))
'''),
    ('kajiki/template.py', '''def from_ir(ir_node, base_globals=None):
''', '''def _line_numbers(py_lines):
    number = lno = 0
    for l in py_lines:
        if l._text == DefNode.prefix:  # another function begins
            lno = 0
        lno = max(lno, l._lineno or 0)
        # an expression may span several lines
        for _ in range(str(l).count('\\n') + 1):
            number += 1
            yield number, lno


def from_ir(ir_node, base_globals=None):
'''),
]
R['pyramid'] = [
    ('kajiki/integration/pyramid.py', '''        with self._lock:
            if self.auto_reload and name in self.modules:
                mtime = stat(name).st_mtime
                if mtime != self._timestamps.get(name):
                    del self.modules[name]
            return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
''', '''        with self._lock:
            if self._is_stale(name):
                del self.modules[name]
            return super(PyramidKajikiLoader, self).import_(name, *a, **kw)

    def _is_stale(self, name):
        if not self.auto_reload or name not in self.modules:
            return False
        return stat(name).st_mtime != self._timestamps.get(name)
'''),
    ('kajiki/integration/pyramid.py', '''        name = system.get('renderer_name') or system['renderer_info'].name
        template = self.import_(name, is_fragment=is_fragment)
''', '''        renderer_name = system.get('renderer_name')
        if not renderer_name:
            renderer_name = system['renderer_info'].name
        template = self.import_(renderer_name, is_fragment=is_fragment)
'''),
]
R['doctype'] = [
    ('kajiki/doctype.py', '''        for dtd in itervalues(cls.by_uri):
            if dtd.regex.match(dtd_string):
                return dtd
        else:
            return None
''', '''        known = list(itervalues(cls.by_uri))
        matches = [dtd for dtd in known if dtd.regex.match(dtd_string)]
        return matches[0] if matches else None
'''),
]
GROUPS = [('loader-inline', 'read', 'escape', 'textscan', 'names'),
          ('loader-dispatch', 'bind', 'extend', 'xmldom', 'pyramid', 'doctype'),
          ('flatten', 'ir', 'lnotab')]


def run(names, ids):
    base = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    copy = os.path.join(base, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', copy])
        for n in names:
            for path, old, new in R[n]:
                p = os.path.join(copy, path)
                with open(p, encoding='utf-8') as f:
                    s = f.read()
                if s.count(old) != 1:
                    raise SystemExit('%s: %s has %d occurrences of:\n%s' % (n, path, s.count(old), old))
                with open(p, 'w', encoding='utf-8') as f:
                    f.write(s.replace(old, new))
        t = subprocess.run('. /opt/vp/env.sh; cd %s && "$PY" -m pytest -q kajiki 2>&1 | tail -3' % copy, shell=True,
                           stdout=subprocess.PIPE, executable='/bin/bash')
        print(' '.join(names), '| tests:', t.stdout.decode().strip().splitlines()[-1:], flush=True)
        bad = []
        for i in ids:
            env = dict(os.environ, VERIF_REPO=copy, VERIF_OUT=os.path.join(base, 'out'))
            p = subprocess.run([os.path.join(HERE, 'check.sh'), i], env=env, stdout=subprocess.PIPE)
            out = p.stdout.decode('utf-8', 'replace')
            print('  %s exit %d %s' % (i, p.returncode, out.strip().splitlines()[-1][-150:] if out.strip() else ''), flush=True)
            if p.returncode:
                print(out[-1500:])
                bad.append(i)
        return bad
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    ids = IDS
    if '--' in a:
        ids = a[a.index('--') + 1:]
        a = a[:a.index('--')]
    bad = []
    for g in [tuple(a)] if a else GROUPS:
        bad += [(g, i) for i in run(g, ids)]
    print('alarms:', bad or 'none')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
