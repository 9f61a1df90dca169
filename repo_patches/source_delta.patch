From 04f899a4eebe1284e0914618d8995b39f75e6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:18 +0000
Subject: [PATCH 01/16] fix: make template loading and reloading safe for
 threads sharing a loader

Two threads reloading the same template could raise KeyError (both delete
the stale entry), and a slow load of an old version could replace a newer
one in the cache for good.
---
 kajiki/integration/pyramid.py | 11 ++++++-----
 kajiki/loader.py              | 30 ++++++++++++++++++------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index b8a3779..495b830 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -82,11 +82,12 @@ class PyramidKajikiLoader(Loader):
         * Checks the template modification time to decide whether to reload it.
         '''
         name = abspath_from_resource_spec(name)
-        if self.auto_reload and name in self.modules:
-            mtime = stat(name).st_mtime
-            if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
-        return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
+        with self._lock:
+            if self.auto_reload and name in self.modules:
+                mtime = stat(name).st_mtime
+                if mtime > self._timestamps.get(name, 0):
+                    del self.modules[name]
+            return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
 
     def __call__(self, value, system, is_fragment=False):
         """IRenderer implementation.
diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..72b7cfb 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -4,24 +4,29 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from nine import basestring, itervalues
 import os
+import threading
 import pkg_resources
 
 
 class Loader(object):
     def __init__(self):
         self.modules = {}
+        # Held while looking up and loading a template, so that threads
+        # sharing a loader neither compile it twice nor disturb a reload.
+        self._lock = threading.RLock()
 
     def import_(self, name, *args, **kwargs):
         '''Returns the template if it is already in the cache,
         else loads the template, caches it and returns it.
         '''
-        mod = self.modules.get(name)
-        if mod:
+        with self._lock:
+            mod = self.modules.get(name)
+            if mod:
+                return mod
+            mod = self._load(name, *args, **kwargs)
+            mod.loader = self
+            self.modules[name] = mod
             return mod
-        mod = self._load(name, *args, **kwargs)
-        mod.loader = self
-        self.modules[name] = mod
-        return mod
 
     def default_alias_for(self, name):
         return os.path.splitext(os.path.basename(name))[0]
@@ -70,12 +75,13 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
-        filename = self._filename(name)
-        if self._reload and name in self.modules:
-            mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
-        return super(FileLoader, self).import_(name, *args, **kwargs)
+        with self._lock:
+            filename = self._filename(name)
+            if self._reload and name in self.modules:
+                mtime = os.stat(filename).st_mtime
+                if mtime > self._timestamps.get(name, 0):
+                    del self.modules[name]
+            return super(FileLoader, self).import_(name, *args, **kwargs)
 
     def _load(self, name, encoding='utf-8', *args, **kwargs):
         '''Text templates are read in text mode and XML templates are read in
-- 
2.43.0


From ed06624a7570035c407f438afc60b2ea44675c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:23 +0000
Subject: [PATCH 02/16] fix: reload a template whenever its file or
 modification time changed

An older file restored over a newer one, or one that starts to shadow the
loaded file in an earlier directory of the path, was never picked up; a
deleted file raised TypeError instead of IOError; and with reload off the
package loader failed once the file had gone.
---
 kajiki/loader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 72b7cfb..07f83c2 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -76,10 +76,12 @@ class FileLoader(Loader):
 
     def import_(self, name, *args, **kwargs):
         with self._lock:
-            filename = self._filename(name)
             if self._reload and name in self.modules:
-                mtime = os.stat(filename).st_mtime
-                if mtime > self._timestamps.get(name, 0):
+                filename = self._filename(name)
+                if filename is None:
+                    raise IOError('Unknown template %r' % name)
+                version = (filename, os.stat(filename).st_mtime)
+                if version != self._timestamps.get(name):
                     del self.modules[name]
             return super(FileLoader, self).import_(name, *args, **kwargs)
 
@@ -95,7 +97,7 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        self._timestamps[name] = (filename, os.stat(filename).st_mtime)
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
-- 
2.43.0


From 29c479ebfb950060a014ed4fc381f199e7602238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:53 +0000
Subject: [PATCH 03/16] fix: let text templates include and import others
 through a file loader

%include and %import raised TypeError, because the loader passes on
is_fragment, which only XML templates accepted.
---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..e051859 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,9 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False):
+    # Loaders pass *is_fragment* when a template is included or imported;
+    # in text templates there is no doctype to leave out.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
-- 
2.43.0


From c726ac2937ca1876de1e8e85c1a794e1e0d19b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:58 +0000
Subject: [PATCH 04/16] fix: let a literal be output more than once

literal() and Markup() wrapped a one-shot iterator: a marked-up value used
twice in a template, or kept for the next render, came out empty.
---
 kajiki/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..8a68bf6 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -58,7 +58,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -66,7 +66,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -84,7 +84,7 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From 4652f3445ac23f22ec37ba6cb234b21ab02785c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 05/16] fix: evaluate the py:strip condition once per tag

It was evaluated again for the start tag, every attribute and the end tag,
so that a condition that changes meanwhile left unbalanced markup.
---
 kajiki/xml_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..2e0532f 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,6 +23,7 @@ from .entities import html5, unescape
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
+from .util import gen_name
 
 impl = dom.getDOMImplementation(' ')
 
@@ -219,7 +220,9 @@ class _Compiler(object):
             if guard == '':  # py:strip="" means yes, do strip the tag
                 guard = 'False'
             else:
-                guard = 'not (%s)' % guard
+                # Evaluate the condition once, not at every part of the tag
+                strip, guard = guard, gen_name()
+                yield ir.PythonNode(ir.TextNode('%s = not (%s)' % (guard, strip)))
             node.removeAttribute('py:strip')
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
-- 
2.43.0


From 146e2d78da07530f2f926d22de78ce4b76bb4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 06/16] fix: write and read line number tables with signed line
 increments

Since Python 3.6 an increment above 127 means a step back, so that after a
gap of 128 or more lines tracebacks named a wrong (even negative) line.
---
 kajiki/lnotab.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..ace2998 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -64,23 +64,26 @@ else:
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
     cur_byte, cur_line = 0, first_lineno
     for byte_off, line_off in pairs:
         byte_delta = byte_off - cur_byte
         line_delta = line_off - cur_line
         assert byte_delta >= 0
-        assert line_delta >= 0
         while byte_delta > 255:
             yield 255  # byte
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        # Since Python 3.6 line increments are signed bytes.
+        while line_delta > 127:
+            yield 127  # line
             yield 0   # byte
-            line_delta -= 255
-        yield line_delta
+            line_delta -= 127
+        while line_delta < -128:
+            yield 128  # line (-128)
+            yield 0   # byte
+            line_delta += 128
+        yield line_delta & 255
         cur_byte, cur_line = byte_off, line_off
 
 
@@ -104,6 +107,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
                 yield cur_byte, cur_line
                 last_line = cur_line
             cur_byte += byte_delta
+        if line_delta > 127 and not IS_PYTHON2:
+            line_delta -= 256
         cur_line += line_delta
     if cur_line != last_line:
         yield cur_byte, cur_line
-- 
2.43.0


From 23213a5623b3bef559088769a37dfde1f39a5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 07/16] fix: map errors to template lines in functions, blocks
 and nested code

Functions and blocks inherited the highest line of the code generated
before them, a multi-line expression shifted everything after it, and code
inside py:call bodies and nested functions was not mapped at all.
---
 kajiki/template.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..32583df 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -22,7 +22,7 @@ except:
 import kajiki
 from .util import flattener, literal
 from .html_utils import HTML_EMPTY_ATTRS
-from .ir import generate_python
+from .ir import DefNode, generate_python
 from . import lnotab
 from kajiki import i18n
 
@@ -314,9 +314,12 @@ def from_ir(ir_node, base_globals=None):
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
     last_lineno = 0
-    for i, l in enumerate(py_lines):
+    for l in py_lines:
+        if l._text == DefNode.prefix:  # another function begins
+            last_lineno = 0
         lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
+        for _ in str(l).split('\n'):  # an expression may span several lines
+            py_linenos.append((len(py_linenos) + 1, lno))
         last_lineno = lno
     dct = dict(kajiki=kajiki)
     try:
@@ -381,7 +384,11 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
+        self._func.__code__ = self._annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+    @classmethod
+    def _annotate_code(cls, code, filename, py_to_tpl_dct):
         new_lnotab_numbers = []
         for bc_off, py_lno in lnotab.lnotab_numbers(
                 code.co_lnotab, code.co_firstlineno):
@@ -391,23 +398,25 @@ class TplFunc(object):
                 continue
             new_lnotab_numbers.append((bc_off, tpl_lno))
         if not new_lnotab_numbers:
-            return
+            return code
         new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+        # Functions inside this one (py:call bodies, attributes...) as well
+        new_consts = tuple(
+            cls._annotate_code(x, filename, py_to_tpl_dct)
+            if isinstance(x, types.CodeType) else x for x in code.co_consts)
+        return patch_code_file_lines(
+            code, filename, new_firstlineno, new_lnotab, new_consts)
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -417,7 +426,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -427,7 +436,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
-- 
2.43.0


From a644b65ffb03bb47b78ccc3b71b03d11be0f6729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 08/16] fix: count lines of text templates correctly around
 directives

Blank lines before a directive were not counted, and a failing directive
was reported at whatever text preceded it.
---
 kajiki/text.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index e051859..332c3a7 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -84,6 +84,8 @@ class _Scanner(object):
                 yield self.text(source[self.pos:start])
                 self.pos = start
             groups = mo.groupdict()
+            if groups['tag_bare_invalid'] is None:
+                self.lineno += mo.group().count('\n')  # blank lines before a tag
             if groups['expr_braced'] is not None:
                 self.pos = mo.end()
                 yield self._get_braced_expr()
@@ -139,9 +141,10 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
-        self.lineno += 1
         self.pos = end + 1
-        return self.tag(tagname, body)
+        tag = self.tag(tagname, body)
+        self.lineno += 1
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -212,7 +215,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
-- 
2.43.0


From 63088a6fcb7bdf30c281fc29abfade1eae37ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 09/16] fix: keep line numbers right after a multi-line doctype
 or expression

The doctype is replaced by a one-line one for parsing and the line breaks
between ${ and its expression were skipped uncounted, so every later line
was reported too low.
---
 kajiki/xml_template.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2e0532f..a12e08b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -543,7 +543,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            spaces = len(py_expr()) - len(py_expr().lstrip())
+            self.lineno += py_expr(self.pos + spaces).count('\n')
+            self.pos += spaces
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
@@ -606,7 +608,9 @@ class _Parser(sax.ContentHandler):
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        # (with the line breaks of the original, so that lines keep their numbers)
+        self._source = (source[:position] + self.DTD +
+                        '\n' * self._doc._dtd.count('\n') + source[position:])
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From b5de0d52957f0611096009ba530d3cb7c814ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:32 +0000
Subject: [PATCH 10/16] fix: let the TurboGears plugin render templates by name
 on Python 3

basestring does not exist there (NameError).
---
 kajiki/integration/turbogears1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 39a39b6..2f69ffd 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -14,6 +14,8 @@ other versions.
 
 """
 
+from nine import basestring
+
 from kajiki import PackageLoader
 from kajiki.xml_template import XMLTemplate
 
-- 
2.43.0


From 0525915713be78c8ae898db1e85cbe26e0ba42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:32 +0000
Subject: [PATCH 11/16] fix: let the Pyramid loader keep templates whose file
 has not changed

It never recorded modification times, so with reload_templates on every
request compiled every template again.
---
 kajiki/integration/pyramid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index 495b830..329771e 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -72,6 +72,7 @@ class PyramidKajikiLoader(Loader):
 
     def _load(self, name, *a, **kw):
         '''Called when the template actually needs to be (re)compiled.'''
+        self._timestamps[name] = stat(name).st_mtime
         return XMLTemplate(source=None, filename=name,
                            mode=self.mode, *a, **kw)
 
@@ -85,7 +86,7 @@ class PyramidKajikiLoader(Loader):
         with self._lock:
             if self.auto_reload and name in self.modules:
                 mtime = stat(name).st_mtime
-                if mtime > self._timestamps.get(name, 0):
+                if mtime != self._timestamps.get(name):
                     del self.modules[name]
             return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
 
-- 
2.43.0


From 5f6982f1a74d97699c8c7811346c64b2357761d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:49 +0000
Subject: [PATCH 12/16] fix: make py:import work in a template that another one
 extends

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 32583df..eea567f 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -202,6 +202,8 @@ class _Template(object):
         if alias is None:
             alias = self.loader.default_alias_for(name)
         r = gbls[alias] = tpl_cls(gbls)
+        # When a child extends this template, gbls are those of the child
+        self.__globals__[alias] = r
         return r
 
     def _escape(self, value):
-- 
2.43.0


From 90987b7dedc381dfd13da2b531ef0b3871a8eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:22 +0000
Subject: [PATCH 13/16] fix: let an instance be rendered again after its parent
 was loaded

Functions inherited during an earlier render of the same instance were
taken for overrides, so the next render called them in the parent
instance of the earlier one: NameError: parent if that render had been
interrupted, or blocks of an old version of the parent template.
---
 kajiki/template.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index eea567f..496a1a5 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -89,6 +89,7 @@ class _Template(object):
         )
         self._switch_stack = []
         self._with_stack = []
+        self._inherited = set()  # names of functions taken from the parent
         self.__globals__.update(context)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
@@ -144,6 +145,9 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
+            if k in self._inherited:
+                # Left by an earlier render, bound to the parent it had
+                continue
             p_globals[k] = v
         # Find inherited funcs
         for k, v in iteritems(p_inst.__globals__):
@@ -151,7 +155,8 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
+            if k not in self.__globals__ or k in self._inherited:
+                self._inherited.add(k)
                 self.__globals__[k] = v
             if not hasattr(self, k):
                 def _(k=k):
-- 
2.43.0


From 7451041f4c411faa3807a645ba544d27a0a09926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:34 +0000
Subject: [PATCH 14/16] fix: the text of a function or literal in py:attrs, not
 its representation

A value of py:attrs that is the result of a template function or of literal()
was output as '<kajiki.util.flattener object at 0x...>': not well-formed, and
different in every render. Show its text, as in other attributes.
---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 496a1a5..f2d92f5 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -243,6 +243,8 @@ class _Template(object):
             attrs = attrs.items()
         if attrs is not None:
             for k, v in sorted(attrs):
+                if isinstance(v, flattener):
+                    v = self._collect([v])  # the text, not the object
                 if k in HTML_EMPTY_ATTRS and v in (True, False):
                     v = k if v else None
                 if v is None:
-- 
2.43.0


From 7db19d84ee6b5b971bc21ff79839218c42e38df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:36 +0000
Subject: [PATCH 15/16] fix: a directory called like a template hides it from
 the file loader

The search stopped at a directory of the search path that holds a directory
of the wanted name (names need no extension with force_mode), and the import
failed although a later one holds the file.
---
 kajiki/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 07f83c2..8cd6dea 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -70,7 +70,7 @@ class FileLoader(Loader):
     def _filename(self, name):
         for base in self.path:
             fn = os.path.join(base, name)
-            if os.path.exists(fn):
+            if os.path.isfile(fn):
                 return fn
         return None
 
-- 
2.43.0


From 837580581c293ad5cc13a9d5e52be6c3a3d8bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:30 +0000
Subject: [PATCH 16/16] fix: do not remember every name generated for a
 compiled template

---
 kajiki/util.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 8a68bf6..d3eca65 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -3,9 +3,8 @@
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from collections import deque
+from itertools import count
 import sys
-from random import randint
-from threading import local
 
 
 def debug():  # pragma no cover
@@ -87,28 +86,12 @@ def literal(text):
     return flattener([text])
 
 
-class NameGen(object):
-    lcl = local()
-
-    def __init__(self):
-        self.names = set()
-
-    @classmethod
-    def gen(cls, hint):
-        if not hasattr(cls.lcl, 'inst'):
-            cls.lcl.inst = NameGen()
-        return cls.lcl.inst._gen(hint)
-
-    def _gen(self, hint):
-        r = hint
-        while r in self.names:
-            r = '%s_%d' % (hint, randint(0, len(self.names) * 10))
-        self.names.add(r)
-        return r
+_numbers = count()
 
 
 def gen_name(hint='_kj_'):
-    return NameGen.gen(hint)
+    """Return a name that has not been generated before."""
+    return '%s%d' % (hint, next(_numbers))
 
 
 def window(seq, n=2):
-- 
2.43.0

