# -*- coding: utf-8 -*-
"""Template files on disk with their whole history, and the loaders that read them.

Every change of a file is one event with a number; every import or render is an
interval of such numbers.  What an import may return follows from the two.
"""
import importlib.machinery
import os
import shutil
import sys
import types

from . import gen, seams, stubs
from .core import quietly

BASE_NS = 1400000000 * 10**9


class Site(object):
    """One loader and its directories.

    kind: 'file' (dirs in search order), 'package' (one package directory) or
    'pyramid' (one directory, asset specifications).  For 'pkgext' the "directories"
    are the extensions under which one package directory may hold a template.
    """
    EXTS = ('xml', 'html', 'html5', 'txt')

    def __init__(self, run, kind='file', ndirs=1, reload=True, label='s', front=None, force=None, **opts):
        self.run = run
        self.front = front      # how pages are rendered: None (loader), 'call', 'fragment' (Pyramid), 'tg' (TurboGears)
        if force:
            opts['force_mode'] = force
        self.kind = kind
        self.label = label
        if kind == 'pkgext':
            self.dirs = [label + '0'] * 4
        else:
            self.dirs = ['%s%d' % (label, i) for i in range(ndirs)]
            if kind == 'file' and run.scn.get('dirs') == 'same':
                self.dirs = ['%s%d/tpl' % (label, i) for i in range(ndirs)]
            elif kind == 'file' and run.scn.get('dirs') == 'nested' and not opts.get('late'):
                self.dirs = [label + '0' + '/in' * i for i in range(ndirs)]
        self.clock = 0
        self.hist = {}          # file -> {dir index: [(time, version or None)]}
        self.rewriting = set()
        self.mtimes = {}        # path -> used modification times
        self.late = opts.pop('late', False)         # directories exist only while they hold a file
        # 'target': the files are symbolic links to the files that are edited; 'repoint': links that an edit points
        # elsewhere; 'release': the directories are links, and an edit points one of them to a new copy
        self.links = None if self.late or run.scn.get('dirs') == 'nested' else run.scn.get('links')
        self.stored = 0
        for d in self.dirs:
            p = run.path(d)
            if not os.path.isdir(p) and not self.late:
                if self.links == 'release':
                    self._release(p)
                else:
                    os.makedirs(p)
        k = run.kajiki
        self.order2, self.loader2 = opts.pop('order2', None), None
        blind, joined = opts.pop('blind', None), opts.pop('joined', False)
        ro = {'reload': reload}
        if reload and len(run.scn['threads']) % 3:
            ro = {}             # (it is the default)
        if kind == 'file':
            paths = [run.path(d) for d in self.dirs]
            if blind:
                # a directory that holds only directories, called like the templates
                for n in blind:
                    os.makedirs(run.path(os.path.join(label + 'blind', n)))
                paths.insert(0, run.path(label + 'blind'))
            if self.order2:
                self.loader2 = k.FileLoader([run.path(self.dirs[i]) for i in self.order2], **dict(opts, **ro))
            if joined:
                paths = ';'.join(paths)
            self.loader = k.FileLoader(paths, **dict(opts, **ro))
        elif kind in ('package', 'pkgext'):
            name = self.pkg = 'simpkg_' + label
            m = types.ModuleType(name)
            m.__file__ = run.path(self.dirs[0]) + '/__init__.py'
            m.__path__ = [run.path(self.dirs[0])]
            m.__loader__ = importlib.machinery.SourceFileLoader(name, m.__file__)
            sys.modules[name] = m
            if front == 'tg':
                from kajiki.integration import turbogears1
                eo = dict(('kajiki.' + x, y) for x, y in ro.items())
                if force:
                    eo['kajiki.force_mode'] = force
                if len(run.scn['threads']) % 2:
                    eo['kajiki.loader_class'] = 'kajiki.loader.PackageLoader'
                self.plugin = turbogears1.XMLTemplateEnginePlugin(dict, eo)
                self.loader = self.plugin.loader
            else:
                self.loader = k.PackageLoader(**dict(opts, **ro))
        elif kind == 'pyramid':
            from kajiki.integration import pyramid
            config = stubs.Config({'pyramid.reload_templates': 'true' if reload else 'false',
                                   'kajiki.mode': opts.get('mode', 'xml'), 'kajiki.extensions': '.kajiki .xml'})
            pyramid.includeme(config)
            self.loader = config.registry.kajiki_loader
            self.renderer = config.renderers['.xml']
        else:
            raise AssertionError(kind)

    def order(self, l=0):
        """The directories in the order in which the loader searches them."""
        return self.order2 if l else list(range(len(self.dirs)))

    # ------------------------------------------------------------ loading, rendering
    def load(self, name, **kw):
        if self.front == 'tg' and not kw:
            return self.plugin.load_template(name)
        return self.loader.load(name, **kw)

    def page(self, name, ctx):
        """Loads and renders in one call, the way the framework does it."""
        if self.front == 'tg':
            return self.plugin.render(ctx, template=name)
        if self.front == 'call':
            info = types.SimpleNamespace(name=name, registry=types.SimpleNamespace(kajiki_loader=self.loader))
            return self.renderer(info)(ctx, {'renderer_info': info, 'renderer_name': None})
        if self.front == 'fragment':
            return self.loader.fragment(name, ctx, view=types.SimpleNamespace(request=1))
        return self.loader.load(name)(ctx).render()

    def place(self, ts):
        """Writes the sources of a template set; returns name -> (source, lines)."""
        src = gen.sources(ts, self.name)
        for n in sorted(src):
            self.put(n, src[n][0], 1, BASE_NS)
        return src

    # ------------------------------------------------------------ names
    def name(self, fname):
        """The name under which the loader knows a file."""
        if self.kind in ('package', 'pkgext'):
            return self.pkg + '.' + os.path.splitext(fname)[0]
        if self.kind == 'pyramid':
            spec = '%s:%s' % (self.label, fname)
            stubs.SPECS[spec] = self.run.path(os.path.join(self.dirs[0], fname))
            return spec
        return fname

    def rel(self, fname, d=0):
        if self.kind == 'pkgext':
            fname = '%s.%s' % (os.path.splitext(fname)[0], self.EXTS[d])
        return os.path.join(self.dirs[d], fname)

    def path(self, fname, d=0):
        return self.run.path(self.rel(fname, d))

    # ------------------------------------------------------------ events
    def tick(self):
        self.clock += 1
        return self.clock

    def _log(self, fname, d, version):
        t = self.tick()
        self.hist.setdefault(fname, {}).setdefault(d, []).append((t, version))
        self.run.sim.record('disk', tag='%s/%d=%s' % (fname, d, version))
        return t

    def unique_mtime(self, fname, d, ns, step=1000000):
        """Versions of one file never share a modification time."""
        used = self.mtimes.setdefault((fname, d), set())
        while ns in used:
            ns += step
        used.add(ns)
        return ns

    def put(self, fname, data, version, mtime_ns, d=0):
        """Atomic replacement (rename), as editors and deployment tools do it."""
        ns = self.unique_mtime(fname, d, mtime_ns)
        with quietly(self.run.sim):
            self._write(fname, data, ns, d)
            return self._log(fname, d, version)

    def _write(self, fname, data, ns, d):
        rel = self.rel(fname, d)
        if self.links == 'release':
            top = self.run.path(self.dirs[d])
            self._release(top, fname, lambda new: self.run.write_file(os.path.join(new, rel[len(self.dirs[d]) + 1:]),
                                                                     data, ns))
        elif self.links:
            self.stored += self.links == 'repoint'
            store = 'store%d/%s' % (self.stored, rel)
            self.run.write_file(store, data, ns)
            path = self.run.path(rel)
            if self.links == 'repoint' or not os.path.islink(path):
                self._link(self.run.path(store), path)
        else:
            self.run.write_file(rel, data, ns)

    def _link(self, target, path):
        """Points a link elsewhere, in one step and without a trace in its own modification time."""
        tmp = path + '.ln~'
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        os.symlink(os.path.relpath(target, os.path.dirname(path)), tmp)
        os.utime(tmp, ns=(BASE_NS, BASE_NS), follow_symlinks=False)
        os.rename(tmp, path)

    def _release(self, top, fname=None, change=None):
        self.stored += 1
        new = self.run.path('release%d' % self.stored)
        if os.path.isdir(top):
            shutil.copytree(top, new, symlinks=True)
        else:
            os.makedirs(new)
        if change:
            change(new)
        self._link(new, top)

    def remove(self, fname, d=0):
        with quietly(self.run.sim):
            try:
                p = self.path(fname, d)
                if self.links == 'target' and self.kind in ('file', 'pyramid') and os.path.islink(p):
                    p = os.path.realpath(p)     # the link stays
                os.unlink(p)
            except OSError:
                return None
            if self.late and self.kind == 'file':
                p = self.path(fname, d)
                while p != self.run.path(self.dirs[d]):
                    p = os.path.dirname(p)
                    if os.listdir(p):
                        break
                    os.rmdir(p)
            return self._log(fname, d, None)

    def put_in_place(self, fname, data, version, mtime_ns, d=0, parts=2):
        """Truncate and write in several steps: readers may see anything in between."""
        sim = self.run.sim
        if not isinstance(data, bytes):
            data = data.encode('utf-8')
        path = self.path(fname, d)
        n = max(1, len(data) // parts)
        self.rewriting.add((fname, d))
        done = 0
        first = True
        while first or done < len(data):
            piece = data[done:done + n]
            if len(data) - done - n < 3:
                piece = data[done:]
            last = done + len(piece) >= len(data)
            ns = self.unique_mtime(fname, d, mtime_ns)
            with quietly(sim):
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                fd = seams._real['os_open'](path, os.O_WRONLY | os.O_CREAT | (os.O_TRUNC if first else os.O_APPEND),
                                            0o644)
                try:
                    os.write(fd, piece)
                finally:
                    seams._real['os_close'](fd)
                os.utime(path, ns=(ns, ns))
                self._log(fname, d, version if last else 'torn')
            done += len(piece)
            first = False
            if last:
                self.rewriting.discard((fname, d))
                break
            mtime_ns = ns + 1000000
            sim.point('io', 'write:' + fname)

    # ------------------------------------------------------------ history questions
    def timeline(self, fname, d=0):
        return self.hist.get(fname, {}).get(d, [])

    def during(self, fname, a, b, d=0):
        """The states (version or None) the file had at moments of [a, b]."""
        cur = None
        out = []
        for t, v in self.timeline(fname, d):
            if t <= a:
                cur = v
            elif t <= b:
                out.append(v)
        return [cur] + out

    def at(self, fname, a, d=0):
        return self.during(fname, a, a, d)[0]

    def changed(self, fname, a, b, d=None):
        """Whether any copy of the file changed in (a, b]."""
        return any(a < t <= b for dd, h in self.hist.get(fname, {}).items() if d is None or dd == d for t, _ in h)
