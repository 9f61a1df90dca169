# -*- coding: utf-8 -*-
"""Imports kajiki from the working tree, always from source, never from a .pyc.

The code objects are compiled once; `fresh()` executes them again in new module
objects, so a process can be warmed up (imports, JIT) with one copy of kajiki and
the simulated runs then start from another, untouched copy.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pkgutil
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
LEFT_OUT = ('kajiki.tests', 'kajiki.perf')
_codes = {}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'kajiki' and not fullname.startswith('kajiki.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        for fn, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(fn):
                spec = importlib.machinery.ModuleSpec(fullname, self, origin=fn, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        code = _codes.get(fn)
        if code is None:
            with open(fn, 'rb') as f:
                src = f.read()
            code = _codes[fn] = compile(src, fn, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


def install():
    sys.meta_path.insert(0, _Finder())


def purge():
    for name in list(sys.modules):
        if name == 'kajiki' or name.startswith('kajiki.'):
            del sys.modules[name]


def fresh():
    purge()
    import kajiki
    for m in pkgutil.walk_packages([os.path.join(REPO, 'kajiki')], 'kajiki.', onerror=lambda n: None):
        if not m.name.startswith(LEFT_OUT):
            try:
                importlib.import_module(m.name)
            except ImportError:
                # a framework the sandbox does not have
                if not m.name.startswith('kajiki.integration.'):
                    raise
    return kajiki
