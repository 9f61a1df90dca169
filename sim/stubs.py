# -*- coding: utf-8 -*-
"""Stand-ins for the frameworks kajiki integrates with (Pyramid, Paste, Zope): just what it imports."""
import sys
import types

SPECS = {}          # asset specification -> absolute path


def abspath_from_resource_spec(spec, pname='__main__'):
    return SPECS.get(spec, spec)


def implementer(*ifaces):
    return lambda cls: cls


def asbool(x):
    return str(x).lower() in ('true', 'yes', 'on', 'y', 't', '1')


class Config(object):
    """The part of Pyramid's Configurator that includeme() uses."""
    def __init__(self, settings):
        self.settings = settings
        self.renderers = {}
        self.registry = types.SimpleNamespace()

    def get_settings(self):
        return self.settings

    def add_renderer(self, name, factory):
        self.renderers[name] = factory


def install():
    def mod(name, **kw):
        m = sys.modules.get(name)
        if m is None or getattr(m, '__sim_stub__', None) is None:
            m = types.ModuleType(name)
            m.__sim_stub__ = True
            m.__path__ = []
            sys.modules[name] = m
        for k, v in kw.items():
            setattr(m, k, v)
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(sys.modules[parent], leaf, m)
    mod('paste')
    mod('paste.deploy')
    mod('paste.deploy.converters', asbool=asbool)
    mod('zope')
    mod('zope.interface', implementer=implementer)
    mod('pyramid')
    mod('pyramid.interfaces', IRenderer=object, ITemplateRenderer=object)
    mod('pyramid.resource', abspath_from_resource_spec=abspath_from_resource_spec)
