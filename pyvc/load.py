"""Loader of the instrumented modules of the repository."""
import builtins
import logging as _logging
import sys
import types
from . import front, ops, npm, lib
from .rt import RT
from .sym import Unsupported

_CODE = {}


class _Logger(object):
    """stands for logging.Logger: no effect"""
    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return lambda *x, **k: None


def _logging_mod():
    m = types.ModuleType('logging')
    lg = _Logger()
    m.getLogger = lambda *a: lg
    for k in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'basicConfig'):
        setattr(m, k, lambda *a, **kw: None)
    for k in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        setattr(m, k, getattr(_logging, k))
    m.__getattr__ = lambda a: (lambda *x, **k: _Logger())
    return m


class World(object):
    """One fresh copy of the program's modules."""
    def __init__(self, contracts=None, repo=None):
        self.src = front.repo_sources(repo)
        self.mods = {}
        self.contracts = dict(contracts or {})
        self.used = set()
        RT.modules = self.mods
        self.rt = ops.make_rt()
        self.bi = ops.make_builtins(self._import)
        self.ext = {}
        lib.reset()

    def external(self, name):
        if name not in self.ext:
            m = None
            if name == 'numpy':
                m = npm.module()
            elif name == 'logging':
                m = _logging_mod()
            else:
                m = lib.external(name)
            self.ext[name] = m
        return self.ext[name]

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__name__'].split('.')
            if not hasattr(sys.modules.get(globals['__name__'], None), '__path__'):
                base = base[:-level] if globals.get('__package__') is None else globals['__package__'].split('.')
            name = '.'.join(base + ([name] if name else []))
        if name.split('.')[0] in ('mtoolkit', 'nrml') or name in self.src:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name + '.' + f in self.src:
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load(name.split('.')[0])
        if name == '__future__':
            return builtins.__import__(name, globals, locals, fromlist, level)
        m = self.external(name)
        if m is None:
            m = builtins.__import__(name, globals, locals, fromlist, level)
            return m
        if fromlist:
            return m
        top = name.split('.')[0]
        if top == name:
            return m
        t = self.external(top)
        if t is None:
            t = types.ModuleType(top)
        cur = t
        parts = name.split('.')
        for i in range(1, len(parts)):
            sub = self.external('.'.join(parts[:i + 1]))
            setattr(cur, parts[i], sub)
            cur = sub
        return t

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.src:
            raise ImportError('No module named %s' % name)
        parts = name.split('.')
        for i in range(1, len(parts)):
            self.load('.'.join(parts[:i]))
        path = self.src[name]
        text = front.translated(path)
        key = (name, text)
        if key not in _CODE:
            _CODE[key] = compile(front.instrument(text, name, path), path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['_rt'] = self.rt
        m.__dict__['__builtins__'] = self.bi
        if path.endswith('__init__.py'):
            m.__path__ = []
            m.__package__ = name
        self.mods[name] = m
        if len(parts) > 1:
            setattr(self.mods['.'.join(parts[:-1])], parts[-1], m)
        exec(_CODE[key], m.__dict__)
        for q, stub in self.contracts.items():
            mod, at = q.split(':')
            if mod == name:
                o = m
                at = at.split('.')
                for a in at[:-1]:
                    o = getattr(o, a)
                if not hasattr(o, at[-1]):
                    raise Unsupported('%s is gone' % q)
                setattr(o, at[-1], stub)
                self.used.add(q)
        return m
