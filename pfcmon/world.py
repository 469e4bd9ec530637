"""Scratch worlds: isolated py-file-conf projects in a temporary directory.

A World owns a scratch directory (sources on sys.path + manager folders), creates
managers there, and on close restores every piece of process-global state that
py-file-conf keeps (context, plugins, options, sys.modules, sys.path, cwd).
"""
import collections
import gc
import importlib
import os
import shutil
import sys
import tempfile
import types
import warnings

REPO = os.environ.get('PFC_REPO', '/repo')


def bootstrap():
    """Make the checked-out tree importable and silence its console logging."""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyfileconf
    got = os.path.realpath(os.path.dirname(pyfileconf.__file__))
    want = os.path.realpath(os.path.join(REPO, 'pyfileconf'))
    if got != want:
        raise RuntimeError(f'importing pyfileconf from {got}, expected {want}')
    import pyfileconf.main  # noqa
    import logging
    from pyfileconf.logger.logger import logger
    for h in list(logger.handlers):
        if type(h) is logging.StreamHandler:
            logger.removeHandler(h)
    logger.addHandler(logging.NullHandler())
    logger.propagate = False
    warnings.simplefilter('ignore')


# --------------------------------------------------------------------------
# Recording module: generated user code reports every call here.
# --------------------------------------------------------------------------
NONE = object()      # what a hook returns to make the call return None


class Recorder:
    def __init__(self):
        self.calls = []      # list of (label, dict of kwargs)
        self.inits = []      # list of (label, dict of kwargs)
        self.fail = {}       # label -> exception to raise
        self.hooks = {}      # label -> callable(kwargs) run inside the call
        self.seq = 0
        self.init_fail = {}  # label -> exception to raise when constructing
        self.objs = None     # set to a list to record which object every init was for

    def rec(self, label, kwargs):
        self.seq += 1
        kw = dict(kwargs)
        self.calls.append((label, kw))
        if label in self.fail:
            exc = self.fail[label]
            raise exc
        if label in self.hooks:
            out = self.hooks[label](kw)
            if out is NONE:
                return None
            if out is not None:
                return out
        return Token(label, kw, self.seq)

    def init(self, label, kwargs, obj=None):
        self.inits.append((label, dict(kwargs)))
        if self.objs is not None:
            self.objs.append((label, obj))
        if label in self.init_fail:
            raise self.init_fail[label]


class Token:
    """Unique, self describing result of a recorded call."""
    __slots__ = ('label', 'kw', 'seq')

    def __init__(self, label, kw, seq):
        self.label, self.kw, self.seq = label, kw, seq

    def __repr__(self):
        return f'Token({self.label}#{self.seq} {self.kw})'


_MODCOUNT = [0]


class World:
    def __init__(self, tag='w', quick_edits=False):
        """quick_edits: config files are written as by an editor within one second, keeping their size,
        while Python may cache bytecode, so that only their contents tell that they changed."""
        import pyfileconf
        self.quick_edits = quick_edits
        if quick_edits:
            sys.dont_write_bytecode = False
        from pyfileconf import context
        self.orig_cwd = os.getcwd()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix=f'pfcmon_{tag}_', dir=os.environ.get('PFC_SCRATCH')))
        self.src = os.path.join(self.root, 'src')
        self.proj = os.path.join(self.root, 'proj')
        os.makedirs(self.src)
        os.makedirs(self.proj)
        os.chdir(self.root)
        self.orig_modules = set(sys.modules)
        self.orig_path = list(sys.path)
        sys.path.insert(0, self.src)
        self.R = Recorder()
        vrec = types.ModuleType('vrec')
        vrec.rec = lambda label, kw: self.R.rec(label, kw)
        vrec.init = lambda label, kw, obj=None: self.R.init(label, kw, obj)
        vrec.WORLD = self
        sys.modules['vrec'] = vrec
        self.managers = {}
        self.vary_imports = None     # a random source
        self.script_names = set()
        self.import_ways = collections.Counter()
        self.plugins = []
        context.reset()
        self._reset_plugins()

    # -- files -------------------------------------------------------------
    def uid(self):
        _MODCOUNT[0] += 1
        return _MODCOUNT[0]

    def write(self, path, text):
        full = path if os.path.isabs(path) else os.path.join(self.root, path)
        assert os.path.realpath(full).startswith(self.root + os.sep)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w', encoding='utf8', newline='\n') as f:
            f.write(text)
        return full

    def write_config(self, path, text):
        """Write a config file, which the project is about to read."""
        if not self.quick_edits:
            return self.write(path, text)
        text += '#' * (-len(text.encode()) % 2048 - 1) + '\n' if len(text.encode()) % 2048 else ''
        full = self.write(path, text)
        os.utime(full, (1500000000, 1500000000))
        return full

    def read(self, path):
        full = path if os.path.isabs(path) else os.path.join(self.root, path)
        with open(full, encoding='utf8', newline='') as f:
            return f.read()

    def module(self, name, source):
        p = self.write(os.path.join(self.src, *name.split('.')) + '.py', source)
        parts = name.split('.')
        for i in range(1, len(parts)):
            init = os.path.join(self.src, *parts[:i], '__init__.py')
            if not os.path.exists(init):
                self.write(init, '')
        importlib.invalidate_caches()
        return p

    def get_object(self, module, name):
        """The object, imported in one of the ways in which the program using the library may have it."""
        rng = self.vary_imports
        r = 1 if rng is None else rng.random()
        if r < 0.25:
            # by another module, which has it under another name
            n = self.uid()
            self.module(f'via{n}', rng.choice([f'from {module} import {name} as other_{n}\n',
                                               f'import {module}\nother_{n} = {module}.{name}\n']))
            importlib.import_module(f'via{n}')
            self.import_ways['objects_under_other_names'] += 1
        obj = getattr(importlib.import_module(module), name)
        if 0.25 <= r < 0.5:
            # by the script which is being run
            setattr(sys.modules['__main__'], name, obj)
            self.script_names.add(name)
            self.import_ways['objects_imported_by_script'] += 1
        return obj

    def clear_script(self):
        for name in self.script_names:
            vars(sys.modules['__main__']).pop(name, None)
        self.script_names.clear()

    def folder(self, mname):
        return os.path.join(self.proj, mname)

    # -- managers ----------------------------------------------------------
    def manager(self, name, pipeline_dict_src=None, class_dicts=None, load=True, files=None, **kw):
        """class_dicts: list of (config_dict, dict source or None)"""
        from pyfileconf import PipelineManager
        folder = self.folder(name)
        os.makedirs(os.path.join(folder, kw.get('default_config_folder_name', 'defaults')), exist_ok=True)
        if pipeline_dict_src is not None:
            self.write(os.path.join(folder, 'pipeline_dict.py'), pipeline_dict_src)
        confs = None
        if class_dicts:
            confs = []
            for conf, src in class_dicts:
                confs.append(conf)
                if src is not None:
                    self.write(os.path.join(folder, f'{conf["name"]}_dict.py'), src)
        for rel, text in (files or {}).items():
            self.write(os.path.join(folder, rel), text)
        pm = PipelineManager(folder=folder, name=name, specific_class_config_dicts=confs, **kw)
        self.managers[name] = pm
        if load:
            pm.load()
        return pm

    def forget_modules(self):
        """Drop every module imported from this world, as a new interpreter would start."""
        for m in list(sys.modules):
            if m not in self.orig_modules and m != 'vrec':
                mod = sys.modules[m]
                f = getattr(mod, '__file__', None) or ''
                if m == 'module.name' or f.startswith(self.root) or (
                        getattr(mod, '__path__', None) is not None and any(
                        str(p).startswith(self.root) for p in mod.__path__)):
                    del sys.modules[m]
        importlib.invalidate_caches()

    def new_session(self):
        """Everything a fresh interpreter would not have: managers, context, imported modules."""
        from pyfileconf import context
        self.managers.clear()
        context.reset()
        self.clear_script()
        self.forget_modules()

    # -- plugins -----------------------------------------------------------
    def _reset_plugins(self):
        import pyfileconf
        pyfileconf.reset_plugins()

    def plugin(self, obj):
        from pyfileconf.plugin import manager as pman
        pman.plm.register(obj)
        self.plugins.append(obj)
        return obj

    # -- teardown ----------------------------------------------------------
    def close(self):
        sys.dont_write_bytecode = True
        self.clear_script()
        import logging
        from pyfileconf import context
        from pyfileconf.logger.logger import logger
        from pyfileconf.opts import options, DEFAULT_OPTIONS
        for a in options.option_attrs:
            setattr(options, a, getattr(DEFAULT_OPTIONS, a))
        for h in list(logger.handlers):
            if isinstance(h, logging.FileHandler):
                h.close()
                logger.removeHandler(h)
        self.managers.clear()
        context.reset()
        self._reset_plugins()
        for m in list(sys.modules):
            if m not in self.orig_modules:
                mod = sys.modules[m]
                f = getattr(mod, '__file__', None) or ''
                if m == 'vrec' or m == 'module.name' or f.startswith(self.root):
                    del sys.modules[m]
                elif getattr(mod, '__path__', None) is not None and any(
                        str(p).startswith(self.root) for p in mod.__path__):
                    del sys.modules[m]
        sys.path[:] = self.orig_path
        for k in list(sys.path_importer_cache):
            if k.startswith(self.root):
                del sys.path_importer_cache[k]
        os.chdir(self.orig_cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False
