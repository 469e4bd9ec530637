"""What surrounds a project, which work with the library has to leave alone.

    process_state   the state of the process: paths, environment, streams, hooks, handlers, threads, descriptors, ...
    Modules         what the names of modules are bound to (monkey patches), and what is in the user's functions and classes
    Audit           the files opened for writing, created, renamed, removed and so on by the library, from audit events
"""
import atexit
import builtins
import copyreg
import decimal
import gc
import importlib.machinery
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import types
import warnings

from pfcmon.world import REPO

LIB = os.path.join(os.path.realpath(REPO), 'pyfileconf') + os.sep
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
STDLIB = (os.path.dirname(os.__file__) + os.sep, '<frozen', '<string>', '<attrs', '<unknown')


# ------------------------------------------------------------------------------------------------------------------
# the process
# ------------------------------------------------------------------------------------------------------------------
def descriptors():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            out[int(fd)] = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            pass      # the one of the listing
    return out


def process_state():
    main = sys.modules['__main__']
    root = logging.getLogger()
    umask = os.umask(0o22)
    os.umask(umask)
    return {
        'sys.path': list(sys.path),
        'sys.meta_path': [id(x) for x in sys.meta_path],
        'sys.path_hooks': [id(x) for x in sys.path_hooks],
        'sys.argv': list(sys.argv),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD,
                                                         signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGPROF)],
        'warning filters': list(warnings.filters),
        'showwarning': id(warnings.showwarning),
        'hooks of sys': [id(getattr(sys, n)) for n in ('excepthook', 'displayhook', 'breakpointhook', 'unraisablehook')],
        'threading.excepthook': id(threading.excepthook),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__)],
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'tracing': [sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()],
        'threads': sorted(t.name for t in threading.enumerate()),
        'umask': umask,
        'root logger': [[id(h) for h in root.handlers], root.level, [id(f) for f in root.filters]],
        'logging': [logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()),
                    id(logging.getLogRecordFactory()), logging.captureWarnings.__name__],
        'random state': hash(random.getstate()),
        'numpy random state': _numpy_state(),
        'locale': locale.setlocale(locale.LC_ALL),
        'sys.dont_write_bytecode': sys.dont_write_bytecode,
        'garbage collection': [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)],
        'names of the script': {k: id(v) for k, v in vars(main).items()},
        'decimal context': repr(decimal.getcontext()),
        'socket timeout': socket.getdefaulttimeout(),
        'exit functions': atexit._ncallbacks(),
        'pickling': len(copyreg.dispatch_table),
    }


def _numpy_state():
    np = sys.modules.get('numpy')
    if np is None or not hasattr(np, 'random'):
        return None
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


def difference(before, after, skip=()):
    for k, v in before.items():
        if k not in skip and after[k] != v:
            return k, _between(v, after[k])
    return None


def _between(a, b):
    if isinstance(a, dict):
        ch = [f'{k}: {a.get(k, "<none>")!r} -> {b.get(k, "<none>")!r}' for k in sorted(set(a) | set(b), key=str)
              if a.get(k, '<none>') != b.get(k, '<none>')]
        return '; '.join(ch)[:600]
    return f'{a!r:.400} -> {b!r:.400}'


# ------------------------------------------------------------------------------------------------------------------
# modules, functions and classes
# ------------------------------------------------------------------------------------------------------------------
STANDARD = ('builtins os os.path io ast abc copy functools collections itertools inspect importlib importlib.util '
            'importlib.machinery importlib._bootstrap importlib._bootstrap_external typing types logging '
            'logging.handlers json pickle contextlib warnings re string textwrap traceback pdb bdb tempfile shutil '
            'pathlib threading dataclasses enum operator').split()


def bindings():
    """What the names in modules which are not the library's are bound to."""
    out = {}
    for n in STANDARD:
        m = sys.modules.get(n)
        if m is not None:
            out[n] = {k: id(v) for k, v in vars(m).items() if not k.startswith('_') or k.startswith('__i')}
            for k, v in vars(m).items():
                if isinstance(v, type) and getattr(v, '__module__', None) == n:
                    out[n + '.' + k] = {a: id(x) for a, x in vars(v).items()
                                        if not a.startswith(('_abc', '__abstract', '__doc__', '__weakref', '__dict__'))}
    return out


def code_state(module):
    """What is in the functions and classes a module defines."""
    out = {}

    def function(label, f):
        out[label] = (id(f.__code__), _deep(f.__defaults__), _deep(f.__kwdefaults__), sorted(vars(f)), f.__name__,
                      f.__qualname__, f.__module__, {k: id(v) for k, v in f.__annotations__.items()}, f.__doc__)

    for k, v in list(vars(module).items()):
        if isinstance(v, types.FunctionType) and v.__module__ == module.__name__:
            function(k, v)
        elif isinstance(v, type) and v.__module__ == module.__name__:
            out[k] = ({a: id(x) for a, x in vars(v).items() if not a.startswith(('_abc', '__abstract'))
                       and a not in ('__weakref__', '__dict__', '__slotnames__')}, [id(b) for b in v.__mro__], v.__name__, v.__module__)
            for a, x in vars(v).items():
                x = getattr(x, '__func__', x)
                if isinstance(x, types.FunctionType):
                    function(f'{k}.{a}', x)
    return out


def _deep(x, n=0):
    """The value of a default, by identity and, for containers, also by what is in it"""
    if isinstance(x, (list, tuple, set, frozenset)) and n < 6:
        return type(x).__name__, id(x), [_deep(y, n + 1) for y in x]
    if isinstance(x, dict) and n < 6:
        return 'dict', id(x), [(_deep(k, n + 1), _deep(v, n + 1)) for k, v in x.items()]
    return id(x)


def arguments(a, kw):
    """What is in the lists and dictionaries the program passes"""
    return [_deep(x) for x in a], [(k, _deep(x)) for k, x in kw.items()]


class Modules:
    """Remembers what the modules of the worlds are like when they have just been executed."""

    def __init__(self):
        self.seen = []
        self.roots = []
        mon = self
        exec_module = importlib.machinery.SourceFileLoader.exec_module

        def new_exec(loader, module):
            exec_module(loader, module)
            mon.executed(module)
        importlib.machinery.SourceFileLoader.exec_module = new_exec

    def executed(self, module):
        f = getattr(module, '__file__', None) or ''
        if any(f.startswith(r) for r in self.roots):
            self.seen.append((module, code_state(module)))

    def changed(self):
        n = 0
        for module, before in self.seen:
            after = code_state(module)
            for k, v in before.items():
                n += 1
                if k in after and after[k] != v:
                    return n, f'{module.__name__}.{k}: {v!r:.500} -> {after[k]!r:.500}'
        return n, None


# ------------------------------------------------------------------------------------------------------------------
# files
# ------------------------------------------------------------------------------------------------------------------
WRITES = {'os.mkdir': 1, 'os.remove': 1, 'os.rename': 2, 'os.rmdir': 1, 'os.chmod': 1, 'os.chown': 1, 'os.symlink': 2,
          'os.link': 2, 'os.truncate': 1, 'os.utime': 1, 'shutil.rmtree': 1, 'os.setxattr': 1, 'os.mkfifo': 1}
OTHER = {'subprocess.Popen', 'os.system', 'socket.__new__', 'socket.connect', 'os.fork', 'os.forkpty', 'os.exec',
         'os.posix_spawn', 'os.kill', 'signal.pthread_kill', 'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv',
         'sys.settrace', 'sys.setprofile', 'ctypes.dlopen', 'builtins.input', 'builtins.input/result', 'webbrowser.open',
         'os.startfile', 'syslog.syslog', 'fcntl.flock', 'fcntl.lockf', 'mmap.__new__', 'pty.spawn', 'sqlite3.connect'}
FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Audit:
    """The library's own effects on files and the system; what the user's code and the checks do does not count."""

    def __init__(self):
        self.on = False
        self.roots = ()
        self.events = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, _, flags = args
            if not isinstance(path, (str, bytes)) or not flags & FLAGS or path == os.devnull:
                return
            paths = [path]
        elif event in WRITES:
            paths = list(args[:WRITES[event]])
        elif event in OTHER:
            paths = None
        else:
            return
        f = sys._getframe(1)
        names = []
        mine = None
        while f is not None:
            fn = f.f_code.co_filename
            if mine is None and not fn.startswith(STDLIB) and 'site-packages' not in fn:
                mine = fn.startswith(LIB)
                if not mine:
                    return
            if fn.startswith(LIB):
                names.append(f.f_code.co_name)
            f = f.f_back
        if mine:
            self.on = False
            try:
                self.events.append((event, paths and [os.path.abspath(os.fsdecode(p)) for p in paths
                                                      if isinstance(p, (str, bytes, os.PathLike))],
                                    None if paths else repr(args)[:200], names))
            finally:
                self.on = True


# ------------------------------------------------------------------------------------------------------------------
# unusual but legitimate surroundings
# ------------------------------------------------------------------------------------------------------------------
class Stream:
    def __init__(self, stream):
        self.stream = stream

    def __getattr__(self, n):
        return getattr(self.stream, n)

    def write(self, text):
        return len(text)


def unusual(rng):
    """Change the state of the process, as the program which uses the library may have; returns what restores it."""
    undo = []
    todo = rng.sample(range(9), rng.randrange(5))
    if 0 in todo:
        out, err = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = Stream(out), Stream(err)
        undo.append(lambda: (setattr(sys, 'stdout', out), setattr(sys, 'stderr', err)))
    if 1 in todo:
        hooks = {n: getattr(sys, n) for n in ('excepthook', 'displayhook', 'breakpointhook')}
        for n in hooks:
            setattr(sys, n, lambda *a, **kw: None)
        undo.append(lambda: [setattr(sys, n, x) for n, x in hooks.items()])
    if 2 in todo:
        filters = list(warnings.filters)
        warnings.filterwarnings('ignore', message='anything', category=DeprecationWarning)
        undo.append(lambda: warnings.filters.__setitem__(slice(None), filters))
    if 3 in todo:
        os.environ['PFC_UNUSUAL'] = 'x'
        undo.append(lambda: os.environ.pop('PFC_UNUSUAL', None))
    if 4 in todo:
        mask = os.umask(0o027)
        undo.append(lambda: os.umask(mask))
    if 5 in todo:
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(limit + 17)
        undo.append(lambda: sys.setrecursionlimit(limit))
    if 6 in todo:
        gc.disable()
        undo.append(gc.enable)
    if 7 in todo:
        root = logging.getLogger()
        level, h = root.level, logging.NullHandler()
        root.addHandler(h)
        root.setLevel(logging.ERROR)
        undo.append(lambda: (root.removeHandler(h), root.setLevel(level)))
    if 8 in todo:
        prec = decimal.getcontext().prec
        decimal.getcontext().prec = 11
        undo.append(lambda: setattr(decimal.getcontext(), 'prec', prec))
    random.seed(rng.random())

    def restore():
        for f in reversed(undo):
            f()
    return todo, restore
