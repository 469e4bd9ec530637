"""Interpreters which run the workloads of other checks under another environment.

A server process (this file run as a script) executes cases of any check and sends back a transcript of what was
observed: the operations and what they gave, every call of user code with its arguments, every change hook, and all
files. The same case run by two servers, started in different environments, must give the same transcript.
"""
import importlib
import os
import pickle
import re
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADDRESS = re.compile(r'0x[0-9a-f]{6,}')
TEMPORARY = re.compile(r'/\.[\w-]{8}\.tmp')


def send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack('>Q', len(data)) + data)
    f.flush()


def receive(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    n, = struct.unpack('>Q', head)
    data = f.read(n)
    return pickle.loads(data) if len(data) == n else None


# ------------------------------------------------------------------------------------------------------------------
# environments
# ------------------------------------------------------------------------------------------------------------------
BASE = dict(hash='0')
VARIANTS = {
    'another hash seed': dict(hash='1'),
    'a third hash seed and directories listed backwards': dict(hash='20', listing='reversed'),
    'directories listed in random order': dict(hash='0', listing='random'),
    'an ASCII locale': dict(hash='0', env={'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}),
    'assertions stripped (-O)': dict(hash='0', args=['-O']),
    'frequent garbage collection': dict(hash='3', gc=20),
    'no garbage collection': dict(hash='4', gc=0),
    'a folder with an odd name': dict(hash='0', folder='a folder.x=y \u00fc'),
    'other managers used before': dict(hash='5', noise=True),
    'another working directory and interpreter flags': dict(hash='6', args=['-B', '-X', 'dev'], cwd='/'),
    'a relative folder': dict(hash='0', folders='relative'),
    'a symbolic link to the folder': dict(hash='0', folders='link'),
}


# What the strings and parameters of the generated projects are like
FLAVOURS = {'not ASCII': (
    ['caf\u00e9', '\u2603 snow', '\U0001f40d', '\u00e4=\u00f6', "\u00fc'", '\u00df\n\u00df', '\u0440\u0443', 'a\u0301', '\u2028'],
    ['\u00e4', 'gr\u00f6\u00dfe', '\u03bb', '\u540d', 'b', 'opt', 'value', '\u044f_b', '\u00e4\u00e4', 'key', 'kind', '_\u00f8'])}


class Server:
    def __init__(self, variant, scratch):
        v = variant
        env = {k: x for k, x in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
        env.update(LC_ALL='C.UTF-8', PYTHONHASHSEED=v['hash'], PYTHONDONTWRITEBYTECODE='1')
        env.update(v.get('env', {}))
        folder = os.path.join(scratch, v.get('folder', 'plain'))
        os.makedirs(folder, exist_ok=True)
        env['PFC_SCRATCH'] = folder
        self.p = subprocess.Popen([sys.executable, *v.get('args', ()), os.path.abspath(__file__)], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=v.get('cwd', scratch))
        send(self.p.stdin, {k: v[k] for k in ('listing', 'gc', 'noise', 'folders', 'cwd') if k in v})

    def run(self, *request):
        try:
            send(self.p.stdin, request)
            return receive(self.p.stdout)
        except BrokenPipeError:
            return None

    def close(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


# ------------------------------------------------------------------------------------------------------------------
# within a server
# ------------------------------------------------------------------------------------------------------------------
def shuffled_listings(how):
    import random
    order = random.Random(5)
    real_listdir, real_scandir = os.listdir, os.scandir

    def rearrange(xs):
        xs = sorted(xs, key=lambda x: x if isinstance(x, (str, bytes)) else x.name)
        if how == 'reversed':
            xs.reverse()
        else:
            order.shuffle(xs)
        return xs

    class Scan:
        def __init__(self, it):
            self.it = it
            with it:
                self.xs = iter(rearrange(list(it)))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.xs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.it.close()

        close = __exit__

    os.listdir = lambda *a: rearrange(real_listdir(*a))
    os.scandir = lambda *a: Scan(real_scandir(*a)) if not a or not isinstance(a[0], int) else real_scandir(*a)


def changed_folders(how, rec):
    from pyfileconf import PipelineManager
    init = PipelineManager.__init__

    def new_init(self, folder, *a, **kw):
        root = rec.worlds[-1] if rec.worlds else ''
        if root and folder.startswith(root):
            if how == 'relative':
                folder = os.path.relpath(folder)
            else:
                link = root + '_link'
                if not os.path.islink(link):
                    os.symlink(root, link)
                folder = link + folder[len(root):]
        init(self, folder, *a, **kw)
    PipelineManager.__init__ = new_init


class Recording:
    """What happens in the worlds of a case."""

    def __init__(self):
        self.worlds = []
        self.out = []

    def clean(self, text):
        for i, root in enumerate(self.worlds):
            text = text.replace(root, f'<world {i}>').replace(f'<world {i}>_link', f'<world {i}>')
            # absolute and relative ones are the same
            text = text.replace(f'<world {i}>/', '')
        return TEMPORARY.sub('/<temporary>', ADDRESS.sub('<address>', text))

    def install(self):
        from pfcmon.world import World
        from pyfileconf import hookimpl
        rec = self
        init, close = World.__init__, World.close

        class Hooks:
            @hookimpl
            def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
                rec.note('pre change', manager.pipeline_manager_name, section_path_str, updates)

            @hookimpl
            def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
                rec.note('post change', manager.pipeline_manager_name, section_path_str, updates)

        def new_init(w, *a, **kw):
            init(w, *a, **kw)
            rec.worlds.append(w.root)
            w.plugin(Hooks())

        def new_close(w):
            rec.files(w)
            for label, kw in w.R.calls:
                rec.note('call', label, kw)
            for label, kw in w.R.inits:
                rec.note('construct', label, kw)
            if os.path.islink(w.root + '_link'):
                os.unlink(w.root + '_link')
            close(w)

        World.__init__, World.close = new_init, new_close

    def note(self, *parts):
        self.out.append(' '.join(p if isinstance(p, str) else safe(p) for p in parts))

    def files(self, w):
        for d, _, fs in sorted(os.walk(w.root)):
            for f in sorted(fs):
                if f.endswith('.pyc') or TEMPORARY.fullmatch('/' + f):
                    continue
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    self.note('file', p, fh.read().decode('utf8', 'surrogateescape'))

    def start(self):
        self.worlds, self.out = [], []


def safe(x):
    if isinstance(x, dict):
        return '{' + ', '.join(f'{k}: {safe(v)}' for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + '}'
    try:
        return repr(x)
    except Exception as e:
        return f'<{type(e).__name__}>'


def serve():
    src, dst = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    sys.path.insert(0, HERE)
    conf = receive(src)
    from pfcmon import core, gen, model, world
    world.bootstrap()
    import gc
    import random
    if 'listing' in conf:
        shuffled_listings(conf['listing'])
    if 'gc' in conf:
        gc.set_threshold(conf['gc'])
    rec = Recording()
    rec.install()
    if 'folders' in conf:
        changed_folders(conf['folders'], rec)
    if 'cwd' in conf:
        os.chdir = lambda path: None
    sys.setrecursionlimit(3000)
    plain = list(gen.STRINGS), list(gen.PARAM_NAMES)
    n = 0
    while True:
        request = receive(src)
        if request is None:
            os._exit(0)
        pid, seed, index, tier, flavour = request
        gen.STRINGS[:], gen.PARAM_NAMES[:] = FLAVOURS[flavour] if flavour else plain
        mod = importlib.import_module(f'pfcmon.checks.{pid.lower()}')
        if conf.get('noise'):
            rng = random.Random(n)
            with world.World('noise') as w:
                pr = gen.project(rng)
                pm = pr.build(w, name=rng.choice(['pm', 'pm2', 'noise']))
                for p in list(pr.items)[:3]:
                    pm.run(p)
        rec.start()
        model.COUNTER[0] = world._MODCOUNT[0] = 0
        n += 1
        status, ctx, msg, key = core.run_one(mod, seed, index, tier)
        out = [f'status {status} {(msg or "").splitlines()[:1]}']
        out += [f'event {k} {v}' for k, v in sorted(ctx.events.items())]
        out += ['log ' + x for x in ctx.lines]
        out += rec.out
        send(dst, dict(status=status, message=msg, transcript=[rec.clean(x) for x in out], events=len(rec.out)))


if __name__ == '__main__':
    serve()
