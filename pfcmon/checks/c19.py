"""C19: loading is all or nothing and managers are found by what they own."""
import errno
import gc
import os
import resource
import signal
import sys
import warnings

from pfcmon import gen
from pfcmon.checks.c02 import execute
from pfcmon.model import Model, Observer, OBSERVERS, fresh_value, snapshot_files
from pfcmon.util import same
from pfcmon.world import World

ID = 'C19'
RULE = ('Random projects with edited config files and section.py files importing helper modules are loaded and reloaded '
        'while something fails: user code raising any exception or an interrupt, broken or missing dict, section, item '
        'and module files, blocked paths, name conflicts, write errors at a random file size, errors injected at a '
        'random file operation (audit hook), and a kill of the loading process at a random file operation or in the '
        'middle of a write. sys.modules, the context stack and the values of all files are compared with before, access '
        'is tried, then the cause is removed and the retried load is compared with the reference model. Other cases '
        'create and replace managers with similar and nested names and folders and look up random paths. Distinct by '
        'project and failure.')
ASSUMPTIONS = ['files are only written by this process', 'between a failed reload and its retry the manager is not used',
               'file paths are given through the folder of the manager (no other symlinks)']
REQUIRED = {'failed_loads': 200, 'failed_reloads': 200, 'user_exceptions': 100, 'interrupts': 50, 'write_errors': 40,
            'injected_errors': 80, 'killed_loads': 60, 'broken_files': 60, 'conflicts': 30, 'modules_wiped': 100, 'packages_partly_imported': 50,
            'retries': 400, 'edited_files_kept': 1000, 'not_loaded_accesses': 1000, 'observations': 3000,
            'file_lookups': 5000, 'file_lookups_nested': 500, 'file_lookups_outside': 500, 'section_lookups': 2000,
            'replaced_managers': 50, 'collected': 30, 'refused_definitions': 100, 'dependencies_checked': 80}
CASES = {'quick': 900, 'thorough': 12000}


# -- fault injection at file operations -------------------------------------
class Faults:
    """Raises (or calls) at the n-th file operation within a folder."""
    installed = False
    active = None

    def __init__(self, root, n, action, writes_only):
        self.root, self.n, self.action, self.writes_only = root, n, action, writes_only
        self.fired = False
        self.seen = 0

    @classmethod
    def install(cls):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True

    @staticmethod
    def hook(event, args):
        f = Faults.active
        if f is None or event not in ('open', 'os.rename', 'os.mkdir', 'os.remove', 'os.chmod', 'tempfile.mkstemp'):
            return
        path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str) or not os.path.abspath(path).startswith(f.root + os.sep):
            return
        if event == 'open' and f.writes_only:
            mode, flags = args[1], args[2]
            writing = (isinstance(mode, str) and set(mode) & set('wax+')) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if not writing:
                return
        f.seen += 1
        if f.seen == f.n:
            Faults.active = None        # only once; cleaning up must be possible
            f.fired = True
            f.action()

    def __enter__(self):
        Faults.install()
        Faults.active = self
        return self

    def __exit__(self, *a):
        Faults.active = None
        return False


def user_exception(rng, n):
    k = rng.randrange(12)
    return [ValueError(f'user {n}'), KeyError(n), AttributeError('sections'), ImportError('user'), RecursionError('user'),
            OSError(errno.ENOENT, 'user'), StopIteration(n), AssertionError(), KeyboardInterrupt(), SystemExit(3),
            GeneratorExit(), KeyboardInterrupt()][k]


class Case:
    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        self.name = rng.choice(['pm', 'pm2', 'a', 'proj'])
        self.n = 0
        sys.modules['vrec'].check = self.user_code
        self.exc = None
        self.objects = {}       # path -> object held since the last successful load

    def user_code(self):
        if self.exc is not None:
            raise self.exc

    # -- setting up --------------------------------------------------------
    def start(self):
        rng, ctx, w = self.rng, self.ctx, self.w
        self.pr = pr = gen.project(rng, simple=rng.random() < 0.5, tag='q')
        for i in range(3):
            w.module(f'help{i}', 'import vrec\n' + (f'import help{i + 1}\n' if i < 2 else 'import hpkg.mod\n')
                     + f'value = {i}\n' + ('vrec.check()\n' if rng.random() < 0.5 else ''))
        w.module('hpkg.mod', 'value = 9\n')
        w.module('preloaded', 'value = 10\n\n\ndef extra(a=1):\n    return a\n')
        import preloaded
        self.preloaded = preloaded
        w.module('hpkg.other', 'value = 11\n')
        if rng.random() < 0.4:
            # a part of the package is imported before
            import hpkg.other
            ctx.ev('packages_partly_imported')
        self.m = None
        pr.write_modules(w)
        self.confs = pr.class_dicts(w)
        self.pm = w.manager(self.name, pr.pipeline_dict_src(), class_dicts=self.confs, load=False)
        self.m = Model(w, pr, self.name)
        if rng.random() < 0.75:
            # the config files exist and have been edited
            for p in pr.items:
                if rng.random() < 0.7:
                    self.m.write_item(rng, p)
        secs = [''] + list(pr.sections)
        for sec in secs:
            if rng.random() < 0.5:
                keys = rng.sample(gen.PARAM_NAMES, rng.randint(0, 2))
                self.m.write_section(rng, sec, keys)
                f = self.section_file(sec)
                w.write(f, rng.choice(['import help0\n', 'import help2, preloaded\n', 'from help1 import value as v1\n',
                                       'from hpkg.mod import value as v2\n', '']) + w.read(f))
        ctx.case_key(sorted(pr.items), self.name, [w.read(self.section_file(s)) for s in self.m.disk_sections])
        self.loaded = False
        self.stale = False      # a load which was to fail did not

    def section_file(self, sec):
        return os.path.join(self.m.base(), *(sec.split('.') if sec else []), 'section.py')

    def item_file(self, p):
        return os.path.join(self.m.base(), self.pr.items[p].rel_file)

    # -- what a failure may not do ------------------------------------------
    def files_kept(self, before, why, broken=()):
        """Every file which existed has its contents, except that definitions may be added."""
        after = snapshot_files(self.w)
        for rel, text in before.items():
            if not rel.endswith('.py'):
                continue
            self.ctx.check(rel in after, f'{why}: {rel} is gone')
            if rel.split(os.sep)[1] not in ('defaults',) or os.path.basename(rel) == 'section.py':
                self.ctx.check(after[rel] == text, f'{why}: {rel} was changed: {after[rel]!r}')
                continue
            self.ctx.ev('edited_files_kept')
            if after[rel] == text:
                continue
            try:
                old, _ = execute(text.decode('utf8'), rel)
            except BaseException:
                self.ctx.fail(f'{why}: file {rel} which does not execute was changed')
            try:
                new, _ = execute(after[rel].decode('utf8'), rel)
            except BaseException as e:
                self.ctx.fail(f'{why}: {rel} was {text!r}, now {after[rel]!r} does not execute: {e!r}')
            for k, v in old.items():
                self.ctx.check(k in new and (same(new[k], v) or type(v).__name__ in ('Selector', 'module')),
                               f'{why}: {k} of {rel} was {v!r}, now {after[rel]!r}')

    def works(self):
        """What a loaded manager shows; when called again it loads nothing from files."""
        from pyfileconf import Selector
        pm, pr = self.pm, self.pr
        s = Selector()
        out = {'names': sorted(dir(pm)), 'view': sorted(dir(getattr(s, self.name)))}
        for sec in pr.sections:
            v = getattr(s, self.name)
            for part in sec.split('.'):
                v = getattr(v, part)
            out[f'names in {sec}'] = sorted(dir(v))
        for name in ('extra_sec.extra', 'no_section.item', *pr.items):
            out[f'contains {name}'] = f'{self.name}.{name}' in s
        try:
            pm.extra_sec
        except AttributeError as e:
            out['extra'] = type(e).__name__
        else:
            out['extra'] = 'found'
        for p, st in self.m.items.items():
            if st.cur is not None:
                c = pm.config.get(p)
                out[f'config of {p}'] = {q.name: c[q.name] for q in st.item.target.params if q.name in c}
        for p, obj in self.objects.items():
            out[f'{p} is the object it was'] = pm.get(p) is obj
        return out

    def attempt(self, op, why, must=False, expect=None):
        """Run a load which may fail; True when it did not."""
        ctx, w = self.ctx, self.w
        from pyfileconf import context
        # what it showed when it was loaded, taken before the fault was planted (it loads what was not loaded yet)
        worked = self.worked if self.loaded and not self.stale else None
        before_files = snapshot_files(w)
        before = dict(sys.modules)
        registry = dict(context.active_managers)
        path = list(sys.path)
        err = None
        try:
            op()
        except BaseException as e:
            if type(e).__name__ in ('CaseTimeout', 'DoesNotTerminate') or isinstance(e, MemoryError):
                raise
            err = e
        finally:
            Faults.active = None
        ctx.check(len(context.stack.frames) == 0, f'{why}: stack is {context.stack.frames}')
        ctx.check(sys.path == path, f'{why}: sys.path changed')
        ctx.check(dict(context.active_managers) == registry, f'{why}: registry changed')
        ctx.check(sys.modules.get('preloaded') is self.preloaded, f'{why}: module imported before is gone')
        if err is None:
            ctx.check(not must, f'{why}: did not raise')
            self.loaded = self.stale = True
            return True
        if expect is not None:
            ctx.check(err is expect, f'{why}: raised {type(err).__name__}: {err} instead of {expect!r}')
        new = {k for k, m in sys.modules.items() if k not in before}
        ctx.check(not new, f'{why}: modules left behind by the failed load: {sorted(new)}')
        if not self.loaded:
            gone = [k for k, m in before.items() if sys.modules.get(k) is not m]
            ctx.check(not gone, f'{why}: modules imported before the failed load are gone: {gone}')
        made = [f for f in snapshot_files(w) if f not in before_files and not (
            f.endswith('.py') and f.split(os.sep)[1] == 'defaults' and not os.path.basename(f).startswith('.')
            or '__pycache__' in f)]
        ctx.check(not made, f'{why}: files left behind by the failed load: {made}')
        ctx.ev('failed_reloads' if self.loaded else 'failed_loads')
        ctx.ev('modules_wiped')
        self.files_kept(before_files, why)
        if worked is not None:
            works = self.works()
            for k, v in worked.items():
                ctx.check(same(works[k], v), lambda: f'after a reload which failed ({why}): {k}: {works[k]!r}, '
                                                     f'before {v!r}', ev='kept_by_failed_reloads')
        return False

    def not_loaded(self):
        from pyfileconf import Selector
        from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException as NotLoaded
        rng, ctx, pm = self.rng, self.ctx, self.pm
        p = rng.choice(list(self.pr.items))
        full = f'{self.name}.{p}'

        def view():
            v = Selector()
            for part in full.split('.'):
                v = getattr(v, part)
            return v

        def attr():
            o = pm
            for part in p.split('.'):
                o = getattr(o, part)
            return o
        ways = {'get': lambda: pm.get(p), 'run': lambda: pm.run(p), 'run list': lambda: pm.run([p]), 'attr': attr,
                'update': lambda: pm.update(section_path_str=p, a=1), 'reset': lambda: pm.reset(p),
                'refresh': lambda: pm.refresh(p), 'section': lambda: pm.get(p.rsplit('.', 1)[0]),
                'view call': lambda: view()(), 'get list': lambda: pm.run([p, p]),
                'update_batch': lambda: pm.update_batch([dict(section_path_str=p, a=1)]),
                'run_product': lambda: pm.run_product(p, [dict(section_path_str=p, a=1)]),
                'get view': lambda: pm.get(view()), 'view item': lambda: view().item}
        sec = next((s['name'] + '.zz.new' for s in self.pr.specifics), None)
        if sec and 'runner' not in pm.__dict__:
            ways['create'] = lambda: pm.create(sec)
        files = snapshot_files(self.w)
        for how in rng.sample(list(ways), 5):
            ctx.ev('not_loaded_accesses')
            try:
                got = ways[how]()
            except NotLoaded:
                continue
            except Exception as e:
                ctx.fail(f'{how} of {full} which is not loaded raised {type(e).__name__}: {e}')
            ctx.fail(f'{how} of {full} which is not loaded gave {got!r}')
        ctx.check(snapshot_files(self.w) == files, 'access to a manager which is not loaded changed its files')
        ctx.check(not self.w.R.calls, 'something ran in a manager which is not loaded')

    # -- failures ------------------------------------------------------------
    def op(self):
        if self.loaded:
            return self.pm.reload if self.rng.random() < 0.8 else self.pm.load
        return self.pm.load

    def fail_once(self):
        rng, ctx, w, m, pr = self.rng, self.ctx, self.w, self.m, self.pr
        self.n += 1
        op = self.op()
        kind = rng.choice(['user', 'user', 'helper', 'broken', 'broken', 'blocked', 'conflict', 'write', 'audit', 'audit',
                           'kill', 'module'])
        if kind == 'user':
            f = self.section_file(rng.choice([''] + list(pr.sections)))
            old = w.read(f) if os.path.exists(f) else None
            self.exc = user_exception(rng, self.n)
            pre = rng.choice(['', 'import help0\n', 'import help2\n'])
            w.write(f, f'{pre}{old or ""}\nimport vrec\nvrec.check()\n')
            ctx.ev('user_exceptions')
            if not isinstance(self.exc, Exception):
                ctx.ev('interrupts')
            self.attempt(op, f'section file raising {self.exc!r}', True, self.exc)
            self.exc = None
            self.restore(f, old)
        elif kind == 'helper':
            self.exc = user_exception(rng, self.n)
            if not isinstance(self.exc, Exception):
                ctx.ev('interrupts')
            self.attempt(op, f'helper module raising {self.exc!r}')
            self.exc = None
        elif kind == 'broken':
            cands = [os.path.join(w.folder(self.name), 'pipeline_dict.py')]
            cands += [os.path.join(w.folder(self.name), f'{s["name"]}_dict.py') for s in pr.specifics]
            cands += [self.section_file(s) for s in m.disk_sections]
            cands += [self.item_file(p) for p in pr.items if os.path.exists(self.item_file(p))]
            f = rng.choice(cands)
            old = w.read(f)
            how = rng.randrange(4)
            if how == 0:
                w.write(f, old + '\nthis is) not python\n')
            elif how == 1:
                w.write(f, old + '\nx = (1,\n')
            elif how == 2 and f.endswith('_dict.py'):
                w.write(f, '# nothing here\n')
            elif how == 3 and f.endswith('_dict.py'):
                os.remove(f)
            else:
                w.write(f, '"""' + old)
            ctx.ev('broken_files')
            self.attempt(op, f'broken {os.path.relpath(f, w.proj)} ({how})',
                         must=how < 2 or not f.endswith('_dict.py'))
            self.restore(f, old)
        elif kind == 'blocked':
            p = rng.choice(list(pr.items))
            f = self.item_file(p)
            old = w.read(f) if os.path.exists(f) else None
            if old is not None:
                os.remove(f)
            os.makedirs(f)
            self.attempt(op, f'{p}.py being a folder', must=True)
            os.rmdir(f)
            self.restore(f, old)
        elif kind == 'conflict' and pr.specifics:
            f = os.path.join(w.folder(self.name), 'pipeline_dict.py')
            old = w.read(f)
            name = rng.choice(pr.specifics)['name']
            w.write(f, old.replace('pipeline_dict = {', f'pipeline_dict = {{{name!r}: {{}}, ', 1))
            ctx.ev('conflicts')
            d = os.path.join(m.base(), name)
            had = {x: os.path.exists(x) for x in (d, os.path.join(d, 'section.py'))}
            self.attempt(op, f'section {name} named like a class dict', must=True)
            self.restore(f, old)
            if not had[os.path.join(d, 'section.py')] and os.path.exists(os.path.join(d, 'section.py')):
                os.remove(os.path.join(d, 'section.py'))
        elif kind == 'write':
            sizes = [os.path.getsize(self.item_file(p)) for p in pr.items if os.path.exists(self.item_file(p))] or [60]
            limit = rng.randint(1, max(sizes) + 20)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)

            def limited():
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                try:
                    op()
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if not self.attempt(limited, f'files limited to {limit} bytes'):
                ctx.ev('write_errors')
        elif kind == 'audit':
            exc = rng.choice([OSError(errno.ENOSPC, 'injected'), PermissionError(errno.EACCES, 'injected'),
                              KeyboardInterrupt(), OSError(errno.EMFILE, 'injected'), MemoryError2()])

            def boom():
                raise exc
            fa = Faults(w.root, rng.randint(1, 40), boom, rng.random() < 0.6)

            def faulty():
                with fa:
                    op()
            if not self.attempt(faulty, f'{exc!r} at file operation {fa.n} (writes only: {fa.writes_only})',
                                must=False):
                ctx.ev('injected_errors')
        elif kind == 'kill':
            self.kill(op)
        elif kind == 'module' and not self.loaded:
            mod = rng.choice(list(pr.modules))
            f = os.path.join(w.src, *mod.split('.')) + '.py'
            old = w.read(f)
            w.write(f, old + '\ndef broken(:\n')
            self.attempt(op, f'module {mod} is broken')
            self.restore(f, old)
        ctx.state(kind, self.loaded, len(pr.items))

    def kill(self, op):
        """The process is killed while loading."""
        rng, ctx, w = self.rng, self.ctx, self.w
        before = snapshot_files(w)
        n, writes = rng.randint(1, 40), rng.random() < 0.6
        limit = rng.randint(1, 120) if rng.random() < 0.4 else None
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    op()
                else:
                    with Faults(w.root, n, lambda: os._exit(77), writes):
                        op()
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 77:
            ctx.ev('killed_loads')
        self.files_kept(before, f'killed at file operation {n}' if limit is None else f'killed writing byte {limit}')

    def restore(self, f, old):
        if old is None:
            if os.path.exists(f):
                os.remove(f)
        else:
            self.w.write(f, old)

    # -- a load which must succeed --------------------------------------------
    def retry(self):
        rng, ctx, w, m, pr = self.rng, self.ctx, self.w, self.m, self.pr
        before = snapshot_files(w)
        try:
            self.op()()
        except BaseException as e:
            if type(e).__name__ in ('CaseTimeout', 'DoesNotTerminate'):
                raise
            import traceback
            ctx.fail(f'loading after the cause of failures was removed raised {type(e).__name__}: {e}\n'
                     + traceback.format_exc())
        ctx.ev('retries')
        self.loaded, self.stale = True, False
        m.load()
        self.objects = {}
        self.files_kept(before, 'successful load')
        obs = Observer(w, self.pm, m)
        for p in pr.items:
            ctx.check(os.path.exists(self.item_file(p)), f'no config file for {p}')
            obs.check(ctx, p, rng.choice(OBSERVERS), 'after the retried load')
        for p in rng.sample(list(pr.items), min(2, len(pr.items))):
            keys = m.free_keys(p)
            if keys:
                d = {k: fresh_value(rng) for k in rng.sample(keys, 1)}
                self.pm.update(d, section_path_str=p)
                m.update(p, d)
                obs.check(ctx, p, rng.choice(OBSERVERS), 'update after the retried load')
        for p in rng.sample(list(pr.items), min(2, len(pr.items))):
            if m.items[p].loaded:
                self.objects[p] = self.pm.get(p)
        self.worked = self.works()
        w.R.calls.clear()

    def go(self):
        self.start()
        rng = self.rng
        if rng.random() < 0.5:
            self.not_loaded()
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5 and not self.loaded:
                self.retry()
            for _ in range(rng.randint(1, 3)):
                dict_file = os.path.join(self.w.folder(self.name), 'pipeline_dict.py')
                old = self.w.read(dict_file)
                if rng.random() < 0.5:
                    # something new was added to the dict before
                    self.w.write(dict_file, 'from preloaded import extra\n' + old.replace(
                        'pipeline_dict = {', 'pipeline_dict = {"extra_sec": [extra], ', 1))
                self.fail_once()
                self.w.write(dict_file, old)
                if not self.loaded and rng.random() < 0.4:
                    self.not_loaded()
            self.retry()


class MemoryError2(Exception):
    pass


# -- managers -----------------------------------------------------------------
def managers(rng, ctx):
    from pyfileconf import PipelineManager, Selector, context
    from pyfileconf.exceptions.pipelinemanager import (NoPipelineManagerForFilepathException as NoFile,
                                                       NoPipelineManagerForSectionPathException as NoSection)
    unraisable = []
    hook = sys.unraisablehook
    sys.unraisablehook = lambda a: unraisable.append(repr(a.exc_value))
    try:
        with World('c19') as w:
            w.module('funcs', 'import vrec\ndef fa(a=1, b=2):\n    return vrec.rec("fa", dict(a=a, b=b))\n\n'
                              'class Kl:\n    def __init__(self, name=None, c=3):\n        self.name = name\n'
                              '        self.c = c\n    def __call__(self):\n'
                              '        return vrec.rec("Kl", dict(name=self.name, c=self.c))\n')
            import funcs
            src = 'from funcs import fa\npipeline_dict = {"sec": [fa], "sec2": {"in": [fa]}}\n'
            folders = ['p', 'p2', 'pp', 'p/in', 'p/in2', 'p/in/deep', 'p_', 'P', 'x/p', 'p.d', 'p/pdefaults']
            names = ['m', 'mm', 'm2', 'm_', 'M', 'a', 'sec', 'p', 'mgr']
            live = {}
            objs = []
            confs = [{'name': 'sp', 'class': funcs.Kl}]

            def create(name, folder, **kw):
                full = os.path.join(w.proj, folder)
                w.write(os.path.join(full, 'pipeline_dict.py'), src)
                w.write(os.path.join(full, 'sp_dict.py'), 'class_dict = {"s": ["one"]}\n')
                give = rng.choice([full, full + '/', os.path.relpath(full)]) if rng.random() < 0.3 else full
                return PipelineManager(folder=give, name=name, specific_class_config_dicts=confs, **kw)

            for folder, name in zip(rng.sample(folders, rng.randint(2, 5)), rng.sample(names, 5)):
                conf = rng.choice(['defaults', 'defaults', 'conf'])
                live[name] = (create(name, folder, default_config_folder_name=conf), folder, conf)
                if rng.random() < 0.8:
                    live[name][0].load()
            used = {f for _, f, _ in live.values()}
            ctx.case_key(sorted((n, f) for n, (_, f, _) in live.items()))

            def owner(path):
                best = None
                for n, (pm, folder, conf) in live.items():
                    full = os.path.join(w.proj, folder)
                    if path.startswith(full + '/') and (best is None or len(full) > best[0]):
                        best = (len(full), pm)
                return best and best[1]

            def look():
                for _ in range(12):
                    folder = rng.choice(folders + [''])
                    rel = rng.choice(['defaults/sec/fa.py', 'conf/sec/fa.py', 'pipeline_dict.py', 'defaults/section.py',
                                      'x.py', 'defaults', 'in/x.py', '2/x.py', 'defaults/in/pipeline_dict.py'])
                    path = os.path.normpath(os.path.join(w.proj, folder, rel))
                    k = rng.randrange(4)
                    give = path
                    if k == 0:
                        give = os.path.relpath(path)
                    elif k == 1:
                        give = os.path.join(os.path.dirname(path), 'zz', '..', os.path.basename(path))
                    elif k == 2:
                        give = path.replace(w.proj, w.proj + '/./', 1)
                    want = owner(path)
                    ctx.ev('file_lookups')
                    if want is not None and sum(path.startswith(os.path.join(w.proj, f) + '/')
                                                for _, f, _ in live.values()) > 1:
                        ctx.ev('file_lookups_nested')
                    try:
                        got = PipelineManager.get_manager_by_filepath(give)
                    except NoFile:
                        got = None
                    if want is None:
                        ctx.ev('file_lookups_outside')
                    ctx.check(got is want, f'{give} belongs to {want and want.name}, found {got and got.name}; '
                                           f'managers {[(n, f) for n, (_, f, _) in live.items()]}')
                for _ in range(6):
                    nm = rng.choice(names + ['mmm', 'defaults', '_', 'nope'])
                    path = nm + rng.choice(['', '.sec.fa', '.m', '.sp.s.one', '.nope', '.mm.m2'])
                    ctx.ev('section_lookups')
                    try:
                        got = PipelineManager.get_manager_by_section_path_str(path)
                    except NoSection:
                        got = None
                    want = live[nm][0] if nm in live else None
                    ctx.check(got is want, f'{path} belongs to {want and want.name}, found {got and got.name}')
                ctx.eq(sorted(context.active_managers), sorted(live), 'registered managers')

            def use(name):
                """The manager works, and config files which use another are attributed to it."""
                pm, folder, conf = live[name]
                if 'runner' not in pm.__dict__:
                    pm.load()
                other = rng.choice(list(live))
                opm = live[other][0]
                if 'runner' not in opm.__dict__:
                    opm.load()
                if other == name:
                    return
                item = rng.choice(['sec.fa', 'sec2.in.fa', 'sp.s.one'])
                key = 'a' if item.endswith('fa') else 'c'
                v = f'v{rng.random()}'
                opm.update(section_path_str='sp.s.one', c=v)
                w.write(os.path.join(w.proj, folder, conf, *item.split('.')) + '.py',
                        ('name = "one"\n' if key == 'c' else 'b = 2\n') +
                        f'from pyfileconf import Selector\ns = Selector()\n{key} = s.{other}.sp.s.one.c\n')
                if item == 'sp.s.one' and name == other:
                    return
                pm.reload()
                w.R.calls.clear()
                pm.run(item)
                ctx.eq(w.R.calls[-1][1][key], v, f'{name}.{item} depending on {other}')
                deps = {d.path_str for d in context.config_dependencies.get(f'{other}.sp.s.one', ())}
                ctx.ev('dependencies_checked')
                ctx.check(f'{name}.{item}' in deps, f'{name}.{item} is not recorded to depend on {other}.sp.s.one: {deps}')
                ctx.check(all(d.split('.')[0] in live for d in deps), f'dependents which do not exist: {deps}')
                v2 = f'v{rng.random()}'
                opm.update(section_path_str='sp.s.one', c=v2)
                pm.run(item)
                ctx.eq(w.R.calls[-1][1][key], v2, f'{name}.{item} after updating {other}.sp.s.one')
                w.write(os.path.join(w.proj, folder, conf, *item.split('.')) + '.py',
                        'name = "one"\nc = 3\n' if key == 'c' else 'a = 1\nb = 2\n')
                pm.reload()
                for _, (p, _, _) in live.items():
                    if p is not pm and 'runner' in p.__dict__:
                        p.reload()
                context.config_dependencies.clear()
                context.force_update_dependencies.clear()

            def refused(what, make):
                before = dict(context.active_managers)
                mods = set(sys.modules)
                ctx.ev('refused_definitions')
                try:
                    got = make()
                except Exception:
                    pass
                else:
                    ctx.fail(f'{what} is not refused')
                after = dict(context.active_managers)
                ctx.check(set(sys.modules) == mods, f'{what}: modules left {set(sys.modules) - mods}')
                return before, after

            look()
            for _ in range(rng.randint(2, 5)):
                k = rng.randrange(6)
                name = rng.choice(list(live))
                if k == 0:
                    use(name)
                elif k == 1:
                    # replaced by another of the same name
                    free = [f for f in folders if f not in used] or [live[name][1]]
                    folder = rng.choice(free) if rng.random() < 0.7 else live[name][1]
                    old = live.pop(name)
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter('always')
                        new = create(name, folder)
                    ctx.check(any(name in str(x.message) for x in ws), f'no warning about repeating {name}')
                    live[name] = (new, folder, 'defaults')
                    used.add(folder)
                    ctx.ev('replaced_managers')
                    look()
                    new.load()
                    w.R.calls.clear()
                    new.run('sec.fa')
                    ctx.eq(len(w.R.calls), 1, 'calls of the successor')
                    if rng.random() < 0.4:
                        objs.append(old)
                    del old
                    gc.collect()
                    ctx.ev('collected')
                    ctx.check(context.active_managers.get(name) is new, f'{name} was removed with its predecessor')
                    v = getattr(getattr(Selector(), name).sec, 'fa')
                    ctx.check(v.item is new.get('sec.fa') or v.keywords == new.get('sec.fa').keywords,
                              'the Selector does not find the successor')
                elif k == 2:
                    nm = rng.choice([name, 'fresh'])
                    before, after = refused('both failure policies', lambda: create(
                        nm, 'refused', auto_pdb=True, force_continue=True))
                    ctx.check(before == after, f'refused manager {nm} changed the registry')
                elif k == 3:
                    w.write('proj/afile', 'text')
                    nm = rng.choice([name, 'fresh'])
                    before, after = refused('a folder which cannot be created', lambda: PipelineManager(
                        folder=os.path.join(w.proj, 'afile', 'in'), name=nm))
                    ctx.check(before == after, f'refused manager {nm} changed the registry')
                elif k == 4:
                    bad = rng.choice([
                        ('two class dicts of the same name', [confs[0], dict(confs[0])]),
                        ('a class dict without class', [{'name': 'sp'}]),
                        ('a class dict with no class', [{'name': 'sp', 'class': None}]),
                        ('a class dict without name', [{'class': funcs.Kl}]),
                        ('a class dict named like a section', [{'name': 'sec', 'class': funcs.Kl}])])

                    def make():
                        full = os.path.join(w.proj, 'bad')
                        w.write(os.path.join(full, 'pipeline_dict.py'), src)
                        for x in ('sp', 'sec'):
                            w.write(os.path.join(full, f'{x}_dict.py'), 'class_dict = {"s": ["one"]}\n')
                        PipelineManager(folder=full, name='bad', specific_class_config_dicts=bad[1]).load()
                    before, after = refused(bad[0], make)
                    if 'bad' in after:
                        # defined but could not be loaded: no harm to the others
                        Selector()
                        del context.active_managers['bad'], after['bad']
                    ctx.check(before == after, f'{bad[0]} changed the registry')
                    gc.collect()
                elif k == 5:
                    # explicitly forgotten
                    if len(live) > 1:
                        pm, folder, conf = live.pop(name)
                        del context.active_managers[name]
                        del pm
                        gc.collect()
                        ctx.ev('collected')
                look()
            for name in list(live):
                pm = live[name][0]
                if 'runner' not in pm.__dict__:
                    pm.load()
                w.R.calls.clear()
                pm.run(['sec.fa', 'sp.s.one'])
                ctx.eq([c[1] for c in w.R.calls], [dict(a=1, b=2), dict(name='one', c=3)], f'{name} at the end')
            live.clear()
            objs.clear()
            pm = new = opm = None
            context.reset()
            gc.collect()
        ctx.check(not [u for u in unraisable if "NotLoaded" not in u], f'errors while collecting managers: {unraisable}')
    finally:
        sys.unraisablehook = hook


def run_case(rng, ctx):
    if rng.random() < 0.4:
        return managers(rng, ctx)
    with World('c19') as w:
        Case(rng, ctx, w).go()
