"""C23: work with a project leaves what surrounds it alone, and does not accumulate."""
import gc
import importlib
import os
import sys
import types
from collections import deque

from pfcmon import core, gen, surround
from pfcmon.world import World

ID = 'C23'
RULE = ('a case runs the workload of another check, or repeats operations of a generated project, while the state of the '
        'process, the audit events of the library, the bindings of standard modules and the code objects of the user are '
        'watched; distinct by the workload and the operations which were watched')
ASSUMPTIONS = [
    'what the generated user code and the harness do themselves is not attributed to the library: an effect belongs to '
    'the library when the nearest frame outside of the standard library and installed packages is its own',
    'modules which are imported, bytecode caches and the log file which the options ask for may appear',
    'memory is judged by the objects the garbage collector tracks and what containers hold',
]
TECHNIQUE = ('runtime monitoring: audit event monitor with attribution by call stack, snapshots of the process around '
             'every operation, and a resource growth monitor, over the workloads of the other checks')
CASES = {'quick': 360, 'thorough': 6000}
REQUIRED = {'operations_watched': 1000, 'audit_events': 500, 'projects_watched': 150, 'user_code_objects_compared': 1000,
            'growth_windows': 60, 'operations_failed': 30}

WORKLOADS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15',
             'C16', 'C17', 'C18', 'C19', 'C20', 'C21']
PUBLIC = ['load', 'reload', 'run', 'run_product', 'run_product_gen', 'get', 'update', 'update_batch', 'refresh', 'reset',
          'create', '__getattr__', '__dir__', 'get_manager_by_filepath', 'get_manager_by_section_path_str']


class Watch:
    """Installed once in every worker."""

    def __init__(self):
        from pyfileconf import IterativeRunner, PipelineManager
        from pyfileconf.opts import options
        self.options = options
        self.ctx = None
        self.ops = []
        self.worlds = []
        self.folders = []
        self.given = []
        self.problems = []
        self.unraisable = []
        self.kinds = set()
        self.audit = surround.Audit()
        self.modules = surround.Modules()
        watch = self

        w_init, w_close = World.__init__, World.close

        def world_init(w, *a, **kw):
            was, watch.audit.on = watch.audit.on, False
            w_init(w, *a, **kw)
            watch.modules.roots.append(w.src + os.sep)
            watch.worlds.append((w, surround.process_state(), surround.bindings()))
            watch.audit.on = was

        def world_close(w):
            if watch.ctx is not None and any(x[0] is w for x in watch.worlds):
                watch.leave(w)
            w_close(w)

        World.__init__, World.close = world_init, world_close

        p_init = PipelineManager.__init__

        def init(pm, folder, name='project', specific_class_config_dicts=None, auto_pdb=False, force_continue=False,
                 default_config_folder_name='defaults'):
            if watch.ctx is not None:
                watch.folders.append((os.path.abspath(folder), default_config_folder_name))
                watch.given.append((specific_class_config_dicts, surround.arguments([specific_class_config_dicts], {})))
            return watch.around('__init__', p_init, (pm, folder, name, specific_class_config_dicts, auto_pdb,
                                                     force_continue, default_config_folder_name), {})
        PipelineManager.__init__ = init
        for n in PUBLIC:
            if isinstance(getattr(PipelineManager, n, None), types.FunctionType):
                self.wrap(PipelineManager, n)
        self.wrap(IterativeRunner, 'run')
        sys.unraisablehook = self.unraisable_hook

    def wrap(self, cls, name):
        f = getattr(cls, name)
        watch = self

        def op(*a, **kw):
            return watch.around(name, f, a, kw)
        op.__name__, op.__doc__ = name, f.__doc__
        setattr(cls, name, op)

    def around(self, name, f, a, kw):
        if self.ctx is None:
            return f(*a, **kw)
        outer = not self.ops
        if outer:
            before = surround.process_state()
            if self.options.log_folder is None:
                before['file descriptors'] = surround.descriptors()
        given = surround.arguments(a[1:], kw)
        self.ops.append(name)
        try:
            return f(*a, **kw)
        finally:
            self.ops.pop()
            if outer and not self.problems:
                after = surround.process_state()
                if 'file descriptors' in before:
                    after['file descriptors'] = surround.descriptors()
                self.ctx.ev('operations_watched')
                self.kinds.add(name)
                d = surround.difference(before, after)
                # plugins may change them in place
                if not any(w.plugins for w, *_ in self.worlds) and surround.arguments(a[1:], kw) != given:
                    self.problems.append(f'{name} changed the arguments it was given: now {a[1:]!r:.300} {kw!r:.300}')
                if d:
                    self.problems.append(f'{name} changed the {d[0]} of the process: {d[1]}')

    def unraisable_hook(self, u):
        tb, mine = u.exc_traceback, False
        while tb is not None:
            mine = mine or tb.tb_frame.f_code.co_filename.startswith(surround.LIB)
            tb = tb.tb_next
        if mine:
            self.unraisable.append(f'{type(u.exc_value).__name__}: {u.exc_value} in {u.object!r:.200}')

    # -- a case --------------------------------------------------------------------------------------------------------
    def start(self, ctx):
        self.ctx = ctx
        self.ops.clear()
        self.worlds.clear()
        self.folders.clear()
        self.given.clear()
        self.problems.clear()
        self.unraisable.clear()
        self.kinds.clear()
        self.modules.seen.clear()
        self.modules.roots.clear()
        self.audit.events.clear()
        self.audit.pre = None
        self.audit.on = True

    def leave(self, w):
        """A world is about to be closed."""
        i = [x[0] is w for x in self.worlds].index(True)
        _, state, bindings = self.worlds[i]
        self.audit.on = False
        try:
            self.ctx.ev('projects_watched')
            if len(self.worlds) == 1 and not self.problems:
                # the World itself changes this one for some workloads, the working directory is the harness's to change
                d = surround.difference(state, surround.process_state(), skip=('sys.dont_write_bytecode', 'sys.path', 'names of the script', 'random state'))
                if d:
                    self.problems.append(f'the {d[0]} of the process changed: {d[1]}')
            now = surround.bindings()
            for k, v in bindings.items():
                self.ctx.ev('bindings_compared', len(v))
                if now[k] != v:
                    names = [n for n in set(v) | set(now[k]) if v.get(n) != now[k].get(n)]
                    # names which appear are modules which were imported
                    names = [n for n in names if not isinstance(getattr(sys.modules.get(k), n, None), type(os))]
                    if names:
                        self.problems.append(f'{names} of {k} has been replaced')
            for confs, before in self.given:
                self.ctx.ev('class_descriptions_compared', len(confs or ()))
                if surround.arguments([confs], {}) != before:
                    self.problems.append(f'the dictionaries which describe specific classes changed, now {confs}')
            n, text = self.modules.changed()
            self.ctx.ev('user_code_objects_compared', n)
            if text:
                self.problems.append(f"the user's code changed: {text}")
            self.judge_audit()
        finally:
            self.audit.on = True

    def judge_audit(self):
        for event, paths, args, names, ops, log_folder in self.audit.events:
            self.ctx.ev('audit_events')
            op = ops[-1] if ops else ''
            if paths is None:
                self.problems.append(f'the library caused {event} {args} during {op or "no operation"} ({names[:3]})')
                continue
            for p in paths:
                self.ctx.ev(f'audited {event} during {op or "none"}')
                if '__pycache__' not in p and not self.allowed(event, p, op, log_folder):
                    self.problems.append(f'the library did {event} of {p} during {op or "no operation"} ({names[:3]})')
        self.audit.events.clear()

    def allowed(self, event, p, op, log_folder):
        if log_folder is not None:
            log_folder = os.path.abspath(log_folder)
            if p.startswith(log_folder + os.sep) or (event == 'os.mkdir' and (log_folder + os.sep).startswith(p + os.sep)):
                return True
        for folder, default in self.folders:
            inside = p.startswith(folder + os.sep)
            if op in ('load', 'reload', 'create') and os.path.dirname(p) in self.link_targets(folder):
                return True
            if op == '__init__' and (inside or (event == 'os.mkdir' and (folder + os.sep).startswith(p + os.sep))):
                return True
            if op in ('load', 'reload', 'create') and (p + os.sep).startswith(os.path.join(folder, default) + os.sep):
                return True
            if op == 'create' and inside and os.path.dirname(p) == folder:
                return True
        return False

    @staticmethod
    def link_targets(folder):
        """The folders of the files which links in the folder lead to"""
        return {os.path.dirname(os.path.realpath(os.path.join(d, f))) for d, _, fs in os.walk(folder)
                for f in fs if os.path.islink(os.path.join(d, f))}

    def finish(self):
        self.audit.on = False
        self.judge_audit()
        ctx, self.ctx = self.ctx, None
        self.worlds.clear()
        self.modules.seen.clear()
        gc.collect()
        ctx.ev('collections')
        if self.unraisable:
            ctx.fail(f'an exception of the library could not be raised: {self.unraisable[0]}')
        ctx.check(not self.problems, lambda: self.problems[0])


WATCH = []


def watching():
    if not WATCH:
        w = Watch()
        append = w.audit.events.append

        class Events(list):
            def append(self, x):
                list.append(self, x + (tuple(w.ops), w.options.log_folder))
        w.audit.events = Events()
        WATCH.append(w)
    return WATCH[0]


def run_case(rng, ctx):
    r = rng.random()
    if r < 0.15:
        return growth(rng, ctx)
    if r < 0.3:
        return faults(rng, ctx)
    w = watching()
    pid = rng.choice(WORKLOADS)
    seed, index = rng.randrange(1000), rng.randrange(10 ** 6)
    ctx.log('workload of', pid, 'seed', seed, 'index', index)
    inner = core.Ctx(ctx.tier)
    mod = importlib.import_module(f'pfcmon.checks.{pid.lower()}')
    todo, restore = surround.unusual(rng)
    ctx.log('unusual surroundings', todo)
    w.start(ctx)
    try:
        status, _, msg, _ = core._run_one(mod, seed, index, inner)
    finally:
        restore()
    ctx.lines += inner.lines
    ctx.ev(f'workload {pid} {status}')
    if core.FIRED:
        raise core.Inconclusive(msg)
    del _
    w.finish()
    ctx.case_key(pid, sorted(w.kinds), len(inner.lines) // 4)
    ctx.state(pid, sorted(w.kinds))
    ctx.sample = dict(workload=pid, operations=sorted(w.kinds))


# ------------------------------------------------------------------------------------------------------------------
# faults
# ------------------------------------------------------------------------------------------------------------------
BREAKS = ['', 'raise ValueError("planted")\n', 'this is not Python\n', 'import not_there_at_all\n', 'x = (\n',
          'raise KeyboardInterrupt\n', 'from m0 import not_there\n', None, None, None]


def faults(rng, ctx):
    """Operations which fail, while the process is watched, and the same ones after the cause has gone."""
    from pyfileconf import Selector, context
    watch = watching()
    todo, restore = surround.unusual(rng)
    ctx.log('unusual surroundings', todo)
    watch.start(ctx)
    planted = []
    try:
        with World('c23f') as w:
            pr = gen.project(rng)
            pm = pr.build(w, name='pm')
            paths = rng.sample(list(pr.items), min(len(pr.items), 3))
            files = [os.path.join(d, f) for top in (w.src, pm.folder) for d, _, fs in os.walk(top) for f in fs
                     if f.endswith('.py')]
            op_names = ['run', 'run', 'get', 'update', 'reset', 'refresh', 'reload', 'load', 'view', 'run_product', 'create']

            def forget():
                keep = {m: sys.modules[m] for x in pr.specifics for m in sys.modules
                        if x['klass'].module == m or x['klass'].module.startswith(m + '.')}
                w.forget_modules()
                sys.modules.update(keep)

            for _ in range(rng.randint(2, 5)):
                kind = rng.choice(['src', 'src', 'config', 'config', 'section', 'dict'])
                fs = [x for x in files if (kind == 'src') == x.startswith(w.src)
                      and (kind == 'section') == x.endswith('section.py') and (kind == 'dict') == x.endswith('_dict.py')]
                f = rng.choice(sorted(fs or files))
                text = w.read(f)
                bad = rng.choice(BREAKS)
                if bad is None:
                    os.remove(f)
                else:
                    w.write(f, bad + text if rng.random() < 0.5 else bad)
                ctx.log('break', f, repr(bad))
                planted.append(bad)
                if rng.random() < 0.8:
                    forget()
                for label in {x for x, _ in w.R.calls[-3:]}:
                    if rng.random() < 0.5:
                        w.R.fail[label] = rng.choice([ValueError('planted'), KeyboardInterrupt(), SystemExit(3)])
                for phase in 'broken', 'mended':
                    for op in rng.sample(op_names, rng.randint(2, 5)):
                        p = rng.choice(paths)
                        try:
                            if op in ('run', 'get', 'reset', 'refresh'):
                                getattr(pm, op)(p)
                            elif op == 'update':
                                pm.update({q: 3 for q in list(pr.items[p].base_config())[:1]}, section_path_str=p)
                            elif op == 'view':
                                x = Selector().pm
                                for part in p.split('.'):
                                    x = getattr(x, part)
                                x.type
                                x()
                            elif op == 'run_product':
                                pm.run_product([p], [dict(section_path_str=p, b=i) for i in range(2)])
                            elif op == 'create':
                                s = rng.choice(pr.specifics) if pr.specifics else None
                                if s is not None:
                                    pm.create(f'{s["name"]}.made.n{w.uid()}')
                            else:
                                getattr(pm, op)()
                            how = 'ok'
                        except core.Inconclusive:
                            raise
                        except BaseException as e:
                            if core.FIRED:
                                raise
                            how = type(e).__name__
                            ctx.ev('operations_failed')
                        ctx.log('  ', phase, op, p, how)
                        ctx.state('fault', phase, op, how)
                        ctx.ev(f'fault {op} {"ok" if how == "ok" else "failed"}')
                        ctx.check(context.currently_running_section_path_str is None
                                  and not context.file_is_currently_being_loaded and not len(list(context.stack)),
                                  f'after {op} of {p} ({how}) the context still has {context.stack}')
                    w.R.fail.clear()
                    if phase == 'broken':
                        w.write(f, text)
                        forget()
            pm = None
    finally:
        restore()
        watch.audit.on = False
    watch.finish()
    ctx.case_key('fault', planted, len(paths))
    ctx.sample = dict(workload='faults', planted=planted)


# ------------------------------------------------------------------------------------------------------------------
# growth
# ------------------------------------------------------------------------------------------------------------------
def size():
    gc.collect()
    gc.collect()
    objects = gc.get_objects()
    return (len(objects), sum(len(x) for x in objects if type(x) in (list, dict, set, deque)), len(sys.modules),
            len(surround.descriptors()))


def growth(rng, ctx):
    from pyfileconf import PipelineManager, Selector
    with World('c23') as w:
        pr = gen.project(rng)
        pm = pr.build(w, name='pm')
        kw = dict(folder=pm.folder, name='pm', specific_class_config_dicts=pm.specific_class_config_dicts,
                  default_config_folder_name=os.path.basename(pm.default_config_path))
        paths = rng.sample(list(pr.items), min(len(pr.items), 4))
        cur = [pm]

        def attempt(f, *a, **k):
            try:
                return f(*a, **k)
            except Exception:
                return None

        def sections(p):
            return [p.rsplit('.', n)[0] for n in range(1, p.count('.') + 1)]

        def run():
            for p in paths:
                attempt(cur[0].run, p)

        def run_sections():
            for p in paths:
                for q in sections(p):
                    attempt(cur[0].run, q)

        def get():
            for p in paths:
                attempt(cur[0].get, p)

        def change():
            for p in paths:
                for q in list(pr.items[p].base_config())[:2]:
                    attempt(cur[0].update, {q: 5}, section_path_str=p)
                attempt(cur[0].reset, p)

        def refresh():
            for p in paths:
                attempt(cur[0].refresh, p)

        def sweep():
            for p in paths:
                attempt(cur[0].run_product, [p], [dict(section_path_str=p, b=i) for i in range(2)])

        def look_up():
            s = Selector()
            dir(s)
            dir(cur[0])
            for p in paths:
                x = attempt(s.get_type, 'pm.' + p)
                x = s.pm
                for part in p.split('.'):
                    x = attempt(getattr, x, part)
                attempt(dir, x)
                attempt(getattr, x, 'nope')
                y = cur[0]
                for part in p.split('.'):
                    y = attempt(getattr, y, part)
                attempt(getattr, cur[0], 'nope')

        def failing():
            for p in paths:
                w.R.fail.clear()
                for label in {x for x, _ in w.R.calls[-3:]}:
                    w.R.fail[label] = ValueError('planted')
                attempt(cur[0].run, p)
            w.R.fail.clear()

        def reload():
            cur[0].reload()

        def replace():
            w.managers.clear()
            cur[0] = None
            cur[0] = PipelineManager(**kw)
            cur[0].load()
            get()

        all_ops = [run, run_sections, get, change, refresh, sweep, look_up, failing, reload, replace]
        ops = rng.sample(all_ops, rng.randint(1, 3))
        names = [f.__name__ for f in ops]
        ctx.log('growth of', paths, 'by', names)

        def rounds(n):
            for _ in range(n):
                for f in ops:
                    f()
                    del w.R.calls[:-3]
                    w.R.inits.clear()
        rounds(4)
        k = 5
        sizes = [size()]
        for _ in range(3):
            rounds(k)
            sizes.append(size())
            ctx.ev('growth_windows')
        for what, xs in zip(('tracked objects', 'elements of containers', 'modules', 'file descriptors'), zip(*sizes)):
            steps = [b - a for a, b in zip(xs, xs[1:])]
            ctx.ev(f'steady {what}', steps.count(0))
            ctx.check(min(steps) < k, lambda: f'repeating {names} {k} times makes the number of {what} grow by '
                                              f'{steps}, each time')
        ctx.case_key('growth', sorted(names), len(paths))
        ctx.state('growth', sorted(names))
        ctx.sample = dict(workload='growth', operations=names, sizes=sizes)
