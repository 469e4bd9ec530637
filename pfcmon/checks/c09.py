"""C09: the execution stack is balanced and attributes accesses correctly."""
import os
import sys

from pfcmon import gen
from pfcmon.checks.c08 import Net, Node, view, attrs
from pfcmon.checks.c03 import flatten
from pfcmon.model import fresh_src
from pfcmon.world import World

ID = 'C09'
RULE = ('Random programs over one to three managers: bodies of items run other items and sections, read and call items '
        'through the Selector, get, update, refresh and reset items and raise (ordinary exceptions, KeyError, '
        'KeyboardInterrupt) at any depth, config files refer to other items and raise as well, under the default '
        'policy, force_continue and auto_pdb; loads fail half way. The monitor keeps a shadow stack of the runs and '
        'file executions it is inside of and compares it with the context in every body, at the begin and end of '
        'every config file, in the debug function and after every operation at every depth; it also derives which '
        'dependencies had to and were allowed to be recorded. Non-trivial: frames nested at least twice; distinct '
        'by program.')
ASSUMPTIONS = ['calling an item through the Selector is not a run of its own: what it uses is attributed to the '
               'innermost item which is being run',
               'getting an item which was already loaded from its manager is not required to be recorded']
REQUIRED = {'snapshots_in_bodies': 500, 'snapshots_in_files': 500, 'after_operation': 1000, 'nested_runs': 100,
            'files_inside_runs': 100, 'raised': 100, 'caught_inside_runs': 30, 'edges_required': 300,
            'edge_sets_compared': 100, 'section_or_list_runs': 50, 'failed_loads': 10, 'debug_functions': 5,
            'depth_3': 50, 'runs_inside_files': 20}
CASES = {'quick': 900, 'thorough': 9000}


class Boom(ValueError):
    pass


class Entry:
    def __init__(self, kind, paths):
        self.kind, self.paths, self.i = kind, paths, 0


class Prog(Net):
    def __init__(self, rng, ctx, w):
        super().__init__(rng, ctx, w)
        self.shadow = []
        self.required, self.allowed = set(), set()
        self.fail_files = {}
        self.scripts = {}
        self.budget = 0
        self.error = None

    # -- monitor -----------------------------------------------------------------
    def want(self):
        out = []
        for e in self.shadow:
            if e.kind == 'file':
                out.append(('load_file_execute', e.paths[0]))
            elif e.kind == 'run':
                out.append(('run', e.paths[e.i] if e.i < len(e.paths) else '<none>'))
        return out

    def bad(self, msg):
        if self.error is None:
            self.error = msg
        self.ctx.fail(msg)

    def snapshot(self, where, ev):
        from pyfileconf import context
        got = [(f.action.value, f.section_path.path_str) for f in context.stack]
        want = self.want()
        self.ctx.ev(ev)
        if len(want) >= 3:
            self.ctx.ev('depth_3')
        if got != want:
            self.bad(f'{where}: the stack is {got}, specified {want}')
        runs = [p for k, p in want if k == 'run']
        files = [p for k, p in want if k != 'run']
        if context.currently_running_section_path_str != (runs[-1] if runs else None):
            self.bad(f'{where}: currently running is {context.currently_running_section_path_str}, specified {runs}')
        if bool(context.file_is_currently_being_loaded) != bool(files):
            self.bad(f'{where}: a file being loaded is {context.file_is_currently_being_loaded}, specified {files}')
        loading = context.stack.currently_loading_file_section_path
        if (loading.path_str if loading is not None else None) != (files[-1] if files else None):
            self.bad(f'{where}: currently loading is {loading}, specified {files}')
        self.ctx.state(want)

    def edge(self, full, required=True, selector=True):
        runs = [p for k, p in self.want() if k == 'run']
        files = [p for k, p in self.want() if k != 'run']
        for lst, req in ((runs, required), (files, required and selector)):
            if lst and lst[-1] != full:
                (self.required if req else self.allowed).add((lst[-1], full))
                if req:
                    self.ctx.ev('edges_required')

    def begin(self, full):
        if any(k == 'run' for k, _ in self.want()):
            self.ctx.ev('files_inside_runs')
        self.shadow.append(Entry('file', [full]))
        self.snapshot(f'begin of the config file of {full}', 'snapshots_in_files')
        for d in self.deps(self.by[full]):
            self.edge(d.full, required=False)
        if self.fail_files.get(full, 0) > 0:
            self.fail_files[full] -= 1
            self.ctx.ev('raised')
            raise Boom('file', full)
        return None

    def end(self, full):
        self.snapshot(f'end of the config file of {full}', 'snapshots_in_files')
        e = self.shadow.pop()
        if e.kind != 'file' or e.paths != [full]:
            self.bad(f'config file of {full} ended inside {e.kind} {e.paths}')

    def used(self, full, value):
        """Evaluated in a config file after an item was used there"""
        self.edge(full)
        return value

    def body(self, label):
        def run(kw):
            e = self.shadow[-1] if self.shadow else None
            if e is None or e.kind == 'file':
                self.bad(f'{label} was called from nowhere')
            full = e.paths[e.i]
            n = next((n for n in self.all if n.full == full), None)
            if n.item.run_label != label:
                self.bad(f'{label} was called while running {full}')
            self.snapshot(f'inside the body of {full} ({e.kind})', 'snapshots_in_bodies')
            if sum(1 for k, _ in self.want() if k == 'run') > 1:
                self.ctx.ev('nested_runs')
            self.perform(self.scripts.get(label, []), 1)
            self.snapshot(f'at the end of the body of {full}', 'snapshots_in_bodies')
            e.i += 1 if e.kind == 'run' else 0
            return ('done', label)
        return run

    # -- operations -----------------------------------------------------------------
    def op(self, what, fn, entry=None, catch=True):
        """Perform one operation; the stack must be as before afterwards, however it ends."""
        n0 = len(self.shadow)
        if entry is not None:
            self.shadow.append(entry)
        ok = False
        try:
            fn()
            ok = True
        except (Boom, KeyError, KeyboardInterrupt) as ex:
            if self.error is not None:
                raise
            if isinstance(ex, KeyError) and ex.args[:1] != ('boom',):
                raise
            del self.shadow[n0:]
            self.snapshot(f'after {what} raised {type(ex).__name__}', 'after_operation')
            if not catch:
                raise
            self.ctx.ev('caught_inside_runs' if self.shadow else 'caught_at_top')
        if ok:
            del self.shadow[n0:]
            self.snapshot(f'after {what}', 'after_operation')
        return ok

    def perform(self, script, depth):
        for act, target, extra, catch in script:
            if self.budget <= 0:
                return
            self.budget -= 1
            if act == 'raise':
                self.ctx.ev('raised')
                raise extra
            pm = self.pms[target.mgr] if isinstance(target, Node) else None
            if act == 'run':
                self.do_run([target], lambda: pm.run(target.path), f'run of {target.full}', catch)
            elif act == 'runview':
                self.do_run([target], lambda: pm.run(view(target)), f'run of view {target.full}', catch)
            elif act == 'runlist':
                pm = self.pms[target[0].mgr]
                self.ctx.ev('section_or_list_runs')
                self.do_run(target, lambda: pm.run([t.path for t in target]), f'run of {[t.full for t in target]}',
                            catch)
            elif act == 'runsection':
                pm = self.pms[target[0].mgr]
                self.ctx.ev('section_or_list_runs')
                self.do_run(target, lambda: pm.run(extra), f'run of section {extra}', catch)
            elif act == 'attr':
                self.edge(target.full, required=False)
                if self.op(f'attribute of {target.full}', lambda: read(target), catch=catch):
                    self.edge(target.full)
            elif act == 'vcall':
                e = Entry('call', [target.full])
                self.edge(target.full, required=False)
                if self.op(f'call of {target.full} through the Selector', lambda: view(target)(), e, catch):
                    self.edge(target.full)
            elif act == 'get':
                self.edge(target.full, required=False)
                self.op(f'get of {target.full}', lambda: pm.get(target.path), catch=catch)
            elif act == 'update':
                self.op(f'update of {target.full}', lambda: pm.update(dict(extra), section_path_str=target.path),
                        catch=catch)
            elif act == 'refresh':
                self.op(f'refresh of {target.full}', lambda: pm.refresh(target.path), catch=catch)
            elif act == 'reset':
                self.op(f'reset of {target.full}', lambda: pm.reset(target.path), catch=catch)

    def do_run(self, targets, fn, what, catch):
        e = Entry('run', [t.full for t in targets])
        if any(k != 'run' for k, _ in self.want()):
            self.ctx.ev('runs_inside_files')
        for t in targets:
            self.edge(t.full, required=False)
        ok = self.op(what, fn, e, catch)
        # the items which completed have been used by whatever was running outside
        for t in targets[:e.i]:
            self.edge(t.full, selector=False)
        if ok and self.policy == 'default' and e.i != len(targets):
            self.bad(f'{what} executed {e.i} items')

    # -- sources ---------------------------------------------------------------------
    def src(self, e, pre, i):
        s = super().src(e, pre, i)
        if e[0] == 'attr':
            return f'vrec.used({e[1].full!r}, {s})'
        if e[0] == 'call':
            return f'vrec.used({e[1].full!r}, vrec.calling({e[1].full!r}, lambda: {s}))'
        return s

    def calling(self, full, fn):
        self.edge(full, required=False)
        self.shadow.append(Entry('call', [full]))
        out = fn()
        self.shadow.pop()
        return out

    def text(self, n):
        t = super().text(n)
        head, _, rest = t.partition('s = Selector()\n')
        return f'{head}s = Selector()\nbegin_ = vrec.begin({n.full!r})\n{rest}end_ = vrec.end({n.full!r})\n'


def read(n):
    v = view(n)
    if n.item.target.kind == 'func':
        return v.keywords
    return n.item.target.read(v, next(iter(n.exprs)))


def make_script(rng, p, lower, anyone, length, sections):
    out = []
    for _ in range(length):
        catch = rng.random() < 0.6
        act = rng.choice(['run', 'run', 'attr', 'attr', 'vcall', 'get', 'update', 'refresh', 'reset', 'raise', 'raise',
                          'runlist', 'runsection', 'runview'])
        if act == 'raise':
            if rng.random() < 0.5 and p.policy == 'default':
                out.append((act, None, rng.choice([KeyError('boom'), KeyboardInterrupt(), Boom('x')]), catch))
            elif rng.random() < 0.5:
                out.append((act, None, Boom('x'), catch))
        elif act in ('run', 'vcall', 'runview'):
            c = [n for n in lower if act != 'vcall' or n.item.target.kind == 'func' or n.item.specific]
            if c:
                out.append((act, rng.choice(c), None, catch))
        elif act == 'runlist':
            m = rng.choice(p.names)
            c = [n for n in lower if n.mgr == m]
            if c and p.policy == 'default':
                out.append((act, rng.sample(c, rng.randint(1, min(3, len(c)))), None, catch))
        elif act == 'runsection':
            c = [s for s in sections if all(t in lower for t in s[1])]
            if c and p.policy == 'default':
                m, targets, path = (lambda s: (s[0], s[1], s[2]))(rng.choice(c))
                out.append((act, targets, path, catch))
        elif act == 'update':
            n = rng.choice(anyone)
            if n.free():
                out.append((act, n, {rng.choice(n.free()): eval(fresh_src(rng))}, catch))
        elif act == 'attr':
            c = [n for n in anyone if n.exprs]
            if c:
                out.append((act, rng.choice(c), None, catch))
        else:
            out.append((act, rng.choice(anyone), None, catch))
    return out


def run_case(rng, ctx):
    with World('c09') as w:
        p = Prog(rng, ctx, w)
        p.names = rng.choice([['pm'], ['pm', 'pm2'], ['a', 'ab']])
        p.policy = rng.choice(['default', 'default', 'default', 'force_continue', 'auto_pdb'])
        p.pms, prs = {}, {}
        nodes = []
        for i, nm in enumerate(p.names):
            prs[nm] = gen.project(rng, simple=True, max_sections=2, share_p=0.3, tag=f't{i}')
            nodes += [(nm, q, it) for q, it in prs[nm].items.items()]
        rng.shuffle(nodes)
        p.nodes = p.all = [Node(i, *x) for i, x in enumerate(nodes)]
        by = p.by = {n.full: n for n in p.nodes}
        first, last = {}, {}
        for n in p.nodes:
            first.setdefault(n.item.run_label, n.idx)
            last[n.item.run_label] = n.idx
        p.freely = {label for label in first if rng.random() < 0.6}
        mod = sys.modules['vrec']
        mod.begin, mod.end, mod.used, mod.calling = p.begin, p.end, p.used, p.calling
        mod.tick = lambda name, v: v

        def debug(*_):
            ctx.ev('debug_functions')
            # the run which raised is over: its frame, and those of everything inside of it, are gone
            i = max(i for i, e in enumerate(p.shadow) if e.kind == 'run')
            saved, p.shadow = p.shadow, p.shadow[:i]
            p.snapshot('in the debug function', 'after_operation')
            p.shadow = saved

        kw = {'default': {}, 'force_continue': dict(force_continue=True), 'auto_pdb': dict(auto_pdb=debug)}[p.policy]
        for nm in p.names:
            p.pms[nm] = prs[nm].build(w, name=nm, **kw)
        for label in first:
            w.R.hooks[label] = p.body(label)
        depends = rng.choice([0.2, 0.5])
        for n in p.nodes:
            n.exprs = p.random_exprs(n, depends)
            w.write(os.path.join(w.folder(n.mgr), 'defaults', n.item.rel_file), p.text(n))
            ctx.log(n.full, {k: Net.src(p, e, [], 0) for k, e in n.exprs.items()})
        sections = []
        for nm in p.names:
            for s in prs[nm].sections:
                sections.append((nm, [by[f'{nm}.{q}'] for q in flatten(prs[nm].shape(s))], s))
        for label in first:
            lower = [n for n in p.nodes if n.idx < first[label] and last[n.item.run_label] < first[label]]
            if label in p.freely:
                p.scripts[label] = make_script(rng, p, lower, p.nodes, rng.randint(0, 6), sections)
            else:
                c = [n for n in p.nodes if n.idx < first[label] and n.exprs]
                p.scripts[label] = [('attr', rng.choice(c), None, False) for _ in range(rng.randint(0, 2)) if c]
                c = [n for n in lower if n.item.run_label not in p.freely]
                if c and rng.random() < 0.4:
                    # config files calling this item run others
                    i = rng.randint(0, len(p.scripts[label]))
                    p.scripts[label].insert(i, (rng.choice(['run', 'runview']), rng.choice(c), None, False))
            ctx.log(label, [(a, getattr(t, 'full', t), e, c) for a, t, e, c in p.scripts[label]])
        top = make_script(rng, p, p.nodes, p.nodes, rng.randint(6, 12), sections)
        top = [(a, t, e, True) for a, t, e, _ in top if a != 'raise']
        for step in top:
            p.budget = 40
            ctx.log(step[0], getattr(step[1], 'full', step[1]), step[2])
            if rng.random() < 0.3 and p.policy == 'default':
                n = rng.choice(p.nodes)
                p.fail_files[n.full] = rng.randint(1, 2)
                ctx.log('next execution of the config file raises:', n.full)
            p.perform([step], 0)
            p.fail_files.clear()
            if p.error:
                ctx.fail(p.error)
            check_edges(p)
            if rng.random() < 0.1:
                failed_load(p, prs, rng)
        ctx.case_key([(a, getattr(t, 'full', str(t))) for a, t, e, c in top],
                     [[(a, getattr(t, 'full', str(t))) for a, t, e, c in s] for s in p.scripts.values()])
        ctx.sample = {'top': [(a, getattr(t, 'full', str(t))) for a, t, e, c in top],
                      'scripts': {k: [(a, getattr(t, 'full', str(t))) for a, t, e, c in s]
                                  for k, s in p.scripts.items()}}


def check_edges(p):
    from pyfileconf import context
    got = {(d.path_str, on) for on, ds in context.force_update_dependencies.items() for d in ds}
    p.ctx.ev('edge_sets_compared')
    missing = p.required - got
    if missing:
        p.ctx.fail(f'not recorded (dependent, used item): {sorted(missing)}')
    extra = got - p.required - p.allowed
    if extra:
        p.ctx.fail(f'recorded although nothing used them so (dependent, used item): {sorted(extra)}')


def failed_load(p, prs, rng):
    nm = rng.choice(p.names)
    pm = p.pms[nm]
    n = rng.choice([n for n in p.nodes if n.mgr == nm])
    path = os.path.join(p.w.folder(nm), 'defaults', n.item.rel_file)
    kind = rng.randrange(3)
    if kind == 1:
        path = os.path.join(os.path.dirname(path), 'section.py')
    elif kind == 2:
        path = pm.pipeline_dict_path
    old = p.w.read(path) if os.path.exists(path) else None
    p.w.write(path, 'this is (not python\n' if kind != 1 else 'x = 1 / 0\n')
    p.ctx.log('failing reload', nm, path)
    try:
        pm.reload()
    except Exception as e:
        p.ctx.log('raised', type(e).__name__)
        p.ctx.ev('failed_loads')
    else:
        p.ctx.ev('failed_loads_which_did_not_fail')
    p.snapshot('after a load which failed', 'after_operation')
    if old is None:
        os.remove(path)
    else:
        p.w.write(path, old)
    pm.reload()
    p.snapshot('after reload', 'after_operation')
