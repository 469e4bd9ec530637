"""C08: a change reaches every config which depends on it, transitively."""
import os
import sys

from pfcmon import gen
from pfcmon.checks.c03 import spec_sections
from pfcmon.model import fresh_src, fresh_value
from pfcmon.util import same
from pfcmon.world import World

ID = 'C08'
RULE = ('Networks of items over one to three managers whose config files hold expressions of the Selector: attributes '
        'of class items, keywords of functions, calls of functions whose result depends on their configuration and on '
        'what they read themselves, wrapped in containers and helper names; chains, diamonds, several edges between '
        'the same items, and (through running functions) cycles. Random histories of updates, temporary updates, '
        'resets, refreshes, edits of files with refresh, batch updates and uses. A model evaluates the network; after '
        'every operation every item which was ever loaded is compared with it, through the object held since it was '
        'loaded and through its config, whether it depends on the target or not. Executions of config files are '
        'counted to bound propagation. Non-trivial: a change reaching a dependent; distinct by network and operations.')
ASSUMPTIONS = ['the dependencies of config files are acyclic',
               'temporary updates (not persistent) are made only to items which depend on nothing',
               'items which are run by their manager (instead of used through the Selector) in what a config file calls '
               'are not changed themselves, but what they read is',
               'section.py files hold constants (see known finding)',
               'a file which was edited is refreshed before anything else happens']
REQUIRED = {'dependents_changed': 200, 'cross_manager_dependents_changed': 30, 'chain_dependents_changed': 50,
            'diamonds': 10, 'unrelated_compared': 200, 'persisted_dependents': 20, 'resets': 50, 'refreshes': 50,
            'edits': 30, 'config_file_executions': 2000, 'held_objects_compared': 500, 'calls_in_config_files': 30,
            'runtime_cycles': 5}
CASES = {'quick': 500, 'thorough': 8000}
MAX_EXECUTIONS = 60000


class Node:
    def __init__(self, idx, mgr, path, item):
        self.idx, self.mgr, self.path, self.item = idx, mgr, path, item
        self.full = f'{mgr}.{path}'
        self.exprs = {k: ('const', repr(v)) for k, v in item.base_config().items()}
        self.ever_depended = False
        self.fixed = False      # run by the bodies of others, never changed
        self.overlay = {}
        self.persisted, self.temp = {}, {}
        self.touched = self.loaded = False
        self.held = None

    def free(self):
        key = self.item.specific['key_attr'] if self.item.specific else None
        return [k for k in self.exprs if k != key and k not in self.overlay]


def deps_of_expr(e):
    if e[0] in ('attr', 'call'):
        return {e[1]}
    if e[0] == 'wrap':
        return deps_of_expr(e[2])
    return set()


class Net:
    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        self.nodes = []
        self.reads = {}      # label -> list of (node, key) read by the body of the callable
        self.runs = {}       # label -> item run by the body of the callable
        self.ticks = 0
        self.inside = None   # (label, update made by the body of that callable, before it reads?)

    # -- the specification -----------------------------------------------------
    def conf(self, n, memo=None):
        memo = {} if memo is None else memo
        if n.idx not in memo:
            out = {k: self.value(e, memo) for k, e in n.exprs.items()}
            out.update(n.persisted)
            out.update(n.temp)
            out.update(n.overlay)
            memo[n.idx] = out
        return memo[n.idx]

    def value(self, e, memo):
        if e[0] == 'const':
            return eval(e[1])
        if e[0] == 'attr':
            return self.conf(e[1], memo)[e[2]]
        if e[0] == 'call':
            return self.result(e[1], memo)
        v = self.value(e[2], memo)
        return {'list': lambda: [v, 1], 'str': lambda: str(v), 'tuple': lambda: (v,), 'dict': lambda: {'of': v},
                'helper': lambda: v, 'view': lambda: v, 'cond': lambda: v}[e[1]]()

    def result(self, n, memo):
        kw = self.conf(n, memo)
        label = n.item.run_label
        return ('result', label, sorted((k, repr(v)) for k, v in kw.items()),
                [repr(self.conf(m, memo)[k]) for m, k in self.reads.get(label, [])]
                + ([repr(self.result(self.runs[label], memo))] if label in self.runs else []))

    def read_by(self, label):
        """Items read by the body of a callable, and by those it runs."""
        out = {m for m, _ in self.reads.get(label, [])}
        if label in self.runs:
            out |= self.read_by(self.runs[label].item.run_label)
        return out

    # -- sources ---------------------------------------------------------------
    def sel(self, n, style):
        if style == 1:
            return f's({n.full!r})'
        return f's.{n.full}'

    def src(self, e, pre, i):
        if e[0] == 'const':
            return e[1]
        if e[0] == 'attr':
            n, k, style = e[1], e[2], e[3]
            base = self.sel(n, style)
            if style == 2:
                pre.append(f'view_{i} = {base}')
                base = f'view_{i}'
            return f'{base}.keywords[{k!r}]' if n.item.target.kind == 'func' else f'{base}.{n.item.target.ref(k)}'
        if e[0] == 'call':
            return self.sel(e[1], e[2]) + '()'
        inner = self.src(e[2], pre, i)
        if e[1] == 'helper':
            pre.append(f'helper_{i} = {inner}')
            return f'helper_{i}'
        return {'list': f'[{inner}, 1]', 'str': f'str({inner})', 'tuple': f'({inner},)', 'dict': f'{{"of": {inner}}}',
                'view': inner, 'cond': f'{inner} if s is not None else None'}[e[1]]

    def text(self, n):
        lines = ['import vrec', 'from pyfileconf import Selector', 's = Selector()']
        keys = list(n.exprs)
        if self.rng.random() < 0.3:
            self.rng.shuffle(keys)
        for i, k in enumerate(keys):
            pre = []
            src = self.src(n.exprs[k], pre, i)
            lines += pre
            lines.append(f'{k} = vrec.tick({n.full!r}, {src})' if i == 0 else f'{k} = {src}')
        return '\n'.join(lines) + '\n'

    def random_exprs(self, n, p):
        rng = self.rng
        key = n.item.specific['key_attr'] if n.item.specific else None
        lower = [m for m in self.nodes if m.idx < n.idx]
        out = {}
        for k in n.exprs:
            if k == key or not lower or rng.random() > p:
                out[k] = n.exprs[k] if k == key else ('const', fresh_src(rng))
                continue
            # favour recent ones (chains) and popular ones (diamonds)
            m = rng.choice(lower[-2:] if rng.random() < 0.5 else lower)
            callable_ = m.item.target.kind == 'func' or m.item.specific is not None
            if callable_ and m.item.run_label not in self.freely and rng.random() < 0.35:
                e = ('call', m, rng.randrange(2))
                self.ctx.ev('calls_in_config_files')
            elif m.exprs:
                e = ('attr', m, rng.choice(list(m.exprs)), rng.randrange(3))
            else:
                out[k] = ('const', fresh_src(rng))
                continue
            while rng.random() < 0.3:
                e = ('wrap', rng.choice(['list', 'str', 'tuple', 'dict', 'helper', 'cond']), e)
            out[k] = e
        return out

    # -- graph facts for the evidence -------------------------------------------
    def deps(self, n):
        out = set()
        for e in n.exprs.values():
            for d in deps_of_expr(e):
                out.add(d)
                if e[0] == 'call' or 'call' in repr(e[:2]):
                    pass
        for e in n.exprs.values():
            x = e
            while x[0] == 'wrap':
                x = x[2]
            if x[0] == 'call':
                out |= self.read_by(x[1].item.run_label)
        return out

    def trans(self, n):
        out, todo = set(), list(self.deps(n))
        while todo:
            m = todo.pop()
            if m not in out:
                out.add(m)
                todo += self.deps(m)
        return out

    # -- touching -----------------------------------------------------------------
    def touch(self, n):
        if n.touched:
            return
        n.touched = True
        for m in self.deps(n):
            self.use(m)

    def use(self, n):
        self.touch(n)
        n.loaded = True

    def ran(self, n):
        self.use(n)
        label = n.item.run_label
        for m, _ in self.reads.get(label, []):
            self.use(m)
        if label in self.runs:
            self.ran(self.runs[label])


def build(rng, ctx, w):
    net = Net(rng, ctx, w)
    names = rng.choice([['pm'], ['pm', 'pm2'], ['a', 'ab'], ['pm', 'pm2', 'other']])
    prs = {}
    shared = gen.project(rng, simple=True, max_sections=2, share_p=0.4) if rng.random() < 0.3 else None
    nodes = []
    for i, nm in enumerate(names):
        pr = shared or gen.project(rng, simple=True, max_sections=2, share_p=0.4, tag=f't{i}', n_modules=2)
        prs[nm] = pr
        items = list(pr.items.items())
        rng.shuffle(items)
        nodes += [(nm, p, it) for p, it in items[:rng.randint(3, 6)]]
    rng.shuffle(nodes)
    nodes = nodes[:9]
    net.nodes = [Node(i, *x) for i, x in enumerate(nodes)]
    first = {}
    for n in net.nodes:
        first.setdefault(n.item.run_label, n.idx)
    # which callables read other items in their body; `freely` ones may read anything and
    # are never called by config files
    net.freely = set()
    for label, idx in first.items():
        r = rng.random()
        if r < 0.15:
            pool = [n for n in net.nodes if n.idx < idx and n.exprs]
        elif r < 0.4:
            net.freely.add(label)
            pool = [n for n in net.nodes if n.exprs and n.item.run_label != label]
        else:
            pool = []
        if pool:
            net.reads[label] = [(m, rng.choice(list(m.exprs)))
                                for m in rng.sample(pool, min(len(pool), rng.randint(1, 2)))]
        ran = [n for n in net.nodes if n.idx < idx and n.item.run_label not in net.freely
               and (n.item.target.kind == 'func' or n.item.specific)]
        ran = [n for n in ran if n.item.run_label in net.reads or n.item.run_label in net.runs] or ran
        if ran and rng.random() < 0.3:
            # (nothing is specified for who called it when what an item was run for is changed)
            net.runs[label] = rng.choice(ran)
            net.runs[label].fixed = True
    for a in net.reads:
        for b in net.reads:
            if a < b and any(m.item.run_label == b for m, _ in net.reads[a]) and any(
                    m.item.run_label == a for m, _ in net.reads[b]):
                ctx.ev('runtime_cycles')

    from pyfileconf import context
    pms = {}

    def hook(label):
        def run(kw):
            from pyfileconf import Selector
            s = Selector()
            seen = []
            inside = net.inside if net.inside and net.inside[0] == label else None
            if inside:
                net.inside = None
                if inside[1]:
                    inside[2]()
            for m, k in net.reads.get(label, []):
                o = s
                for part in m.full.split('.'):
                    o = getattr(o, part)
                seen.append(repr(o.keywords[k] if m.item.target.kind == 'func' else m.item.target.read(o, k)))
            if label in net.runs:
                m = net.runs[label]
                seen.append(repr(pms[m.mgr].run(m.path)))
                ctx.ev('runs_within_runs' if len(context.stack.frames) and
                       not context.file_is_currently_being_loaded else 'runs_within_config_files')
            if inside and not inside[1]:
                inside[2]()
            return ('result', label, sorted((k, repr(v)) for k, v in kw.items()), seen)
        return run

    for label in first:
        w.R.hooks[label] = hook(label)

    def tick(name, value):
        net.ticks += 1
        ctx.ev('config_file_executions')
        if net.ticks > MAX_EXECUTIONS:
            ctx.fail(f'propagation does not terminate: {net.ticks} executions of config files in one operation')
        return value

    sys.modules['vrec'].tick = tick
    for nm in names:
        pms[nm] = prs[nm].build(w, name=nm)
    # constants in sections
    p_dep = rng.choice([0.3, 0.5, 0.8])
    if rng.random() < 0.3:
        for nm in names:
            for sec in [''] + prs[nm].sections + spec_sections(prs[nm]):
                if rng.random() < 0.3:
                    ks = sorted({k for n in net.nodes if n.mgr == nm and (not sec or n.path.startswith(sec + '.'))
                                 for k in n.exprs} - {'name', 'key_id'})
                    if not ks:
                        continue
                    vals = {k: fresh_src(rng) for k in rng.sample(ks, 1)}
                    w.write(os.path.join(w.folder(nm), 'defaults', *(sec.split('.') if sec else []), 'section.py'),
                            ''.join(f'{k} = {v}\n' for k, v in vals.items()))
                    for n in net.nodes:
                        if n.mgr == nm and (not sec or n.path.startswith(sec + '.')):
                            n.overlay.update({k: eval(v) for k, v in vals.items() if k in n.exprs})
                    ctx.ev('section_files')
    for n in net.nodes:
        if rng.random() < 0.9 and not n.fixed:
            n.exprs = net.random_exprs(n, p_dep)
            write(net, n)
    if ctx.events['section_files'] or rng.random() < 0.4:
        for nm in names:
            pms[nm].reload()
    for n in net.nodes:
        if len(net.deps(n)) > 1:
            ds = list(net.deps(n))
            if any((net.trans(a) | {a}) & (net.trans(b) | {b}) for a in ds for b in ds if a is not b):
                ctx.ev('diamonds')
    return net, pms


def write(net, n):
    if net.deps(n):
        n.ever_depended = True
    net.w.write(os.path.join(net.w.folder(n.mgr), 'defaults', n.item.rel_file), net.text(n))


def view(n):
    from pyfileconf import Selector
    v = Selector()
    for part in n.full.split('.'):
        v = getattr(v, part)
    return v


def attrs(n, obj):
    if n.item.target.kind == 'func':
        return dict(obj.keywords)
    return {p.name: n.item.target.read(obj, p.name) for p in n.item.target.params}


def observe(net, pms, n, how, why):
    ctx = net.ctx
    pm = pms[n.mgr]
    want = net.conf(n)
    what = f'{why}: {n.full} seen by {how}'
    if how == 'config':
        c = pm.config.get(n.path)
        net.touch(n)
        ctx.eq({k: c[k] for k in n.exprs}, want, what, ev='observations')
    elif how == 'run':
        res = pm.run(n.path)
        net.ran(n)
        ctx.eq(res, net.result(n, {}), what, ev='observations')
    else:
        obj = pm.get(n.path) if how == 'get' else view(n)
        ctx.eq(attrs(n, obj), want, what, ev='observations')
        net.use(n)
    if n.loaded and n.held is None:
        n.held = pm.get(n.path)


def compare_all(net, pms, before, target, why):
    """Every item which was ever loaded, dependent or not, must be as the network evaluates."""
    ctx = net.ctx
    memo = {}
    for n in net.nodes:
        if not n.touched:
            continue
        want = net.conf(n, memo)
        if n.held is not None:
            ctx.eq(attrs(n, n.held), want, f'{why}: held object of {n.full} (files depend: {names(net.trans(n))})',
                   ev='held_objects_compared')
        c = pms[n.mgr].config.get(n.path)
        ctx.eq({k: c[k] for k in n.exprs}, want, f'{why}: config of {n.full} (files depend: {names(net.trans(n))})',
               ev='configs_compared')
        if before is not None and n is not target:
            changed = not same(before.get(n.idx), want)
            if changed:
                ctx.ev('dependents_changed')
                if n.mgr != target.mgr:
                    ctx.ev('cross_manager_dependents_changed')
                if target not in net.deps(n):
                    ctx.ev('chain_dependents_changed')
                if n.persisted:
                    ctx.ev('persisted_dependents')
            else:
                ctx.ev('unrelated_compared')


def names(ns):
    return sorted(n.full for n in ns)


def called(e):
    return called(e[2]) if e[0] == 'wrap' else {e[1].item.run_label} if e[0] == 'call' else set()


def update_inside(net, pms, n, hist, before):
    """Run an item whose body updates n, which the item itself may depend on."""
    rng, ctx = net.rng, net.ctx
    # (the update must be made by the item itself, not by one of the same callable which its config file runs)
    used = {x for m in net.nodes for e in m.exprs.values() for x in called(e)}
    used |= {m.item.run_label for m in net.runs.values()}
    # (an item whose body updates another one is refreshed with it, and loses what is temporary)
    runnable = [m for m in net.nodes if m.item.run_label not in used and not m.temp]
    dependents = [m for m in runnable if n in net.trans(m)]
    if not runnable or not n.free():
        return False
    x = rng.choice(dependents) if dependents and rng.random() < 0.8 else rng.choice(runnable)
    d = {k: eval(fresh_src(rng)) for k in rng.sample(n.free(), rng.randint(1, min(2, len(n.free()))))}
    first = rng.random() < 0.5
    ctx.log('run', x.full, 'which updates', n.full, d, 'before' if first else 'after', 'reading')
    hist.append(('run', x.full, 'updating', n.full, sorted(d), first, n))
    kw = net.conf(x)
    label = x.item.run_label
    reads = [] if first else net.result(x, {})[3]

    def update():
        pms[n.mgr].update(d, section_path_str=n.path)
    net.inside = (label, first, update)
    x.ever_depended = True
    res = pms[x.mgr].run(x.path)
    ctx.check(net.inside is None, f'{x.full} did not run')
    net.ran(x)
    net.touch(n)
    n.persisted.update(d)
    for k in d:
        n.temp.pop(k, None)
    if first:
        reads = net.result(x, {})[3]
    ctx.eq(res, ('result', label, sorted((k, repr(v)) for k, v in kw.items()), reads),
           f'result of {x.full} which updates {n.full} itself', ev='observations')
    if n in net.trans(x):
        ctx.ev('dependencies_updated_by_running_items')
    if x.held is None:
        x.held = pms[x.mgr].get(x.path)
    return True


def run_case(rng, ctx):
    with World('c08') as w:
        net, pms = build(rng, ctx, w)
        for n in net.nodes:
            ctx.log(n.full, n.item.target.kind, {k: net.src(e, [], 0) for k, e in n.exprs.items()}, n.overlay or '')
        ctx.log('reads', {k: [(m.full, q) for m, q in v] for k, v in net.reads.items()})
        hist = []
        compare_all(net, pms, None, None, 'at the start')
        for step in range(rng.randint(5, 14)):
            net.ticks = 0
            n = rng.choice([m for m in net.nodes if not m.fixed])
            touched = [m for m in net.nodes if m.touched]
            popular = [m for m in touched if not m.fixed and any(m in net.trans(k) for k in touched)]
            if popular and rng.random() < 0.6:
                n = rng.choice(popular)
            r = rng.random()
            before = {m.idx: net.conf(m) for m in net.nodes if m.touched}
            if r < 0.08 and touched:
                if not update_inside(net, pms, n, hist, before):
                    continue
                compare_all(net, pms, before, hist[-1][-1], f'step {step}: after an update made by a running item')
                continue
            if r < 0.3 or not touched:
                how = rng.choice(['get', 'run', 'config', 'view', 'get', 'run'])
                ctx.log('observe', n.full, how)
                hist.append(('observe', n.full, how))
                observe(net, pms, n, how, f'step {step}')
                compare_all(net, pms, before, n, f'step {step}: after using {n.full}')
                continue
            if r < 0.65:
                free = n.free()
                if not free:
                    continue
                d = {k: eval(fresh_src(rng)) for k in rng.sample(free, rng.randint(1, min(2, len(free))))}
                temp = (not n.ever_depended and n.item.run_label not in net.reads and rng.random() < 0.3)
                ctx.log('update', n.full, d, 'temporary' if temp else '')
                hist.append(('update', n.full, sorted(d), temp))
                if temp:
                    ctx.ev('temporary_updates')
                    pms[n.mgr].update(d, section_path_str=n.path, pyfileconf_persist=False)
                    n.temp.update(d)
                else:
                    n.persisted.update(d)
                    for k in d:
                        n.temp.pop(k, None)
                    how = rng.randrange(4)
                    if how == 0:
                        for k, v in d.items():
                            setattr(view(n), k, v)
                            net.use(n) if False else None
                    elif how == 1:
                        from pyfileconf import BatchUpdater
                        BatchUpdater().update([dict(section_path_str=n.full, **d)])
                    elif how == 2:
                        pms[n.mgr].update(section_path_str=n.path, **d)
                    else:
                        pms[n.mgr].update(d, n.path)
                ctx.ev('updates')
                net.touch(n)
            elif r < 0.78:
                ctx.log('reset', n.full)
                hist.append(('reset', n.full))
                ctx.ev('resets')
                pms[n.mgr].reset(n.path if rng.random() < 0.7 else view(n))
                n.persisted, n.temp = {}, {}
                net.touch(n)
            elif r < 0.88:
                ctx.log('refresh', n.full)
                hist.append(('refresh', n.full))
                ctx.ev('refreshes')
                pms[n.mgr].refresh(n.path)
                n.temp = {}
                net.touch(n)
            else:
                if not n.touched:
                    net.touch(n)
                    pms[n.mgr].config.get(n.path)
                n.exprs = net.random_exprs(n, rng.choice([0, 0.5, 0.8]))
                if net.deps(n):
                    n.temp = {}
                write(net, n)
                ctx.log('edit', n.full, {k: net.src(e, [], 0) for k, e in n.exprs.items()})
                hist.append(('edit', n.full))
                ctx.ev('edits')
                if rng.random() < 0.8:
                    pms[n.mgr].refresh(n.path)
                    n.temp = {}
                else:
                    pms[n.mgr].reset(n.path)
                    n.persisted, n.temp = {}, {}
                for m in net.deps(n):
                    net.use(m)
            compare_all(net, pms, before, n, f'step {step}: after {hist[-1][0]} of {n.full}')
            ctx.state([(m.full, m.touched, m.loaded, sorted(m.persisted), sorted(x.full for x in net.deps(m)))
                       for m in net.nodes])
        for n in rng.sample(net.nodes, len(net.nodes)):
            observe(net, pms, n, rng.choice(['get', 'run', 'config', 'view']), 'at the end')
        compare_all(net, pms, None, None, 'at the end')
        if ctx.events['dependents_changed']:
            ctx.case_key(hist, [(n.full, sorted(m.full for m in net.deps(n))) for n in net.nodes])
        ctx.sample = {'network': {n.full: names(net.deps(n)) for n in net.nodes}, 'operations': [repr(h) for h in hist]}


def probes(ctx):
    with World('c08p') as w:
        w.module('pm_mod', 'import vrec\n\ndef f(a=1, b=2):\n    return vrec.rec("f", dict(a=a, b=b))\n\n\n'
                           'class K:\n    def __init__(self, a=1):\n        self.a = a\n')
        pm = w.manager('pm', 'from pm_mod import K\n\npipeline_dict = {"x": [K]}\n')
        pm2 = w.manager('pm2', 'from pm_mod import f\n\npipeline_dict = {"sec": [f]}\n', files={
            'defaults/sec/section.py': 'from pyfileconf import Selector\ns = Selector()\na = s.pm.x.K.a\n'})
        pm2.run('sec.f')
        ctx.eq(w.R.calls[-1][1], {'a': 1, 'b': 2}, 'section.py referring to an item of another manager')
        try:
            pm.update(a=7, section_path_str='x.K')
        except KeyError as e:
            ctx.check(e.args == ('section',), f'updating an item a section.py depends on raised {e!r}')
            ctx.known.append('section-file-dependency-raises')
        else:
            pm2.run('sec.f')
            ctx.eq(w.R.calls[-1][1], {'a': 7, 'b': 2}, 'item whose section.py depends on an updated item')
