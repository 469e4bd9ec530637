"""C15: hooks fire exactly when specified, with what actually happens."""
import copy

from pfcmon import gen
from pfcmon.checks import c08
from pfcmon.checks.c12 import freeze
from pfcmon.history import History
from pfcmon.model import equal_value, fresh_src, fresh_value, new_value
from pfcmon.util import same
from pfcmon.world import World

ID = 'C15'
RULE = ('Random histories of effective and ineffective updates (dictionary, keywords, both, batch, setting attributes of '
        'Selector items, temporary), resets, refreshes, file edits, reloads, uses, creates and failing operations in '
        'one or two managers, loaded and not, with section overrides, under one to four recording plugins implementing '
        'subsets of the hooks, some of which add updates by return value or in place, and which come and go. The event '
        'log of every operation must equal the one predicted from a model of the configurations: per plugin exactly '
        'once, in order, around the change, with the old and new configuration, which the loaded item itself must show '
        'at that time. In networks of dependent config files and iterated runs, a trace rule is checked online: per '
        'item notifications chain from the last known configuration to a different one, and what is observed '
        'afterwards is the last one notified. Non-trivial: a change notified; distinct by operations.')
ASSUMPTIONS = ['parameters overridden by a section are not updated at the item level',
               'post_config_changed for items which are not loaded is not constrained',
               'plugins do not call the manager in hooks, except for reading']
REQUIRED = {'updates_effective': 300, 'updates_without_effect': 50, 'resets_effective': 50, 'resets_without_effect': 50,
            'refreshes_effective': 50, 'refreshes_without_effect': 50, 'unloaded_changes': 50, 'hook_events': 5000,
            'batch_updates': 50, 'hook_updates_taking_effect': 50, 'operations_failing': 30, 'uses': 100,
            'seen_old_in_item': 50, 'seen_new_in_item': 50, 'plugins_gone': 20, 'net_changes': 300,
            'net_dependents_notified': 100, 'iter_changes': 100, 'creates': 20}
CASES = {'quick': 700, 'thorough': 10000}
KINDS = ['pre_update', 'post_update', 'pre_batch', 'post_batch', 'pre_changed', 'post_changed']


class Log:
    """Events of all plugins."""

    def __init__(self, ctx, keys_of, peek=None):
        self.ctx, self.keys_of, self.peek = ctx, keys_of, peek
        self.events = []
        self.online = None

    def conf(self, manager, path, c):
        ks = self.keys_of(manager, path)
        return {k: freeze(c[k]) for k in c if k in ks}

    def add(self, plugin, kind, *rest):
        self.ctx.ev('hook_events')
        self.events.append((plugin, kind, *rest))

    def changed(self, plugin, kind, mgr, path, conf, updates):
        c, u = self.conf(mgr, path, conf), self.conf(mgr, path, updates)
        seen = self.peek(mgr, path) if self.peek else None
        self.add(plugin, kind, mgr, path, c, u, seen)
        if self.online:
            self.online(plugin, kind, mgr, path, c, u, {k: freeze(conf[k]) for k in conf})


def all_updates(d_, kwargs):
    return {k: freeze(v) for k, v in {**(d_ or {}), **kwargs}.items()}


def plugin(name, log, kinds, adds=None):
    """A plugin recording the given kinds of hooks."""
    from pyfileconf import hookimpl
    d = {}
    if 'pre_update' in kinds:
        @hookimpl
        def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
            log.add(name, 'pre_update', pm.name, section_path_str, all_updates(d_, kwargs))
            if adds:
                return adds(pm.name, section_path_str, d_, kwargs)
        d['pyfileconf_pre_update'] = pyfileconf_pre_update
    if 'post_update' in kinds:
        @hookimpl
        def pyfileconf_post_update(self, pm, d_, section_path_str, kwargs):
            log.add(name, 'post_update', pm.name, section_path_str, all_updates(d_, kwargs))
        d['pyfileconf_post_update'] = pyfileconf_post_update
    if 'pre_batch' in kinds:
        @hookimpl
        def pyfileconf_pre_update_batch(self, pm, updates):
            log.add(name, 'pre_batch', [freeze(u) for u in updates])
            return []
        d['pyfileconf_pre_update_batch'] = pyfileconf_pre_update_batch
    if 'post_batch' in kinds:
        @hookimpl
        def pyfileconf_post_update_batch(self, updates):
            log.add(name, 'post_batch', [freeze(u) for u in updates])
        d['pyfileconf_post_update_batch'] = pyfileconf_post_update_batch
    if 'pre_changed' in kinds:
        @hookimpl
        def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
            log.changed(name, 'pre_changed', manager.pipeline_manager_name, section_path_str, orig_config, updates)
        d['pyfileconf_pre_config_changed'] = pyfileconf_pre_config_changed
    if 'post_changed' in kinds:
        @hookimpl
        def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
            log.changed(name, 'post_changed', manager.pipeline_manager_name, section_path_str, new_config, updates)
        d['pyfileconf_post_config_changed'] = pyfileconf_post_config_changed
    return type('Plugin_' + name, (), d)()


# ---------------------------------------------------------------------------
class Exact:
    """Every operation against the log predicted by the model."""

    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        pr = gen.project(rng, simple=True, share_p=0.5, max_sections=2)
        names = rng.choice([['pm'], ['pm'], ['pm', 'pm2']])
        self.h = History(rng, ctx, w, pr, names, sections=rng.random() < 0.3)
        self.by_name = {g.m.name: g for g in self.h.ms}
        self.log = Log(ctx, self.keys_of, self.peek if rng.random() < 0.4 else None)
        self.plugins = {}
        self.added = None
        for _ in range(rng.randint(1, 3)):
            self.add_plugin()

    def keys_of(self, mgr, path):
        return set(self.by_name[mgr].m.items[path].file)

    def peek(self, mgr, path):
        """What the loaded item shows while the hook runs."""
        g = self.by_name[mgr]
        if not g.m.items[path].loaded:
            return None
        return g.o._attrs(g.pm.get(path), g.m.items[path].item)

    def add_plugin(self):
        rng = self.rng
        name = f'p{len(self.h.hist)}_{len(self.plugins)}'
        kinds = set(KINDS) if rng.random() < 0.5 else set(rng.sample(KINDS, rng.randint(1, 5)))
        adder = rng.random() < 0.3 and not any(a for _, _, a in self.plugins.values())
        if adder:
            kinds.add('pre_update')
        p = plugin(name, self.log, kinds, self.adds if adder else None)
        self.w.plugin(p)
        self.plugins[name] = (p, kinds, adder)

    def drop_plugin(self):
        from pyfileconf.plugin import manager as pman
        name = self.rng.choice(list(self.plugins))
        p = self.plugins.pop(name)[0]
        pman.plm.unregister(p)
        self.w.plugins.remove(p)
        self.ctx.ev('plugins_gone')

    def adds(self, mgr, path, d_, kwargs):
        """A pre_update hook which adds updates."""
        if not self.added:
            return None
        how, upd = self.added
        if how == 'return':
            return dict(upd)
        (d_ if d_ is not None else kwargs).update(upd)
        return None

    # -- the specification -----------------------------------------------------
    def changes(self, g, path, old, new, loaded, out, may):
        m = g.m
        if same(old, new):
            return
        out.append(('pre_changed', m.name, path, freeze(old), (freeze(old), freeze(new)), old if loaded else None))
        if loaded:
            out.append(('post_changed', m.name, path, freeze(new), (freeze(old), freeze(new)), new))
        else:
            may.append(len(out))
            self.ctx.ev('unloaded_changes')

    def verify(self, want, may_post, what):
        """want: list of (kind, ...) which every plugin must have seen in this order."""
        ctx = self.ctx
        got, self.log.events = self.log.events, []
        for name, (p, kinds, adder) in self.plugins.items():
            mine = [e[1:] for e in got if e[0] == name]
            if may_post:
                # not constrained: post_changed of items not loaded
                mine = [e for e in mine if not (e[0] == 'post_changed' and (e[1], e[2]) in may_post)]
            exp = [e for e in want if e[0] in kinds]
            ctx.eq([self.head(e) for e in mine], [self.head(e) for e in exp], f'{what}: events of plugin {name}',
                   ev='logs_compared')
            for a, b in zip(mine, exp):
                if a[0] in ('pre_changed', 'post_changed'):
                    ctx.eq(a[3], b[3], f'{what}: configuration seen by {a[0]}')
                    old, new = b[4]
                    ctx.eq({**old, **a[4]}, new, f'{what}: old configuration and updates given to {a[0]} '
                                                 f'do not make the new one')
                    if a[5] is not None and b[5] is not None:
                        ctx.eq(a[5], b[5], f'{what}: loaded item while {a[0]} runs')
                        ctx.ev('seen_old_in_item' if a[0] == 'pre_changed' else 'seen_new_in_item')
                elif not adder and not any(x[2] for x in self.plugins.values()):
                    ctx.eq(a[1:], b[1:], f'{what}: arguments of {a[0]}')
                elif a[0] == 'post_update':
                    ctx.eq(a[1:], b[1:], f'{what}: arguments of {a[0]}')
        # order across plugins: no plugin sees the end of an operation before another saw its beginning
        if not may_post:
            rank = {}
            for i, e in enumerate(want):
                rank.setdefault(self.head(e), []).append(i)
            seen = {}
            last = -1
            for e in got:
                if e[0] not in self.plugins:
                    ctx.fail(f'{what}: plugin {e[0]} called after being unregistered')
                k = (e[0], self.head(e[1:]))
                i = rank[k[1]][seen.get(k, 0)]
                seen[k] = seen.get(k, 0) + 1
                ctx.check(i >= last, f'{what}: {e[1]} of {e[0]} comes after {want[last][0] if last >= 0 else None}',
                          ev='order_checks')
                last = i

    def head(self, e):
        return (e[0],) + (tuple(e[1:3]) if e[0] in ('pre_changed', 'post_changed', 'pre_update', 'post_update') else ())

    # -- operations --------------------------------------------------------------
    def op(self):
        rng, ctx, h = self.rng, self.ctx, self.h
        g, path = h.pick()
        if rng.random() < 0.4 and not g.m.items[path].loaded:
            h.use(g, path)
        self.log.events.clear()
        r = rng.random()
        want, may, may_post = [], [], set()
        m = g.m
        st = m.items[path]
        if r < 0.4:
            self.update(g, path)
        elif r < 0.5:
            self.batch(g)
        elif r < 0.63:
            old, loaded = m.want(path), st.loaded
            g.o.view(path)
            how = rng.randrange(2)
            h.note(m.name, 'reset', path)
            g.pm.reset(path) if how else g.pm.reset(g.o.view(path))
            m.reset(path)
            self.simple('reset', g, path, old, loaded)
        elif r < 0.8:
            if rng.random() < 0.5:
                h.edit_file(g, path)
                self.quiet('editing a file')
            old, loaded = m.want(path), st.loaded
            h.note(m.name, 'refresh', path)
            g.pm.refresh(path)
            m.refresh(path)
            self.simple('refresh', g, path, old, loaded)
        elif r < 0.88:
            h.use(g, path)
            if rng.random() < 0.3:
                sec = path.rsplit('.', 1)[0]
                if not st.item.specific:
                    g.pm.run(sec)
                    for p in m.items:
                        if p.startswith(sec + '.'):
                            m.use(p)
            ctx.ev('uses')
            self.quiet('use')
        elif r < 0.91:
            h.reload(g)
            self.quiet('reload')
        elif r < 0.95:
            self.failing(g, path)
        else:
            if rng.random() < 0.5 and len(self.plugins) > 1:
                self.drop_plugin()
            elif len(self.plugins) < 4:
                self.add_plugin()
            h.note('plugins', sorted(self.plugins))
            self.quiet('plugins')

    def quiet(self, what):
        self.verify([], None, what)

    def simple(self, what, g, path, old, loaded):
        new = g.m.want(path)
        want, may = [], []
        self.changes(g, path, old, new, loaded, want, may)
        self.ctx.ev(f'{what}{"es" if what == "refresh" else "s"}_{"effective" if want else "without_effect"}')
        self.verify(want, {(g.m.name, path)} if may else None, f'{what} of {g.m.name}.{path}')

    def update(self, g, path):
        rng, ctx, h, m = self.rng, self.ctx, self.h, g.m
        free = m.free_keys(path)
        if not free:
            return
        old, loaded = m.want(path), m.items[path].loaded
        d = {}
        for k in rng.sample(free, rng.randint(1, len(free))):
            d[k] = equal_value(rng, old[k]) if rng.random() < 0.35 else new_value(rng, old[k])
        persist = rng.random() < 0.7
        self.added = None
        extra = {}
        if any(a for _, _, a in self.plugins.values()) and rng.random() < 0.7:
            # parameters of the update itself, too
            extra = {k: new_value(rng, old[k]) for k in rng.sample(free, rng.randint(1, min(2, len(free))))}
            self.added = (rng.choice(['return', 'return', 'in place']), extra)
        how = rng.choice(['d', 'kw', 'both', 'setattr'])
        if how == 'setattr':
            k = rng.choice(list(d))
            d, persist = {k: d[k]}, True
        if self.added and self.added[0] == 'in place':
            # in the dictionary which is used
            how = rng.choice(['d', 'kw'])
        h.note(m.name, 'update', path, d, persist, how, self.added)
        if how == 'd':
            g.pm.update(dict(d), section_path_str=path, pyfileconf_persist=persist)
        elif how == 'kw':
            g.pm.update(section_path_str=path, pyfileconf_persist=persist, **d)
        elif how == 'both':
            ks = list(d)
            a, b = ks[:len(ks) // 2], ks[len(ks) // 2:]
            g.pm.update({k: d[k] for k in a}, path, persist, **{k: d[k] for k in b})
        else:
            setattr(g.o.view(path), k, d[k])
        full = {**d, **extra}
        m.update(path, full, persist)
        new = m.want(path)
        args = {k: freeze(v) for k, v in full.items()}
        want, may = [('pre_update', m.name, path, {k: freeze(v) for k, v in d.items()})], []
        n = len(want)
        self.changes(g, path, old, new, loaded, want, may)
        if extra and any(not same(old[k], new[k]) for k in extra):
            ctx.ev('hook_updates_taking_effect')
        ctx.ev('updates_effective' if len(want) > n else 'updates_without_effect')
        want.append(('post_update', m.name, path, args))
        self.added = None
        self.verify(want, {(m.name, path)} if may else None, f'update of {m.name}.{path}')

    def batch(self, g):
        rng, ctx, h, m = self.rng, self.ctx, self.h, g.m
        ups, want, may = [], [], []
        paths = rng.sample(list(m.items), rng.randint(1, min(3, len(m.items))))
        mid = []
        for p in paths:
            free = m.free_keys(p)
            if not free:
                continue
            old, loaded = m.want(p), m.items[p].loaded
            d = {k: equal_value(rng, old[k]) if rng.random() < 0.3 else new_value(rng, old[k]) for k in rng.sample(free, 1)}
            ups.append(dict(section_path_str=p, **d))
            m.update(p, d)
            mid.append((p, old, m.want(p), loaded))
        h.note(m.name, 'batch', ups)
        g.pm.update_batch(ups)
        ctx.ev('batch_updates')
        want.append(('pre_batch', [freeze(u) for u in ups]))
        mp = set()
        for p, old, new, loaded in mid:
            n = len(may)
            self.changes(g, p, old, new, loaded, want, may)
            if len(may) > n:
                mp.add((m.name, p))
        want.append(('post_batch', [freeze(u) for u in ups]))
        self.verify(want, mp, f'batch update in {m.name}')

    def failing(self, g, path):
        rng, ctx, h, m = self.rng, self.ctx, self.h, g.m
        what = rng.choice(['update', 'reset', 'refresh', 'run', 'get', 'fails'])
        bad = rng.choice([path + 'x', path.rsplit('.', 1)[0] + '.nothing_here', 'nosuch.thing'])
        h.note(m.name, 'failing', what, bad)
        want = []
        self.added = None
        st = m.items[path]
        if what == 'fails':
            if st.item.target.kind == 'class' and not st.item.specific:
                return
            self.w.R.fail[st.item.run_label] = RuntimeError('x')
            try:
                g.pm.run(path)
            except RuntimeError:
                ctx.ev('operations_failing')
            else:
                ctx.fail('the failure of an item was lost')
            del self.w.R.fail[st.item.run_label]
            m.use(path)
            return self.quiet('a failing run')
        try:
            if what == 'update':
                g.pm.update({'a': 1}, section_path_str=bad)
            elif what == 'reset':
                g.pm.reset(bad)
            elif what == 'refresh':
                g.pm.refresh(bad)
            elif what == 'run':
                g.pm.run(bad)
            else:
                g.pm.get(bad)
        except Exception:
            ctx.ev('operations_failing')
        else:
            ctx.fail(f'{what} of {bad} succeeded')
        if what == 'update':
            # begun, but not finished
            got = [e for e in self.log.events]
            ctx.check(not [e for e in got if e[1] != 'pre_update'], f'failing update of {bad}: events {got}')
            self.log.events.clear()
            return
        self.quiet(f'failing {what}')

    def create(self):
        import importlib
        g = self.rng.choice(self.h.ms)
        c = self.rng.choice([c for l in g.m.pr.modules.values() for c in l])
        self.h.note(g.m.name, 'create', c.name)
        self.log.events.clear()
        g.pm.create('made.here', getattr(importlib.import_module(c.module), c.name))
        self.ctx.ev('creates')
        ev = [e for e in self.log.events if e[1] in ('pre_changed', 'post_changed')]
        self.ctx.check(not ev, f'creating an item notified a change: {ev}')
        self.log.events.clear()


def exact(rng, ctx, w):
    e = Exact(rng, ctx, w)
    for step in range(rng.randint(5, 14)):
        e.op()
        e.h.check_others('after the operation', 2)
        e.quiet('observing')
    e.h.check_all('at the end')
    e.quiet('observing')
    r = rng.random()
    if r < 0.15:
        # the keys are not known to the model
        e.log.keys_of = lambda m, p: set()
        e.log.peek = None
        e.create()
    elif r < 0.5:
        iterated(rng, ctx, w, e)
    ctx.case_key([o[:3] for o in e.h.hist])
    ctx.state([(p, s.loaded, sorted(s.persisted)) for g in e.h.ms for p, s in g.m.items.items()])
    return [repr(o)[:200] for o in e.h.hist]


# ---------------------------------------------------------------------------
class Trace:
    """Online: notifications of an item chain from its last known configuration."""

    def __init__(self, ctx, plugin_name):
        self.ctx, self.plugin = ctx, plugin_name
        self.known, self.open, self.loaded = {}, {}, set()
        self.n = 0

    def __call__(self, plugin, kind, mgr, path, conf, updates, whole):
        if plugin != self.plugin:
            return
        ctx, k = self.ctx, (mgr, path)
        if kind == 'pre_changed':
            ctx.check(k not in self.open or k not in self.loaded,
                      f'{k} notified twice before a change without one after it', ev='trace_checks')
            if k in self.known:
                ctx.eq(conf, self.known[k], f'old configuration of {k} in pre_config_changed', ev='trace_checks')
            self.open[k] = (conf, updates, whole)
        else:
            ctx.check(k in self.open, f'{k} notified after a change without one before it', ev='trace_checks')
            old, ups, whole_old = self.open.pop(k)
            # helper names of the config file belong to the configuration here
            ctx.check(not same(whole_old, whole), f'{k}: post_config_changed although nothing changed: {whole_old}',
                      ev='trace_checks')
            ctx.eq({**old, **updates}, conf, f'{k}: updates in post_config_changed do not make the new configuration')
            self.known[k] = conf
            self.n += 1

    def settled(self, what):
        for k in self.open:
            self.ctx.check(k not in self.loaded, f'{what}: {k} (loaded) was notified before a change, but not after')
            old, ups, _ = self.open[k]
            self.known[k] = {**old, **ups}
        self.open.clear()

    def observe(self, k, conf, what):
        if k in self.known:
            self.ctx.eq(freeze(conf), self.known[k], f'{what}: configuration of {k} against the last notification',
                        ev='trace_observations')
        else:
            self.known[k] = freeze(conf)


def iterated(rng, ctx, w, e):
    """run_iter makes many updates."""
    h = e.h
    g = rng.choice(h.ms)
    # an item of a section with overrides takes part with them
    paths = [p for p in g.m.items if g.m.free_keys(p) and not g.m.overlay(p)]
    if not paths:
        return
    ps = rng.sample(paths, min(len(paths), rng.randint(1, 2)))
    tr = Trace(ctx, 'trace')
    for gg in h.ms:
        for p in gg.m.items:
            if gg.m.items[p].loaded:
                tr.loaded.add((gg.m.name, p))
                tr.known[gg.m.name, p] = freeze(gg.m.want(p))
    w.plugin(plugin('trace', e.log, {'pre_changed', 'post_changed'}))
    e.log.online = tr
    e.log.peek = None
    ups = []
    for p in ps:
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(g.m.free_keys(p))
            ups.append(dict(section_path_str=p, **{k: fresh_value(rng)}))
    run = rng.choice(list(g.m.items))
    h.note(g.m.name, 'run_iter', run, ups)
    n0 = tr.n
    g.pm.run_product(run, ups)
    ctx.ev('iter_changes', tr.n - n0)
    tr.settled('run_iter')
    for gg in h.ms:
        for p in gg.m.items:
            tr.observe((gg.m.name, p), gg.o._attrs(gg.pm.get(p), gg.m.items[p].item), 'after run_iter')


def network(rng, ctx, w):
    net, pms = c08.build(rng, ctx, w)
    log = Log(ctx, lambda mgr, path: next((set(n.exprs) for n in net.nodes if (n.mgr, n.path) == (mgr, path)), set()))
    tr = Trace(ctx, 'trace')
    log.online = tr
    w.plugin(plugin('trace', log, {'pre_changed', 'post_changed'}))
    hist = []

    def look(what, some):
        for n in some:
            tr.observe((n.mgr, n.path), c08.attrs(n, pms[n.mgr].get(n.path)), what)
            tr.loaded.add((n.mgr, n.path))
    for n in rng.sample(net.nodes, rng.randint(1, len(net.nodes))):
        if rng.random() < 0.3:
            pms[n.mgr].run(n.path)
    look('at first', net.nodes)
    for _ in range(rng.randint(3, 9)):
        n = rng.choice(net.nodes)
        pm = pms[n.mgr]
        free = n.free()
        r = rng.random()
        net.ticks = 0
        n0 = tr.n
        log.events.clear()
        if r < 0.5 and free:
            d = {k: fresh_value(rng) for k in rng.sample(free, 1)}
            hist.append(('update', n.full, sorted(d)))
            ctx.log('update', n.full, d)
            pm.update(d, section_path_str=n.path)
        elif r < 0.6:
            hist.append(('reset', n.full))
            ctx.log('reset', n.full)
            pm.reset(n.path)
        elif r < 0.7:
            hist.append(('refresh', n.full))
            ctx.log('refresh', n.full)
            pm.refresh(n.path)
        elif r < 0.85:
            n.exprs = net.random_exprs(n, 0.3)
            c08.write(net, n)
            hist.append(('edit', n.full))
            ctx.log('edit and refresh', n.full)
            pm.refresh(n.path)
        else:
            hist.append(('run', n.full))
            ctx.log('run', n.full)
            pm.run(n.path)
            ctx.check(tr.n == n0, 'running an item notified changes')
        tr.settled(repr(hist[-1]))
        ctx.ev('net_changes', tr.n - n0)
        ctx.ev('net_dependents_notified', len({e[2:4] for e in log.events} - {(n.mgr, n.path)}))
        look(f'after {hist[-1]}', rng.sample(net.nodes, len(net.nodes)))
    ctx.case_key(hist)
    ctx.state(hist)
    return [repr(x) for x in hist]


def run_case(rng, ctx):
    with World('c15') as w:
        f = network if rng.random() < 0.25 else exact
        ops = f(rng, ctx, w)
        ctx.sample = {'kind': f.__name__, 'operations': ops}
