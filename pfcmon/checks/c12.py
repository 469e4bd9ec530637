"""C12: a batch update is equivalent to its updates applied one by one."""
import os

from pfcmon import gen
from pfcmon.model import Model, Observer, OBSERVERS, check_files, fresh_value, snapshot_files
from pfcmon.util import same
from pfcmon.world import World

ID = 'C12'
RULE = ('Twin executions of the same project files in one to three managers with the same or prefix-related names '
        'and section paths: in the first world random sequences of pm.update_batch, BatchUpdater.update and '
        'BatchUpdater.reset (paths as strings, section paths, Selector items; with and without base path; repeated '
        'targets; dictionaries, keywords, temporary updates; lists, tuples, generators; plugins adding updates; '
        'entries that raise) and in the second the same updates one by one with pm.update or pm.reset of the owning '
        'manager. After every operation the configuration of items of all managers, the log of config-changed hooks, '
        'constructed objects, recorded dependencies and exceptions are compared. Non-trivial: at least two updates in '
        'one batch; distinct by the operations.')
ASSUMPTIONS = ['updates added by hooks target other parameters than those of the batch itself (their order is not '
               'specified)',
               'plugins hooking single updates are not called for batches, as documented']
REQUIRED = {'batches': 500, 'batch_entries': 1500, 'repeated_targets': 100, 'paths_as_str': 200, 'paths_as_sp': 200,
            'paths_as_view': 200, 'crossing_managers': 50, 'hook_updates': 30, 'batch_resets': 100,
            'items_compared': 2000, 'hook_events_compared': 500, 'failing_entries': 30, 'generators': 30,
            'with_base': 50, 'operations_succeeding': 1000, 'temporary_entries': 100, 'sections_targeted': 20}
CASES = {'quick': 500, 'thorough': 8000}


class View:
    """A Selector item used as a value, created anew in each world."""

    def __init__(self, full):
        self.full = full

    def __repr__(self):
        return f'View({self.full})'


def make(v):
    from pfcmon.checks.c10 import view
    if isinstance(v, View):
        nm, _, p = v.full.partition('.')
        return view(nm, p)
    return v


PARAMS = set(gen.PARAM_NAMES) | {'name', 'key_id', 'unknown_key'}


def params(conf):
    """Without the rest of the namespace of the config file."""
    return {k: freeze(conf[k]) for k in list(conf) if k in PARAMS}


def freeze(x):
    """Selector items do not outlive their world."""
    if type(x).__name__ == 'ItemView':
        return ('Selector item', x.section_path_str)
    if type(x) is dict:
        return {k: freeze(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(freeze(v) for v in x)
    return x


class Twin:
    def __init__(self, w, pr, names, files):
        from pyfileconf import hookimpl
        self.w, self.pr = w, pr
        self.log = []
        log = self.log

        class P:
            @hookimpl
            def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
                log.append(('pre', manager.pipeline_manager_name, section_path_str, params(updates), params(orig_config)))

            @hookimpl
            def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
                log.append(('post', manager.pipeline_manager_name, section_path_str, params(updates), params(new_config)))

        self.pms, self.obs, self.models = {}, {}, {}
        for nm in names:
            for rel, text in (files or {}).items():
                if rel.startswith(nm + '/'):
                    w.write(os.path.join(w.proj, rel), text)
            m = Model(w, pr, nm)
            self.models[nm] = m
            self.pms[nm] = pr.build(w, name=nm, load=files is not None)
            self.obs[nm] = Observer(w, self.pms[nm], m)
        w.plugin(P())

    def read(self, nm, path, how):
        try:
            return freeze(self.obs[nm].read(path, how))
        except Exception as e:
            return type(e).__name__

    def attempt(self, f, *a, **kw):
        try:
            f(*a, **kw)
        except Exception as e:
            return type(e).__name__
        return None


def write_files(rng, ctx, w, pr, names):
    """Let the library scaffold the projects once, edit files, and capture all of them."""
    from pfcmon.checks.c03 import write_sections
    for nm in names:
        m = Model(w, pr, nm)
        pr.build(w, name=nm)
        for p in pr.items:
            if rng.random() < 0.4:
                m.write_item(rng, p)
        if rng.random() < 0.25:
            write_sections(rng, ctx, m, pr, 0.4)
    out = {}
    for rel, data in snapshot_files(w).items():
        out[rel] = data.decode('utf8')
    return out


def entry_path(rng, ctx, how, nm, path, base):
    """How a path is given: ('str'|'sp'|'view', text)"""
    kinds = ['str', 'sp']
    if how != 'deep':
        kinds.append('view')
    k = rng.choice(kinds)
    ctx.ev('paths_as_' + k)
    if k == 'view':
        return k, f'{nm}.{path}'
    full = f'{nm}.{path}'
    return k, full[len(base) + 1:] if base else full


def give(p):
    from pyfileconf.sectionpath.sectionpath import SectionPath
    kind, text = p
    if kind == 'str':
        return text
    if kind == 'sp':
        return SectionPath(text)
    return make(View(text))


def gen_ops(rng, ctx, pr, names):
    ops = []
    all_items = list(pr.items)

    def free(path):
        it = pr.items[path]
        return [k for k in it.base_config() if it.specific is None or k != it.specific['key_attr']]

    for _ in range(rng.randint(1, 4)):
        how = rng.choice(['pm', 'bu', 'bu', 'base', 'deep'])
        base, only = None, list(names)
        if how in ('pm', 'base'):
            only = [rng.choice(names)]
            base = only[0]
        items = all_items
        if how == 'deep':
            only = [rng.choice(names)]
            sec = rng.choice(pr.sections)
            items = [p for p in all_items if p.startswith(sec + '.')]
            base = f'{only[0]}.{sec}'
            if not items:
                continue
        if base:
            ctx.ev('with_base')
        if how != 'pm' and rng.random() < 0.3:
            paths = [(rng.choice(only), rng.choice(items)) for _ in range(rng.randint(0, 4))]
            if paths and rng.random() < 0.2:
                paths.append(rng.choice(paths))
            ctx.ev('batch_resets')
            ops.append(dict(op='reset', how=how, base=base,
                            entries=[(nm, p, entry_path(rng, ctx, how, nm, p, base)) for nm, p in paths]))
            continue
        n = rng.choice([0, 1, 2, 2, 3, 4, 5, 6])
        targets = [(rng.choice(only), rng.choice(items)) for _ in range(rng.randint(1, 3))]
        entries = []
        used = set()
        for _ in range(n):
            nm, p = rng.choice(targets) if rng.random() < 0.8 else (rng.choice(only), rng.choice(items))
            ks = free(p)
            ks = rng.sample(ks, rng.randint(0, len(ks)))
            d = {k: fresh_value(rng) for k in ks}
            for k in d:
                if rng.random() < 0.1:
                    d[k] = View(f'{rng.choice(names)}.{rng.choice(all_items)}')
                    ctx.ev('view_values')
                elif rng.random() < 0.1 and entries:
                    old = rng.choice(entries)
                    if k in old['d']:
                        d[k] = old['d'][k]
            if rng.random() < 0.1:
                d['unknown_key'] = 1
            used |= {(nm, p, k) for k in d}
            entries.append(dict(nm=nm, p=p, d=d, path=entry_path(rng, ctx, how, nm, p, base),
                                split=rng.random() < 0.2, persist=None if rng.random() < 0.6 else rng.random() < 0.4))
            if entries[-1]['persist'] is False:
                ctx.ev('temporary_entries')
        if n and rng.random() < 0.12:
            bad = dict(nm=rng.choice(only), p=rng.choice(items), d={'a': fresh_value(rng)}, split=False, persist=None)
            if rng.random() < 0.5 or how == 'deep':
                bad['p'] += rng.choice(['x', '.more', '_no'])
                f = f'{bad["nm"]}.{bad["p"]}'
                bad['path'] = ('str', f[len(base) + 1:] if base else f)
            else:
                bad['p'] = 'no.such.thing'
                bad['path'] = ('str', bad['p'] if base else f'{bad["nm"]}.no.such.thing')
            if how == 'bu' and rng.random() < 0.3:
                bad['nm'] = 'nosuchmanager'
                bad['path'] = ('str', f'nosuchmanager.{bad["p"]}')
            entries.insert(rng.randint(0, len(entries)), bad)
            ctx.ev('failing_entries')
        if n and rng.random() < 0.1:
            # a whole section
            sec = rng.choice(pr.sections)
            nm = rng.choice(only)
            if how != 'deep':
                f = f'{nm}.{sec}'
                entries.append(dict(nm=nm, p=sec, d={rng.choice(gen.PARAM_NAMES): fresh_value(rng)}, split=False,
                                    persist=None, path=('str', f[len(base) + 1:] if base else f)))
                ctx.ev('sections_targeted')
        ts = [(e['nm'], e['p']) for e in entries]
        if len(set(ts)) < len(ts):
            ctx.ev('repeated_targets')
        if len({t[0] for t in ts}) > 1:
            ctx.ev('crossing_managers')
        hooks = []
        if rng.random() < 0.2 and not any(e['p'] not in pr.items for e in entries):
            for _ in range(rng.randint(1, 2)):
                extra = []
                for _ in range(rng.randint(0, 2)):
                    nm, p = rng.choice(only), rng.choice(items)
                    ks = [k for k in free(p) if (nm, p, k) not in used]
                    if ks:
                        k = rng.choice(ks)
                        used.add((nm, p, k))
                        extra.append(dict(nm=nm, p=p, d={k: fresh_value(rng)}, split=False, persist=None,
                                          path=entry_path(rng, ctx, how, nm, p, base)))
                hooks.append(extra)
        shape = rng.choice(['list', 'list', 'tuple', 'gen'])
        if shape == 'gen':
            ctx.ev('generators')
        ctx.ev('batches')
        ctx.ev('batch_entries', len(entries))
        ops.append(dict(op='update', how=how, base=base, entries=entries, hooks=hooks, shape=shape))
    for op in ops:
        op['observe'] = [(rng.choice(names), rng.choice(all_items), rng.choice(OBSERVERS))
                         for _ in range(rng.randint(2, 5))]
        op['before'] = [(rng.choice(names), rng.choice(all_items), rng.choice(OBSERVERS))
                        for _ in range(rng.randint(0, 3))]
    return ops


def as_update(e):
    d = {k: make(v) for k, v in e['d'].items()}
    out = {'section_path_str': give(e['path'])}
    if e['split']:
        out['d_'] = d
    else:
        out.update(d)
    if e['persist'] is not None:
        out['pyfileconf_persist'] = e['persist']
    return out


def one_by_one(t, e):
    from pyfileconf import PipelineManager
    d = {k: make(v) for k, v in e['d'].items()}
    kw = {} if e['persist'] is None else {'pyfileconf_persist': e['persist']}
    if e['nm'] not in t.pms:
        PipelineManager.get_manager_by_section_path_str(e['nm'])
    if e['split']:
        t.pms[e['nm']].update(d, section_path_str=e['p'], **kw)
    else:
        t.pms[e['nm']].update(section_path_str=e['p'], **kw, **d)


def play(t, ops, batch, ctx):
    """Returns everything observed."""
    from pyfileconf import context, hookimpl
    from pyfileconf.batch import BatchUpdater
    from pyfileconf.plugin import manager as pman
    seen = []
    for i, op in enumerate(ops):
        for nm, p, how in op['before']:
            seen.append((f'operation {i} before: {nm}.{p} by {how}', t.read(nm, p, how)))
        t.log.clear()
        n0 = len(t.w.R.inits)
        if op['op'] == 'reset':
            if batch:
                paths = [give(p) for _, _, p in op['entries']]
                if op['how'] == 'bu':
                    bu = BatchUpdater()
                else:
                    bu = BatchUpdater(base_section_path_str=op['base'], strip_manager_from_iv=True)
                err = t.attempt(bu.reset, paths)
            else:
                err = None
                for nm, p, _ in op['entries']:
                    err = t.attempt(t.pms[nm].reset, p)
                    if err:
                        break
        elif batch:
            updates = [as_update(e) for e in op['entries']]
            orig = [dict(u) for u in updates]
            given = updates if op['shape'] == 'list' else tuple(updates) if op['shape'] == 'tuple' else (
                u for u in updates)
            plugs = []
            for extra in op['hooks']:
                ups = [as_update(e) for e in extra]
                ctx.ev('hook_updates', len(ups))

                class P:
                    @hookimpl
                    def pyfileconf_pre_update_batch(self, pm, updates, ups=ups):
                        return ups
                plugs.append(P())
                pman.plm.register(plugs[-1])
            post = []

            class Q:
                @hookimpl
                def pyfileconf_post_update_batch(self, pm, updates):
                    post.append(updates)
            plugs.append(Q())
            pman.plm.register(plugs[-1])
            if op['how'] == 'pm':
                err = t.attempt(t.pms[op['base']].update_batch, given)
            elif op['how'] == 'bu':
                err = t.attempt(BatchUpdater().update, given)
            else:
                err = t.attempt(BatchUpdater(base_section_path_str=op['base'], strip_manager_from_iv=True).update,
                                given)
            for p in plugs:
                pman.plm.unregister(p)
            ctx.check(len(post) == (0 if err else 1) and all(x is given for x in post),
                      f'post_update_batch fired {len(post)} times (error {err})')
            ctx.check(len(updates) == len(orig) and all(
                a.keys() == b.keys() and all(a[k] is b[k] for k in a) for a, b in zip(updates, orig)),
                'the batch changed the updates it was given')
        else:
            err = None
            # hooks of the plugins registered last are called first, the batch itself comes last
            for e in [e for extra in reversed(op['hooks']) for e in extra] + op['entries']:
                err = t.attempt(one_by_one, t, e)
                if err:
                    break
        seen.append((f'operation {i}: exception', err))
        ctx.ev('operations_raising' if err else 'operations_succeeding')
        if not any(op.get('hooks', ())):
            seen.append((f'operation {i}: config change events', list(t.log)))
        seen.append((f'operation {i}: objects constructed', len(t.w.R.inits) - n0))
        for nm, p, how in op['observe']:
            seen.append((f'operation {i} after: {nm}.{p} by {how}', t.read(nm, p, how)))
            ctx.ev('items_compared')
    for nm in t.pms:
        for j, p in enumerate(t.pr.items):
            seen.append((f'at the end: {nm}.{p} by config', t.read(nm, p, 'config')))
            seen.append((f'at the end: {nm}.{p} by run', t.read(nm, p, OBSERVERS[j % len(OBSERVERS)])))
            ctx.ev('items_compared')
    for p in t.pr.items:
        for nm in t.pms:
            t.attempt(t.pms[nm].refresh, p)
            seen.append((f'after refresh: {nm}.{p}', t.read(nm, p, 'config')))
    seen.append(('dependencies', {k: sorted(x.path_str for x in v)
                                  for k, v in context.config_dependencies.items() if v}))
    return seen


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.6, max_sections=2)
    names = rng.choice([['pm'], ['pm', 'pm2'], ['pm', 'p', 'pmx'], ['sec', 'pm'], ['proj', 'project']])
    with World('c12') as w:
        files = write_files(rng, ctx, w, pr, names)
    ops = gen_ops(rng, ctx, pr, names)
    if not ops:
        return
    for op in ops:
        ctx.log(op)
    seen = []
    for batch in (True, False):
        with World('c12') as w:
            t = Twin(w, pr, names, files)
            before = snapshot_files(w)
            seen.append(play(t, ops, batch, ctx))
            check_files(ctx, w, before, 'updates')
    for (what, a), (_, b) in zip(*seen):
        if what.endswith('events'):
            ctx.ev('hook_events_compared', len(a))
        if not equal(a, b):
            ctx.fail(f'{what}: the batch gives {a!r}, one by one gives {b!r}')
    ctx.state([(op['op'], op['how'], len(op['entries']), len(op.get('hooks', ()))) for op in ops])
    if any(len(op['entries']) > 1 for op in ops):
        ctx.case_key([(op['op'], op['how'], [(e['nm'], e['p'], sorted(e['d'])) if isinstance(e, dict) else e[:2]
                                             for e in op['entries']]) for op in ops])
    ctx.sample = {'operations': [repr(op)[:300] for op in ops]}


def equal(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) or type(a[k]).__name__ == 'module' or k.startswith('__')
                                            for k in a)
    return same(a, b)
