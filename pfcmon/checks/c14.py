"""C14: create adds exactly one entry, usable now and after loading again."""
import ast
import copy
import importlib
import os

from pfcmon import gen
from pfcmon.checks.c10 import flatten, view
from pfcmon.history import History, Manager
from pfcmon.model import ItemState, Model, Observer, OBSERVERS, snapshot_files
from pfcmon.world import World

ID = 'C14'
RULE = ('Random histories of pm.create in one or two managers (functions and classes into new, nested and existing '
        'sections, already registered elsewhere or not, from modules not imported before, with config files left over '
        'from before; specific class items; dict files written in many styles), mixed with updates, resets, refreshes, '
        'edits, uses, reloads and refused creates. After each create the new item and all others are read in every '
        'way, the dict files are executed by plain Python and must give exactly the expected structure, config files '
        'must be unchanged; a fresh session must give the same items and configurations. Non-trivial: at least one '
        'create; distinct by project and operations.')
ASSUMPTIONS = ['an item is not created twice, nor another one of the same name in the same section or imported under '
               'the same name in the same dict file',
               'the dict file holds imports and the dict only']
REQUIRED = {'creates': 500, 'creates_in_existing_section': 100, 'creates_nested': 100, 'creates_specific': 100,
            'creates_of_classes': 50, 'refused_creates': 100, 'fresh_sessions': 300, 'observations': 3000,
            'dict_files_executed': 500, 'config_files_unchanged': 1000, 'left_over_configs': 20, 'section_runs': 300,
            'creates_after_updates': 40, 'reloads_after_create': 30,
            'objects_under_other_names': 50, 'objects_imported_by_script': 50}
CASES = {'quick': 600, 'thorough': 7000}


def meaning(text):
    """Statements of a file, whatever its formatting (files are normalised when first rewritten)."""
    return sorted(ast.dump(x) for x in ast.parse(text).body)


class Create:
    def __init__(self, rng, ctx, w, h):
        self.rng, self.ctx, self.w, self.h = rng, ctx, w, h
        self.n = 0
        self.edited = set()

    def name(self):
        self.n += 1
        return self.rng.choice(['new', 'sec', 'fresh_', 'data', 'x']) + str(90 + self.n) + self.rng.choice(['', '', '', '_'])

    # -- targets ---------------------------------------------------------------
    def lists(self, tree, pre=''):
        """Sections which are plain lists, and dicts which can take further sections."""
        ls, ds = [], []
        for k, v in tree.items():
            p = f'{pre}.{k}' if pre else k
            if isinstance(v, dict):
                ds.append(p)
                a, b = self.lists(v, p)
                ls += a
                ds += b
            else:
                ls.append(p)
        return ls, ds

    def node(self, tree, path):
        for part in path.split('.'):
            tree = tree[part]
        return tree

    def put(self, tree, path, x):
        parts = path.split('.')
        for p in parts[:-1]:
            tree = tree.setdefault(p, {})
        tree.setdefault(parts[-1], []).append(x)

    def new_path(self, ds):
        rng = self.rng
        p = '.'.join(self.name() for _ in range(rng.randint(1, 3)))
        if ds and rng.random() < 0.4:
            p = rng.choice(ds) + '.' + p
        return p

    def create(self, g):
        rng, ctx, pr = self.rng, self.ctx, g.m.pr
        if any(s.persisted for s in g.m.items.values()):
            ctx.ev('creates_after_updates')
        if pr.specifics and rng.random() < 0.35:
            return self.create_specific(g)
        ls, ds = self.lists(pr.tree)
        cs = [c for l in pr.modules.values() for c in l if c not in pr.alias]
        if not cs:
            return None
        c = rng.choice(cs)
        free = [p for p in ls if c.name not in [pr.nm(x) for x in self.node(pr.tree, p)]]
        if free and rng.random() < 0.45:
            path = rng.choice(free)
            ctx.ev('creates_in_existing_section')
        else:
            path = self.new_path(ds)
        if '.' in path:
            ctx.ev('creates_nested')
        if c.kind == 'class':
            ctx.ev('creates_of_classes')
        obj = self.w.get_object(c.module, c.name)
        full = f'{path}.{c.name}'
        left = self.left_over(g, full, c.defaults())
        self.h.note(g.m.name, 'create', path, c.name, left)
        g.pm.create(path, obj)
        self.put(pr.tree, path, c)
        self.via_gone(pr, c)
        return self.registered(g, full, left)

    def via_gone(self, pr, c):
        pass

    def create_specific(self, g):
        rng, ctx, pr = self.rng, self.ctx, g.m.pr
        s = rng.choice(pr.specifics)
        ls, ds = self.lists(s['tree'])
        nm = rng.choice(['two', 'made', 'one_more', 'x', '_x']) + str(self.n) + rng.choice(['', '', '', '_'])
        self.n += 1
        if ls and rng.random() < 0.5:
            sec = rng.choice(ls)
            ctx.ev('creates_in_existing_section')
        else:
            sec = self.new_path(ds)
        if rng.random() < 0.15:
            # named like a class dict
            other = rng.choice(pr.specifics)['name']
            if sec not in ls or other not in self.node(s['tree'], sec):
                nm = other
        full = f'{s["name"]}.{sec}.{nm}'
        if '.' in sec:
            ctx.ev('creates_nested')
        ctx.ev('creates_specific')
        left = self.left_over(g, full, {**s['klass'].defaults(), s['key_attr']: nm}, s['key_attr'])
        self.h.note(g.m.name, 'create specific', full, left)
        g.pm.create(full)
        self.put(s['tree'], sec, nm)
        return self.registered(g, full, left)

    def left_over(self, g, full, defaults, key=None):
        """A config file which is there already (the item was removed from the dict before)."""
        rng = self.rng
        ks = [k for k in defaults if k != key]
        if not ks or rng.random() > 0.12:
            return None
        vals = {k: f'"left{rng.randrange(10 ** 6)}"' for k in ks}
        text = ''.join(f'{k} = {v}\n' for k, v in vals.items())
        if key:
            text += f'{key} = {defaults[key]!r}\n'
        f = os.path.join(g.m.base(), full.replace('.', '/') + '.py')
        if os.path.exists(f):
            return None
        self.w.write(f, text)
        if rng.random() < 0.5:
            # present when the project was loaded, or appearing while it is
            g.pm.reload()
            g.m.load()
            g.o.views.clear()
            self.h.ids.clear()
        self.ctx.ev('left_over_configs')
        return {**defaults, **{k: eval(v) for k, v in vals.items()}}

    def registered(self, g, full, left):
        self.ctx.ev('creates')
        old = g.m.items
        g.m.pr.index()
        new = {p: old[p] if p in old else ItemState(it, it.base_config()) for p, it in g.m.pr.items.items()}
        for p in old:
            if p in new:
                new[p].item = g.m.pr.items[p]
        assert set(new) == set(old) | {full}, (set(new) ^ set(old), full)
        g.m.items = new
        if left is not None:
            new[full].file = left
        return full

    # -- refused ---------------------------------------------------------------
    def refused(self, g):
        rng, ctx, pr = self.rng, self.ctx, g.m.pr
        ls, ds = self.lists(pr.tree)
        cs = [c for l in pr.modules.values() for c in l]
        c = rng.choice(cs)
        obj = getattr(importlib.import_module(c.module), c.name)
        kinds = {'no callable': lambda: g.pm.create(self.name()),
                 'not importable': lambda: g.pm.create(self.name(), (lambda: 1)),
                 'section below an item list': lambda: g.pm.create(rng.choice(ls) + '.deeper.more', obj),
                 }
        if ds:
            kinds['list on a dict'] = lambda: g.pm.create(rng.choice(ds), obj)
        if pr.specifics:
            s = rng.choice(pr.specifics)
            sls, sds = self.lists(s['tree'])
            kinds['specific too short'] = lambda: g.pm.create(f'{s["name"]}.abc')
            kinds['specific with a callable'] = lambda: g.pm.create(f'{s["name"]}.{rng.choice(sls)}.abc', obj)
            if sds:
                kinds['specific list on a dict'] = lambda: g.pm.create(f'{s["name"]}.{rng.choice(sds)}.abc')
        what = rng.choice(list(kinds))
        self.h.note(g.m.name, 'refused', what)
        before = snapshot_files(self.w)
        try:
            kinds[what]()
        except Exception as e:
            ctx.ev('refused_creates')
            self.h.ctx.log('   ', type(e).__name__)
        else:
            ctx.fail(f'create was not refused: {what}')
        after = snapshot_files(self.w)
        ctx.check(before == after, lambda: f'a refused create ({what}) changed '
                  f'{[k for k in set(before) | set(after) if before.get(k) != after.get(k)]}')

    # -- monitors ----------------------------------------------------------------
    def dict_files(self, g):
        """Plain Python must see exactly the expected entries."""
        ctx, pr = self.ctx, g.m.pr

        def run(path):
            ns = {}
            with open(path) as f:
                exec(compile(f.read(), path, 'exec'), ns)
            return ns

        def want(node):
            if isinstance(node, dict):
                return {k: want(v) for k, v in node.items()}
            return [want(x) if isinstance(x, dict) else getattr(importlib.import_module(x.module), x.name)
                    for x in node]
        ns = run(g.pm.pipeline_dict_path)
        ctx.eq(ns['pipeline_dict'], want(pr.tree), f'pipeline dict of {g.m.name}', ev='dict_files_executed')
        for s in pr.specifics:
            ns = run(os.path.join(self.w.folder(g.m.name), f'{s["name"]}_dict.py'))
            ctx.eq(ns['class_dict'], s['tree'], f'class dict of {g.m.name}', ev='dict_files_executed')

    def unchanged(self, before, g, full):
        """Config files of the other items and sections."""
        after = snapshot_files(self.w)
        new = {f'{g.m.name}/defaults/' + full.replace('.', '/') + '.py'} | {
            f'{g.m.name}/pipeline_dict.py'} | {f'{g.m.name}/{s["name"]}_dict.py' for s in g.m.pr.specifics}
        for k in before:
            if k in new or k in self.edited:
                continue
            self.ctx.check(k in after and meaning(before[k]) == meaning(after[k]), f'creating {full} changed {k}:\n{before[k]!r}\n{after.get(k)!r}',
                           ev='config_files_unchanged')
        for k in set(after) - set(before) - new:
            # section files are made empty for the sections which have none
            d = os.path.dirname(k).split('/')
            ok = k.endswith('/section.py') and after[k].strip() == b'' and d[1:2] == ['defaults'] and any(
                p.startswith('.'.join(d[2:]) + '.') or len(d) == 2 for h in self.h.ms if h.m.name == d[0]
                for p in h.m.items)
            self.ctx.check(ok, f'creating {full} made another file {k}: {after[k]!r}')

    def sections(self, g, full=None):
        """Running sections runs exactly their items."""
        rng, ctx, pr = self.rng, self.ctx, g.m.pr
        secs = [s for s in pr.sections if full is None or full.startswith(s + '.')]
        for sec in rng.sample(secs, min(2, len(secs))):
            leaves = flatten(pr.shape(sec))
            n0 = len(self.w.R.calls)
            g.pm.run(sec)
            want = [(pr.items[p].run_label, g.m.want(p)) for p in leaves]
            for p in leaves:
                g.m.use(p)
            ctx.eq(self.w.R.calls[n0:], want, f'running {sec} of {g.m.name}', ev='section_runs')

    def listed(self, g):
        """dir of the Selector's sections lists exactly the registered entries."""
        pr = g.m.pr

        def walk(node, path):
            names = list(node) if isinstance(node, dict) else [x if isinstance(x, str) else pr.nm(x) for x in node]
            got = [x for x in dir(view(g.m.name, path)) if x not in ('type', 'item')]
            self.ctx.check(sorted(got) == sorted(names), f'{g.m.name}.{path} lists {got}, specified {names}',
                           ev='sections_listed')
            if isinstance(node, dict):
                for k, v in node.items():
                    walk(v, f'{path}.{k}')
        for k, v in pr.tree.items():
            walk(v, k)
        for s in pr.specifics:
            for k, v in s['tree'].items():
                walk(v, f'{s["name"]}.{k}')

    def after(self, g, full, before):
        ctx, rng = self.ctx, self.rng
        self.unchanged(before, g, full)
        if rng.random() < 0.4 and '.' in full and full in g.m.pr.items and g.m.items[full].item.specific is None:
            self.sections(g, full)
        self.h.check_item(g, full, 'the created item', rng.randint(1, 4))
        self.dict_files(g)
        self.listed(g)
        self.h.check_others('another item after create', 4)


def run_case(rng, ctx):
    base = gen.project(rng, simple=rng.random() < 0.6, share_p=0.5, max_sections=2)
    # callables not registered anywhere yet
    ps = gen.params(rng, simple=True)
    base.modules['spare'] = [gen.Fn('spare', 'spare_fn', ps), gen.Kls('spare', 'SpareKl', gen.params(rng, simple=True))]
    base.modules['spare'][1].traits = gen.traits(rng)
    base.modules['spare2.deep'] = [gen.Fn('spare2.deep', 'fn_deep', gen.params(rng))]
    base.restyle(rng)
    if rng.random() < 0.2:
        base.tree = {}
        base.index()
    names = rng.choice([['pm'], ['pm'], ['pm', 'pm2']])
    with World('c14') as w:
        w.vary_imports = rng
        h = History(rng, ctx, w, base, ())
        for nm in names:
            pr = copy.deepcopy(base)
            pr.index()
            m = Model(w, pr, nm)
            pm = pr.build(w, name=nm)
            for p in pr.items:
                if rng.random() < 0.3:
                    m.write_item(rng, p)
            pm.reload()
            m.load()
            h.ms.append(Manager(m, pm, Observer(w, pm, m)))
        ctx.log(base.pipeline_dict_src(), [s['tree'] for s in base.specifics])
        c = Create(rng, ctx, w, h)
        created = 0
        for step in range(rng.randint(2, 7)):
            r = rng.random()
            g = rng.choice(h.ms)
            if r < 0.45:
                before = snapshot_files(w)
                full = c.create(g)
                if full:
                    created += 1
                    c.after(g, full, before)
            elif r < 0.55:
                c.refused(g)
                if g.m.items:
                    h.check_others('after a refused create')
                    c.sections(g)
                c.listed(g)
            elif not g.m.items:
                continue
            elif r < 0.75:
                h.update(g, rng.choice(list(g.m.items)))
            elif r < 0.8:
                h.reset(g, rng.choice(list(g.m.items)))
            elif r < 0.85:
                h.refresh(g, rng.choice(list(g.m.items)))
            elif r < 0.9:
                h.reload(g)
                if created:
                    ctx.ev('reloads_after_create')
                c.sections(g)
                c.listed(g)
            else:
                h.use(g, rng.choice(list(g.m.items)))
            h_any = [g for g in h.ms if g.m.items]
            if h_any and all(g.m.items for g in h.ms):
                h.check_others('other item')
        for g in h.ms:
            for p in g.m.items:
                h.check_item(g, p, 'at the end', 1)
        for g in h.ms:
            # persisted updates were not lost by any create
            for p in rng.sample(list(g.m.items), min(3, len(g.m.items))):
                h.refresh(g, p)
                h.check_item(g, p, 'after refresh at the end', 1)
        # a fresh session
        states = [(g.m, copy.copy(g.m.pr)) for g in h.ms]
        h.ms.clear()
        w.new_session()
        import gc
        gc.collect()
        for m, pr in states:
            kw = [(conf, None) for conf, _ in pr.class_dicts(w)]
            pm = w.manager(m.name, None, class_dicts=kw)
            m.load()
            g = Manager(m, pm, Observer(w, pm, m))
            ctx.ev('fresh_sessions')
            c.h.ids.clear()
            for p in m.items:
                for how in rng.sample(OBSERVERS, 2):
                    g.o.check(ctx, p, how, 'in a fresh session')
            c.dict_files(g)
            c.listed(g)
            if pr.sections:
                c.sections(g)
        ctx.state([o[1:3] for o in h.hist])
        if created:
            for k, n in w.import_ways.items():
                ctx.ev(k, n)
            ctx.case_key(base.pipeline_dict_src(), [o[:4] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}
