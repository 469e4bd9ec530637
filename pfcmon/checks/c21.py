"""C21: what can be looked up is exactly what is registered now."""
import copy
import os
import sys

from pfcmon import gen
from pfcmon.checks.c14 import Create
from pfcmon.history import History, Manager
from pfcmon.model import ItemState, Model, Observer, snapshot_files
from pfcmon.world import World

ID = 'C21'
RULE = ('Random histories over one to three managers (also ones which are not loaded yet): loading, reloading after '
        'the pipeline dict and the class dicts were rewritten (items and sections added, removed, moved, renamed, '
        'emptied), creating items, replacing a manager by another of the same name, using items. All along Selectors '
        'and views are made and kept. After every step dir() of managers, of Selectors and of their views of managers, '
        'class dicts, sections and items, membership of paths in Selectors (all registered paths; removed ones, '
        'misspelled ones, parameters, attributes and paths of other managers) and the type of items are compared with '
        'what the dict files say, through Selectors and views of every age, also within running items and within '
        'config files being executed. Looking must run, construct, import and write nothing. Non-trivial: at least '
        'one change of what is registered; distinct by project and operations.')
ASSUMPTIONS = ['no item or section has the name of a method or attribute of managers, Selectors or views',
               'paths which are looked up start with the name of a manager', 'an attribute of an item is not an item']
REQUIRED = {'listings_of_sections': 5000, 'listings_of_managers': 2000, 'listings_of_selectors': 500,
            'listings_of_items': 500, 'listings_of_class_dicts': 500, 'members': 10000, 'not_members': 10000,
            'types': 2000, 'old_selectors': 2000, 'old_views': 500, 'reloads_changed': 200, 'creates': 150,
            'replaced_managers': 50, 'not_loaded_managers': 100, 'within_items': 100, 'within_config_files': 50,
            'empty_sections': 50, 'removed_paths': 500, 'no_effects': 1000}
CASES = {'quick': 800, 'thorough': 12000}
OWN = {'type', 'item'}


class Look:
    def __init__(self, rng, ctx, w, h):
        self.rng, self.ctx, self.w, self.h = rng, ctx, w, h
        self.selectors = []      # (Selector, step it was made at)
        self.views = {}          # path -> view
        self.step = 0
        self.changed = {}        # manager -> step of the last change
        self.gone = {}           # manager -> paths which were registered once
        self.pms = {}            # name -> manager, loaded or not

    def selector(self):
        from pyfileconf import Selector
        if not self.selectors or self.rng.random() < 0.3:
            self.selectors.append((Selector(), self.step))
        s, at = self.rng.choice(self.selectors)
        if at < max(self.changed.values(), default=0):
            self.ctx.ev('old_selectors')
        return s

    def loaded(self):
        return [g for g in self.h.ms]

    # -- what is registered ----------------------------------------------------
    def nodes(self, g):
        """path -> names directly below it, None for items."""
        pr = g.m.pr
        out = {}

        def walk(node, path, name):
            if isinstance(node, dict):
                out[path] = list(node)
                for k, v in node.items():
                    walk(v, f'{path}.{k}' if path else k, name)
                return
            names = []
            for x in node:
                if isinstance(x, dict):
                    for k, v in x.items():
                        names.append(k)
                        walk(v, f'{path}.{k}', name)
                else:
                    names.append(name(x))
                    out[f'{path}.{name(x)}'] = None
            out[path] = names

        walk(pr.tree, '', pr.nm)
        for s in pr.specifics:
            walk(s['tree'], s['name'], str)
            out[''] = out[''] + [s['name']]
        return out

    def view(self, g, path, s=None):
        full = f'{g.m.name}.{path}' if path else g.m.name
        if full in self.views and self.rng.random() < 0.4:
            self.ctx.ev('old_views')
            return self.views[full]
        s = s or self.selector()
        if self.rng.random() < 0.3:
            v = s(full)
        else:
            v = s
            for part in full.split('.'):
                v = getattr(v, part)
        return self.views.setdefault(full, v)

    # -- monitors --------------------------------------------------------------
    def listing(self, what, got, names, public, ev):
        got = set(got) - OWN
        extra = {x for x in got - set(names) if x not in public}
        self.ctx.check(not extra and set(names) <= got,
                       lambda: f'{what} lists {sorted(got)}: not registered {sorted(extra)}, '
                       f'missing {sorted(set(names) - got)}', ev=ev)

    def managers(self):
        from pyfileconf import Selector
        s = self.selector()
        self.listing('dir of a Selector', dir(s), self.pms, dir(Selector), 'listings_of_selectors')
        for n in self.pms:
            self.ctx.check(n in s, f'{n} is not in a Selector', ev='members')

    def manager(self, g, nodes):
        from pyfileconf import PipelineManager
        public = dir(PipelineManager) + ['name']
        got = dir(g.pm) if self.rng.random() < 0.5 else dir(self.view(g, ''))
        self.listing(f'dir of {g.m.name}', got, nodes[''], public, 'listings_of_managers')

    def look(self, g, n=4):
        """Compare some of what can be looked up in a manager with what is registered."""
        rng, ctx, w = self.rng, self.ctx, self.w
        nodes = self.nodes(g)
        nm = g.m.name
        before = len(w.R.calls), len(w.R.inits), set(sys.modules), snapshot_files(w), self.stack()
        self.managers()
        self.manager(g, nodes)
        below = [p for p in nodes if p]
        for path in rng.sample(below, min(n, len(below))):
            s = self.selector()
            names = nodes[path]
            if rng.random() < 0.5:
                self.ctx.check(f'{nm}.{path}' in s, f'{nm}.{path} is not in a Selector', ev='members')
            v = self.view(g, path)
            if names is None:
                it = g.m.items[path].item
                if it.specific is not None:
                    want = [it.target.attr(p.name) for p in it.target.params] + ['meth']
                    missing = set(want) - set(dir(v))
                    ctx.check(not missing, f'dir of {nm}.{path} misses its {missing}', ev='listings_of_items')
                    ctx.check(v.type is self.klass(it), f'type of {nm}.{path} is {v.type}', ev='types')
            else:
                if not names:
                    ctx.ev('empty_sections')
                self.listing(f'dir of {nm}.{path}', dir(v), names, (), 'listings_of_sections')
                if '.' not in path and any(s_['name'] == path for s_ in g.m.pr.specifics):
                    ctx.ev('listings_of_class_dicts')
        s = self.selector()
        for path in below:
            ctx.check(f'{nm}.{path}' in s, lambda: f'{nm}.{path} is not in a Selector', ev='members')
        for path in self.wrong(g, nodes):
            ctx.check(f'{nm}.{path}' not in s, lambda: f'{nm}.{path} is in a Selector but not registered',
                      ev='not_members')
        after = len(w.R.calls), len(w.R.inits), set(sys.modules), snapshot_files(w), self.stack()
        for x, y, what in zip(before, after, ('called', 'constructed', 'imported', 'wrote', 'left on the stack')):
            ctx.check(x == y, lambda: f'looking up names in {nm} {what} something', ev='no_effects')
        # general items must be imported to tell their type
        for path in rng.sample(below, min(3, len(below))):
            if nodes[path] is None and g.m.items[path].item.specific is None:
                it = g.m.items[path].item
                t = self.view(g, path).type if rng.random() < 0.5 else self.selector().get_type(f'{nm}.{path}')
                import types
                want = types.FunctionType if it.target.kind == 'func' else self.klass(it)
                ctx.check(t is want, f'type of {nm}.{path} is {t}, not {want}', ev='types')

    def klass(self, it):
        import importlib
        return getattr(importlib.import_module(it.target.module), it.target.name)

    def stack(self):
        from pyfileconf import context
        return len(list(context.stack))

    def wrong(self, g, nodes):
        rng = self.rng
        out = []
        below = [p for p in nodes if p]
        for p in rng.sample(below, min(4, len(below))):
            out += [p + 'x', p[:-1], p + '_', p.upper(), p + '.nope', p + '.section']
            if nodes[p] is None:
                it = g.m.items[p].item
                out += [f'{p}.{q.name}' for q in it.target.params] + [f'{p}.__call__', f'{p}.meth', f'{p}.keywords']
            else:
                # what is directly below another section
                q = rng.choice(below)
                out += [f'{p}.{n}' for n in nodes[q] or ()]
                out += [f'{p}.{p}']
        for o in self.h.ms:
            out += rng.sample(list(o.m.items), min(2, len(o.m.items)))
        gone = [p for p in sorted(self.gone.get(g.m.name, ())) if p not in nodes]
        for p in rng.sample(gone, min(4, len(gone))):
            out.append(p)
            self.ctx.ev('removed_paths')
        known = {k for k in nodes}
        top = set(nodes[''])
        return [p for p in out if p not in known and p and not p.endswith('.') and '..' not in p]

    def unloaded(self):
        """Managers which are not loaded can be listed too, and do not disturb the others."""
        from pyfileconf import PipelineManager
        for n, pm in self.pms.items():
            if any(g.m.name == n for g in self.h.ms):
                continue
            names = [s['name'] for s in self.base.specifics]
            s = self.selector()
            got = dir(pm) if self.rng.random() < 0.5 else dir(getattr(s, n))
            self.listing(f'dir of {n}, which is not loaded,', got, (), dir(PipelineManager) + ['name'] + names,
                         'not_loaded_managers')

    # -- operations --------------------------------------------------------------
    def note_change(self, g, before):
        self.step += 1
        self.changed[g.m.name] = self.step
        self.gone.setdefault(g.m.name, set()).update(before)

    def reindex(self, g):
        pr = g.m.pr
        pr.index()
        old = g.m.items
        g.m.items = {p: old[p] if p in old and old[p].item.target is it.target else ItemState(it, it.base_config())
                     for p, it in pr.items.items()}
        for p, it in pr.items.items():
            g.m.items[p].item = it

    def rewrite(self, g):
        """Other dict files, then reload."""
        rng, pr = self.rng, g.m.pr
        before = [p for p in self.nodes(g) if p]
        cs = [c for l in pr.modules.values() for c in l if c not in [s['klass'] for s in pr.specifics]]

        free = [n for n in gen.SECTION_NAMES if n not in [s['name'] for s in pr.specifics]]

        def change(node, name, depth=0, top=False):
            if isinstance(node, dict):
                for k in list(node):
                    r = rng.random()
                    if r < 0.15:
                        del node[k]
                    elif r < 0.25:
                        new = rng.choice(free)
                        if new not in node:
                            node[new] = node.pop(k)
                    else:
                        change(node[k], name, depth + 1)
                if rng.random() < 0.4:
                    k = rng.choice(free + ['added'])
                    node.setdefault(k, rng.choice([lambda: [], lambda: [name()], lambda: {'sub': [name()]}])())
            else:
                for x in list(node):
                    if rng.random() < 0.3:
                        node.remove(x)
                    elif isinstance(x, dict):
                        for v in x.values():
                            change(v, name, depth + 1)
                if rng.random() < 0.5:
                    x = name()
                    if x not in node:
                        node.insert(rng.randint(0, len(node)), x)
        change(pr.tree, lambda: rng.choice(cs))
        self.fix(pr.tree, pr.nm)
        for s in pr.specifics:
            change(s['tree'], lambda: rng.choice(['one', 'nine', 'ten', 'abc']))
            self.fix(s['tree'], str)
        w = self.w
        folder = w.folder(g.m.name)
        w.write(os.path.join(folder, 'pipeline_dict.py'), pr.pipeline_dict_src())
        for s in pr.specifics:
            w.write(os.path.join(folder, f'{s["name"]}_dict.py'), pr.spec_src(s))
        self.clean(g, before)
        self.h.note(g.m.name, 'rewrite', pr.pipeline_dict_src(), [s['tree'] for s in pr.specifics])
        g.pm.reload()
        self.reindex(g)
        self.note_change(g, before)
        self.ctx.ev('reloads_changed')

    def clean(self, g, before):
        """Config files of what is no longer registered may be removed by the user, or not."""
        import shutil
        if self.rng.random() < 0.6:
            shutil.rmtree(os.path.join(self.w.folder(g.m.name), 'defaults'))
            os.makedirs(os.path.join(self.w.folder(g.m.name), 'defaults'))

    def fix(self, tree, name):
        """Within one section, names are unique and no section is named like an item."""
        def walk(node):
            if isinstance(node, dict):
                for v in node.values():
                    walk(v)
                return
            seen = set()
            for x in list(node):
                if isinstance(x, dict):
                    for v in x.values():
                        walk(v)
                    for k in list(x):
                        if k in seen:
                            del x[k]
                    seen |= set(x)
                elif name(x) in seen:
                    node.remove(x)
                else:
                    seen.add(name(x))
        walk(tree)
        self.consistent(tree)

    def consistent(self, tree):
        """A path is a section or an item, not both: sections' names never equal names of callables here."""

    def replace(self, g):
        """Another manager of the same name."""
        rng, w = self.rng, self.w
        before = [p for p in self.nodes(g) if p]
        pr = copy.deepcopy(self.base)
        pr.index()
        for p in list(pr.tree):
            if len(pr.tree) > 1 and rng.random() < 0.4:
                del pr.tree[p]
        pr.index()
        name = g.m.name
        import shutil
        shutil.rmtree(w.folder(name))
        load = rng.random() < 0.8
        self.h.note(name, 'replace', pr.pipeline_dict_src(), load)
        self.h.ms.remove(g)
        pm = pr.build(w, name=name, load=load)
        self.pms[name] = pm
        self.step += 1
        self.changed[name] = self.step
        self.gone.setdefault(name, set()).update(before)
        self.ctx.ev('replaced_managers')
        if not load:
            self.unloaded()
            for v in list(self.views):
                if v == name or v.startswith(name + '.'):
                    del self.views[v]
            pm.load()
        m = Model(w, pr, name)
        m.load()
        g = Manager(m, pm, Observer(w, pm, m))
        self.h.ms.append(g)
        return g

    def within_item(self, g):
        """Looking while an item runs."""
        paths = [p for p, s in g.m.items.items()]
        if not paths:
            return
        path = self.rng.choice(paths)
        label = g.m.items[path].item.run_label
        other = self.rng.choice(self.h.ms)
        n = []

        def hook(kw):
            if not n:
                n.append(1)
                self.look(other, 3)
                self.ctx.ev('within_items')
        self.w.R.hooks[label] = hook
        try:
            g.pm.run(path)
        finally:
            del self.w.R.hooks[label]

    def within_file(self, g):
        """Looking while a config file is executed."""
        rng = self.rng
        paths = [p for p, s in g.m.items.items() if g.m.free_keys(p)]
        if not paths:
            return
        path = rng.choice(paths)
        st = g.m.items[path]
        k = rng.choice(g.m.free_keys(path))
        other = rng.choice(self.h.ms)
        nodes = self.nodes(other)
        secs = [p for p, names in nodes.items() if p and names is not None]
        if not secs:
            return
        sec = rng.choice(secs)
        own = rng.choice(list(nodes)[1:])
        key = st.item.specific['key_attr'] if st.item.specific else None
        text = 'from pyfileconf import Selector\n\ns = Selector()\n\n'
        for q in st.file:
            if q == key:
                text += f'{q} = {st.file[q]!r}\n'
            elif q != k:
                text += f'{q} = None\n'
        text += f'{k} = (sorted(dir(s.{other.m.name}.{sec})), {other.m.name + "." + own!r} in s)\n'
        self.w.write(os.path.join(g.m.base(), st.item.rel_file), text)
        g.pm.reset(path)
        obj = g.pm.get(path)
        got = obj.keywords[k] if st.item.target.kind == 'func' else st.item.target.read(obj, k)
        self.ctx.eq(got, (sorted(set(nodes[sec]) | OWN), True), f'names seen by the config file of {path}',
                    ev='within_config_files')
        # later the names may be others, or gone
        self.w.write(os.path.join(g.m.base(), st.item.rel_file), '\n'.join(
            f'{k} = {got!r}' if line.startswith(f'{k} = ') else line for line in text.split('\n')))
        st.file = {q: (got if q == k else st.file[q] if q == key else None) for q in st.file}


def run_case(rng, ctx):
    base = gen.project(rng, simple=True, share_p=0.5, nested_list=rng.random() < 0.5, required_p=0.1)
    base.restyle(rng)
    nested = any(isinstance(x, dict) for sec in base.sections for x in sub(base, sec))
    names = rng.choice([['pm'], ['pm', 'pm2'], ['pm', 'p'], ['pm2', 'pm', 'other']])
    with World('c21') as w:
        h = History(rng, ctx, w, base, ())
        lk = Look(rng, ctx, w, h)
        lk.base = base
        cr = Create(rng, ctx, w, h)
        changes = 0
        pending = []
        for nm in names:
            pr = copy.deepcopy(base)
            pr.index()
            load = rng.random() < 0.7
            pm = pr.build(w, name=nm, load=load)
            lk.pms[nm] = pm
            m = Model(w, pr, nm)
            m.load()
            g = Manager(m, pm, Observer(w, pm, m))
            if load:
                h.ms.append(g)
            else:
                pending.append(g)
        ctx.log(base.pipeline_dict_src(), [s['tree'] for s in base.specifics], names)
        for _ in range(rng.randint(4, 9)):
            if pending and (not h.ms or rng.random() < 0.3):
                lk.managers()
                lk.unloaded()
                g = pending.pop(rng.randrange(len(pending)))
                h.note(g.m.name, 'load')
                g.pm.load()
                h.ms.append(g)
                lk.step += 1
                lk.changed[g.m.name] = lk.step
                changes += 1
                lk.look(g)
                continue
            g = rng.choice(h.ms)
            r = rng.random()
            if r < 0.25:
                lk.rewrite(g)
                changes += 1
            elif r < 0.45 and not any(isinstance(x, dict) for s in g.m.pr.sections for x in sub(g.m.pr, s)):
                before = [p for p in lk.nodes(g) if p]
                if cr.create(g):
                    lk.note_change(g, before)
                    changes += 1
            elif r < 0.53:
                g = lk.replace(g)
                changes += 1
            elif r < 0.6:
                h.note(g.m.name, 'reload')
                g.pm.reload()
            elif r < 0.75:
                h.note(g.m.name, 'within an item')
                lk.within_item(g)
            elif r < 0.9:
                h.note(g.m.name, 'within a file')
                lk.within_file(g)
            elif g.m.items:
                p = rng.choice(list(g.m.items))
                h.note(g.m.name, 'use', p)
                g.pm.get(p)
            lk.look(g)
            if len(h.ms) > 1:
                lk.look(rng.choice(h.ms), 2)
            lk.unloaded()
        ctx.state([(g.m.name, sorted(lk.nodes(g))) for g in h.ms])
        if changes:
            ctx.case_key(base.pipeline_dict_src(), [repr(o)[:300] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}


def sub(pr, path):
    node = pr.tree
    for part in path.split('.'):
        if isinstance(node, list):
            node = next(d[part] for d in node if isinstance(d, dict) and part in d)
        else:
            node = node[part]
    return node if isinstance(node, list) else []
