"""C20: specific class options are honoured for every item of the class dict."""
import copy
import os

from pfcmon import gen
from pfcmon.checks.c02 import execute
from pfcmon.model import Model, Observer, OBSERVERS, fresh_value
from pfcmon.util import same
from pfcmon.world import World

ID = 'C20'
RULE = ('Random managers with one to three class dicts (some sharing one class with other options, some sharing section '
        'and item names, in one or two managers) with random key_attr, execute_attr, always_import_strs and '
        'always_assign_strs, nested sections and lists, and random class signatures. After loading (into an empty folder '
        'or onto files from another configuration of the options) each config file is executed and its names compared '
        'with the parameters and the class dict\'s own assigns, then items are constructed, observed in every way, run, '
        'updated, reset, created and reloaded, with every construction and call recorded and compared with the options '
        'of the item\'s own class dict. Distinct by class dicts and options.')
ASSUMPTIONS = ['the class stores its key parameter under the name of the parameter',
               'always_import_strs and always_assign_strs are single import and assignment statements',
               'an always assign which names a parameter does not replace its value']
REQUIRED = {'items': 3000, 'files_executed': 3000, 'always_imports': 300, 'always_assigns': 300, 'defaults_removed': 200,
            'runs': 2000, 'execute_attrs': 500, 'key_attrs': 300, 'shared_classes': 100, 'same_paths': 100,
            'nested_items': 300, 'observations': 4000, 'created': 150, 'reloads': 150, 'second_managers': 50,
            'changed_options': 100, 'always_used': 40, 'placeholders': 2000, 'constructions': 1500,
            'objects_under_other_names': 50, 'objects_imported_by_script': 50}
CASES = {'quick': 500, 'thorough': 9000}

IMPORTS = [('from copy import deepcopy', ['deepcopy']), ('import os', ['os']), ('import math as m_', ['m_']),
           ('from collections import OrderedDict as OD', ['OD']), ('from functools import partial', ['partial']),
           ('from typing import List, Dict', ['List', 'Dict']), ('import os.path as osp', ['osp']),
           ('from pyfileconf import Selector', ['Selector']), ('import string, textwrap', ['string', 'textwrap']),
           # the same under other names
           ('import math', ['math']), ('import math as m_2', ['m_2']), ('import os as os_, math', ['os_', 'math']),
           ('from collections import OrderedDict', ['OrderedDict']), ('from copy import deepcopy as dc', ['dc'])]
METHODS = ['__call__', 'execute', 'go', 'run_it']


def assigns(rng, tag):
    n = rng.randint(0, 10 ** 6)
    return [(f'my_{tag} = {n}', f'my_{tag}', n), (f'lst_{tag} = [1, {n}]', f'lst_{tag}', [1, n]),
            (f'txt_{tag} = "a = b"', f'txt_{tag}', 'a = b'), (f'shared = {n}', 'shared', n),
            (f'stuff_{tag} = list((1,))', f'stuff_{tag}', [1]), (f'd_{tag} = dict(a={n})', f'd_{tag}', dict(a=n))]


def options(rng, ctx, tag, s):
    """Random options for a class dict."""
    extra, own = {}, {}
    imps = None
    if rng.random() < 0.5:
        imps = rng.sample(IMPORTS, rng.randint(0, 3))
        extra['always_import_strs'] = [i for i, _ in imps]
        ctx.ev('always_imports' if imps else 'defaults_removed')
    if rng.random() < 0.5:
        asg = rng.sample(assigns(rng, tag), rng.randint(0, 3))
        extra['always_assign_strs'] = [a for a, _, _ in asg]
        own = {k: v for _, k, v in asg}
        ctx.ev('always_assigns' if asg else 'defaults_removed')
        if rng.random() < 0.25 and 'Selector' in [n for _, ns in imps or [] for n in ns] + (
                ['Selector'] if imps is None else []):
            extra['always_assign_strs'].append('sel = Selector()')
            own['sel'] = None
    s['extra'] = extra
    s['own'] = own
    s['imported'] = {n for _, ns in imps for n in ns} if imps is not None else {'Selector'}
    if 'always_assign_strs' not in extra:
        s['own'] = {'s': None}
        s['imported'].add('Selector')


def mixed(tree):
    """Whether some list of the tree holds a dict."""
    if isinstance(tree, dict):
        return any(mixed(v) for v in tree.values())
    return any(isinstance(v, dict) for v in tree)


class Case:
    def __init__(self, rng, ctx, w):
        self.rng, self.ctx, self.w = rng, ctx, w
        self.iterated = set()
        self.old = {}

    def tree(self, deep=0):
        rng, ctx = self.rng, self.ctx
        names = ['one', 'two', 'three', 'on', 'one1', 'abc', 'n_a_me', 'n_1', 'n_', '_n', '__n']
        out = {}
        for sec in rng.sample(['s1', 's2', 'grp', 's10', 'in_', 'one2'], rng.randint(1, 3 - min(deep, 2))):
            r = rng.random()
            if deep < 2 and r < 0.3:
                out[sec] = self.tree(deep + 1)
                ctx.ev('nested_items')
            else:
                out[sec] = rng.sample([n for n in names if n != sec], rng.randint(1, 3))
                if deep < 2 and r > 0.85:
                    out[sec].append(self.tree(2))
                    ctx.ev('nested_items')
        return out

    def klass(self, i, tag):
        rng = self.rng
        mod, name = f'{tag}cm{i}', f'Cl{tag}{i}'
        keys = [gen.Param('name', rng.choice(['None', '"dflt"', None])), gen.Param('key_id', 'None'),
                gen.Param('ident', rng.choice(['None', '5']))]
        ps = [gen.Param(k.name, k.default, rng.choice([None, 'str'])) for k in keys]
        ps += gen.params(rng, n=rng.randint(0, 3), simple=rng.random() < 0.5, required_p=0.15, kwonly_p=0,
                         reserved=('name', 'key'))
        rng.shuffle(ps)
        ps.sort(key=lambda p: p.default is not None)
        k = gen.Kls(mod, name, ps, update_hook=rng.random() < 0.2, execute='__call__')
        k.methods = METHODS
        k.traits = gen.traits(rng)
        return k

    def build(self, name, tag, others=()):
        rng, ctx, w = self.rng, self.ctx, self.w
        pr = gen.project(rng, specifics=False, simple=True, tag=tag, max_sections=1)
        kls = [self.klass(i, tag) for i in range(rng.randint(1, 2))] + list(others)
        for k in kls:
            pr.modules.setdefault(k.module, [])
            if k not in pr.modules[k.module]:
                pr.modules[k.module].append(k)
        used = []
        for i in range(rng.randint(1, 3)):
            k = rng.choice(kls)
            tree = copy.deepcopy(rng.choice(used)['tree']) if used and rng.random() < 0.4 else self.tree()
            if used and tree == used[-1]['tree']:
                ctx.ev('same_paths')
            s = dict(name=f'sp{i}', klass=k, tree=tree, key_attr=rng.choice(['name', 'name', 'key_id', 'ident']),
                     execute_attr=rng.choice(METHODS))
            if k in [u['klass'] for u in used]:
                ctx.ev('shared_classes')
            if s['key_attr'] != 'name':
                ctx.ev('key_attrs')
            if s['execute_attr'] != '__call__':
                ctx.ev('execute_attrs')
            options(rng, ctx, f'{tag}{i}', s)
            used.append(s)
            pr.specifics.append(s)
        pr.index()
        return pr

    def files(self, pr, m, why, edited=()):
        ctx, w = self.ctx, self.w
        for p, it in pr.items.items():
            if it.specific is None:
                continue
            ctx.ev('items')
            f = os.path.join(m.base(), it.rel_file)
            ctx.check(os.path.exists(f), f'{why}: no config file for {p}')
            text = w.read(f)
            try:
                ns, _ = execute(text, f)
            except Exception as e:
                ctx.fail(f'{why}: config file of {p} does not execute: {type(e).__name__}: {e}\n{text}')
            ctx.ev('files_executed')
            s = it.specific
            ctx.eq(ns.get(s['key_attr']), it.name, f'{why}: key in the config file of {p}')
            params = {q.name for q in it.target.params}
            for k in s['imported']:
                ctx.check(k in ns, f'{why}: {k} is not imported in the config file of {p}:\n{text}')
            for k, v in s['own'].items():
                ctx.check(k in ns, f'{why}: {k} is not assigned in the config file of {p}:\n{text}')
                if v is not None and k not in params:
                    # an assignment which is there already belongs to the user
                    old = self.old.get((s['name'], k), v)
                    ctx.eq(ns[k], old if p in edited and same(ns[k], old) else v, f'{why}: always assigned {k} of {p}')
            for k, v in m.items[p].file.items():
                ctx.eq(ns.get(k, 'missing'), v, f'{why}: {k} in the config file of {p}')
            if p not in edited:
                anns = {'List', 'Dict', 'Optional', 'Any', 'Union', 'Tuple', 'Callable', 'Sequence'}
                extra = set(ns) - params - s['imported'] - set(s['own']) - anns
                ctx.check(not extra, f'{why}: config file of {p} has {extra} which its class dict does not ask for:\n{text}')

    def observe(self, name, pm, m, obs, why):
        rng, ctx, R = self.rng, self.ctx, self.w.R
        from pyfileconf import Selector
        from pyfileconf.sectionpath.sectionpath import SectionPath
        import importlib
        items = [p for p, st in m.items.items() if st.item.specific is not None]
        for p in rng.sample(items, min(len(items), 6)):
            it = m.items[p].item
            s = it.specific
            n0 = len(R.inits)
            first = not m.items[p].loaded
            obs.check(ctx, p, rng.choice(OBSERVERS), why)
            if first and m.items[p].loaded:
                ctx.ev('constructions')
                mine = [kw for lab, kw in R.inits[n0:] if lab.startswith(it.target.label)]
                ctx.check(len(R.inits) - n0 == len(mine) <= 1, f'{why}: first use of {name}.{p} constructed {R.inits[n0:]}')
            obj = pm.get(p)
            m.use(p)
            klass = getattr(importlib.import_module(it.target.module), it.target.name)
            ctx.check(type(obj) is klass, f'{why}: {name}.{p} is a {type(obj)} not {klass}')
            ctx.eq(getattr(obj, s['key_attr']), m.want(p)[s['key_attr']], f'{why}: key of {name}.{p}')
            ctx.eq(getattr(obj, s['key_attr']), it.name, f'{why}: key of {name}.{p}')
            for q in ('name', 'key_id', 'ident'):
                ctx.eq(getattr(obj, q), m.want(p)[q], f'{why}: {q} of {name}.{p}')
            v = Selector()
            for part in [name] + p.split('.'):
                v = getattr(v, part)
            ctx.check(isinstance(v, klass) and v.type is klass, f'{why}: type of the Selector item {name}.{p}')
            n1 = len(R.calls)
            how = rng.randrange(4)
            if how == 0:
                pm.run(p)
            elif how == 1:
                pm.run([v])
            elif how == 2:
                v()
            else:
                pm.run_product(p, [dict(section_path_str=p)])
                self.iterated.add((name, p))    # the cases hold its whole configuration, which lasts
            ctx.ev('runs')
            ctx.eq([c[0] for c in R.calls[n1:]], [f'{it.target.label}.{s["execute_attr"]}'],
                   f'{why}: what running {name}.{p} calls ({how})')
            ctx.eq(R.calls[-1][1], m.want(p), f'{why}: configuration with which {name}.{p} runs ({how})')
            ctx.check(pm.get(p) is obj, f'{why}: {name}.{p} is another object after running it')

    def placeholders(self, pr, inits, why):
        """Whatever is constructed by loading has the key of some item of its class."""
        allowed = {}
        for it in pr.items.values():
            if it.specific is not None:
                allowed.setdefault(it.target.label, []).append((it.specific['key_attr'], it.name))
        for label, kw in inits:
            self.ctx.ev('placeholders')
            self.ctx.check(any(same(kw.get(k), n) for k, n in allowed.get(label, ())),
                           f'{why}: {label} was constructed with {kw}')

    def manager(self, pr, name, why, m=None, edited=()):
        w = self.w
        confs = pr.class_dicts(w)
        before = [copy.deepcopy({k: v for k, v in c.items() if k != 'class'}) for c, _ in confs]
        n0 = len(w.R.inits)
        pm = w.manager(name, pr.pipeline_dict_src(), class_dicts=confs, load=True)
        self.placeholders(pr, w.R.inits[n0:], why)
        self.ctx.eq([{k: v for k, v in c.items() if k != 'class'} for c, _ in confs], before, f'{why}: given class dict configs')
        m = m or Model(w, pr, name)
        m.load()
        self.files(pr, m, why, edited)
        return pm, m, Observer(w, pm, m)

    def go(self):
        rng, ctx, w = self.rng, self.ctx, self.w
        pr = self.build('pm', 'a')
        pr.write_modules(w)
        ctx.case_key([(s['name'], s['klass'].label, s['key_attr'], s['execute_attr'], repr(s['tree']), repr(s['extra']))
                      for s in pr.specifics])
        live = {}
        edited = set()
        m = None
        if rng.random() < 0.35:
            # the files come from other options
            ctx.ev('changed_options')
            now = [(s['extra'], s['own'], s['imported'], s['execute_attr']) for s in pr.specifics]
            for i, s in enumerate(pr.specifics):
                options(rng, ctx, f'old{i}', s)
                s['execute_attr'] = rng.choice(METHODS)
            pm, m, obs = self.manager(pr, 'pm', 'load with the options before')
            for p, it in pr.items.items():
                if it.specific is not None and rng.random() < 0.4:
                    m.write_item(rng, p)
            self.old = {(s['name'], k): v for s in pr.specifics for k, v in s['own'].items()}
            edited = {p for p, it in pr.items.items() if it.specific is not None}
            del pm, obs
            w.new_session()
            for s, (e, o, i, x) in zip(pr.specifics, now):
                s['extra'], s['own'], s['imported'], s['execute_attr'] = e, o, i, x
        pm, m, obs = self.manager(pr, 'pm', 'load', m, edited)
        live['pm'] = (pr, pm, m, obs)
        if rng.random() < 0.3:
            ctx.ev('second_managers')
            pr2 = self.build('pm2', 'b', [rng.choice(pr.specifics)['klass']] if rng.random() < 0.5 else [])
            # the modules of the first manager are imported already, as they are
            for mod in list(pr2.modules):
                if mod in pr.modules:
                    del pr2.modules[mod]
            pr2.write_modules(w)
            pm2, m2, obs2 = self.manager(pr2, 'pm2', 'load of a second manager')
            live['pm2'] = (pr2, pm2, m2, obs2)
        for step in range(rng.randint(3, 7)):
            name = rng.choice(list(live))
            pr, pm, m, obs = live[name]
            items = [p for p, it in pr.items.items() if it.specific is not None]
            k = rng.randrange(7)
            why = ''
            p = rng.choice(items)
            if k == 0:
                keys = m.free_keys(p)
                d = {q: fresh_value(rng) for q in rng.sample(keys, min(len(keys), 2))}
                pm.update(d, section_path_str=p)
                m.update(p, d)
                why = f'update of {p}'
            elif k == 1:
                pm.reset(p)
                m.reset(p)
                self.iterated.discard((name, p))
                why = f'reset of {p}'
            elif k == 2:
                # the assigned and imported names can be used in the file
                s = pr.items[p].specific
                keys = m.free_keys(p)
                own = {a: v for a, v in s['own'].items() if v is not None}
                if own and keys and (name, p) not in self.iterated:
                    ctx.ev('always_used')
                    a, q = rng.choice(list(own)), rng.choice(keys)
                    f = os.path.join(m.base(), pr.items[p].rel_file)
                    text = w.read(f)
                    if a not in [x.name for x in pr.items[p].target.params]:
                        w.write(f, text.rstrip('\n') + f'\n{q} = [{a}]\n')
                        # which may be older than the one asked for now
                        m.items[p].file[q] = [execute(text, f)[0][a]]
                        edited.add(p)
                        pm.refresh(p)
                        m.refresh(p)
                        why = f'refresh of {p}'
            elif k == 3:
                s = rng.choice(pr.specifics)
                secs = [x.rsplit('.', 1)[0] for x in items if x.startswith(s['name'] + '.')]
                new = rng.choice(secs) if rng.random() < 0.7 else f'{s["name"]}.fresh{step}'
                path = f'{new}.new{step}'
                if mixed(s['tree']):
                    continue        # creating among lists which hold dicts is not supported
                pm.create(path)
                ctx.ev('created')
                it = gen.Item(path, s['klass'], specific=s, name=f'new{step}')
                pr.items[path] = it
                from pfcmon.model import ItemState
                m.items[path] = ItemState(it, it.base_config())
                m.touch(path)
                node = s['tree']
                parts = path.split('.')[1:]
                for x in parts[:-2]:
                    node = node.setdefault(x, {})
                node.setdefault(parts[-2], []).append(parts[-1])
                why = f'create of {path}'
                self.files(pr, m, why, edited)
                obs.check(ctx, path, rng.choice(OBSERVERS), why)
            elif k == 4:
                pm.reload()
                ctx.ev('reloads')
                self.iterated = {(n, q) for n, q in self.iterated if n != name}
                m.load()
                why = 'reload'
                self.files(pr, m, why, edited)
            for nm in live:
                pr_, pm_, m_, obs_ = live[nm]
                self.observe(nm, pm_, m_, obs_, why or 'no operation')


def run_case(rng, ctx):
    with World('c20') as w:
        w.vary_imports = rng
        Case(rng, ctx, w).go()
        for k, n in w.import_ways.items():
            ctx.ev(k, n)
