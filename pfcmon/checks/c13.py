"""C13: a Selector item behaves as the item it stands for."""
import copy
import sys
import types

from pfcmon import gen
from pfcmon.history import History
from pfcmon.model import fresh_value
from pfcmon.util import same
from pfcmon.world import Token, World

ID = 'C13'
RULE = ('Random projects in one or two managers with the same items or prefix-related names; Selector items obtained '
        'in every way, for every registered path, held over random histories of updates, resets, refreshes, file '
        'edits and reloads. Obtaining an item must execute no user code, load no config file and import nothing; '
        'every config file reports its execution. Attributes (configuration, methods, attributes added later), calls, '
        'types, deepcopies, comparisons and hashes are compared with the item itself as given by the manager. Look ups '
        'failing in every way (unknown attribute, section, item, manager, incomplete paths, config files raising) are '
        'interleaved, after each of which the configuration of all items must be unchanged by every way of reading '
        'it. Non-trivial: a view compared with its item after an operation; distinct by project and operations.')
ASSUMPTIONS = ['items are registered in a loaded manager when the Selector is made',
               'parameters are not named like attributes of the view itself (item, type, selector)',
               'the type of a configured function is that of the function']
REQUIRED = {'views_made': 600, 'lazy_resolutions': 500, 'attributes_compared': 2000, 'calls_compared': 300,
            'calls_with_overrides': 30, 'methods_called': 100, 'deepcopies': 200, 'types_compared': 500,
            'equality_checks': 1000, 'failed_lookups': 1000, 'passed_to_run': 100, 'passed_to_get': 100,
            'passed_to_reset': 50, 'passed_as_value': 50, 'views_held_over_reload': 20, 'missing_attributes': 300,
            'observations': 3000, 'failing_config_files': 20,
            'deepcopies_in_structures': 100, 'near_misses': 1000}
CASES = {'quick': 600, 'thorough': 9000}
OWN = {'item', 'type', 'selector', 'section_path_str'}


class Monitor:
    """Counts everything which happens when something is loaded."""

    def __init__(self, w):
        self.w = w
        self.touched = []
        self.fail = set()
        sys.modules['vrec'].touch = self.touch

    def touch(self, path):
        self.touched.append(path)
        if path in self.fail:
            raise ValueError(f'config file of {path}')

    def counts(self):
        return len(self.touched), len(self.w.R.inits), len(self.w.R.calls), frozenset(sys.modules)


def instrument(w, names, pr):
    """Every config file reports being executed."""
    for nm in names:
        for p, it in pr.items.items():
            f = f'{w.folder(nm)}/defaults/{it.rel_file}'
            w.write(f, 'import vrec\n' + w.read(f).rstrip('\n') + f'\nvrec.touch({nm + "." + p!r})\n')


def make_view(rng, nm, path, selectors):
    from pyfileconf import Selector
    from pyfileconf.selector.models.itemview import ItemView
    how = rng.randrange(4)
    if how == 0:
        return ItemView.from_section_path_str(f'{nm}.{path}')
    s = rng.choice(selectors) if selectors and rng.random() < 0.6 else Selector()
    selectors.append(s)
    if how == 1:
        return s(f'{nm}.{path}')
    if how == 2:
        return ItemView(f'{nm}.{path}', s) if rng.random() < 0.5 else ItemView(f'{nm}.{path}')
    for part in [nm] + path.split('.'):
        s = getattr(s, part)
    return s


class Case:
    def __init__(self, rng, ctx, w, h, mon):
        self.rng, self.ctx, self.w, self.h, self.mon = rng, ctx, w, h, mon
        self.selectors = []
        self.views = []     # (manager, path, view)
        self.other = []

    def pick_view(self):
        rng = self.rng
        if self.views and rng.random() < 0.6:
            return rng.choice(self.views)
        g = rng.choice(self.h.ms)
        path = rng.choice(list(g.m.items))
        before = self.mon.counts()
        v = make_view(rng, g.m.name, path, self.selectors)
        repr(v), hash(v), v == v, v.section_path_str, v._section_path_str
        from pyfileconf.selector.models.itemview import is_item_view
        ok = is_item_view(v)
        after = self.mon.counts()
        ctx = self.ctx
        ctx.check(ok, f'{v!r} is no view')
        ctx.check(v.section_path_str == f'{g.m.name}.{path}', f'{v!r} for {g.m.name}.{path}')
        ctx.check(after == before, lambda: (
            f'obtaining {v!r} loaded something: config files {self.mon.touched[before[0]:]}, '
            f'objects {self.w.R.inits[before[1]:]}, calls {self.w.R.calls[before[2]:]}, '
            f'modules {sorted(after[3] - before[3])}'), ev='lazy_resolutions')
        ctx.ev('views_made')
        self.views.append((g, path, v))
        return self.views[-1]

    # -- comparisons -----------------------------------------------------------
    def the_type(self, g, path, v):
        ctx, mon = self.ctx, self.mon
        it = g.m.items[path].item
        n = mon.counts()[:3]
        import importlib
        if it.target.kind == 'func':
            want = types.FunctionType
        else:
            want = getattr(importlib.import_module(it.target.module), it.target.name)
        ctx.check(v.type is want and v.__class__ is want, f'type of {v!r} is {v.type}, specified {want}',
                  ev='types_compared')
        ctx.check(isinstance(v, want) and not isinstance(v, (int, dict)),
                  f'isinstance of {v!r}')
        ctx.check(mon.counts()[:3] == n, f'looking at the type of {v!r} executed a config file or created an object')

    def attributes(self, g, path, v):
        ctx, rng = self.ctx, self.rng
        it = g.m.items[path].item
        real = g.pm.get(path)
        g.m.use(path)
        if it.target.kind == 'func':
            names = ['func', 'args', 'keywords']
        else:
            names = [it.target.attr(p.name) for p in it.target.params] + ['meth', it.target.execute, '__init__'][:2]
            names = [n for n in names if not n.startswith('__')]
            if rng.random() < 0.3:
                real.added_later = [self.rng.random()]
            if hasattr(real, 'added_later'):
                names.append('added_later')
        ctx.check(v.item is real, f'{v!r}.item is {v.item!r}, the manager has {real!r}')
        ctx.check(v._section_path_str == real._section_path_str, '_section_path_str')
        for n in names:
            a, b = getattr(v, n), getattr(real, n)
            ok = a is b or (isinstance(b, types.MethodType) and a == b and a.__self__ is real)
            ctx.check(ok, f'{v!r}.{n} is {a!r}, of the item {b!r}', ev='attributes_compared')
            ctx.check(hasattr(v, n), f'hasattr {n}')
        for n in ['nope', '_no', 'sec', 'get', path.rpartition('.')[2], 'params']:
            if hasattr(real, n):
                continue
            self.missing(v, n)

    def missing(self, v, n):
        try:
            got = getattr(v, n)
        except AttributeError:
            self.ctx.ev('missing_attributes')
            self.ctx.ev('failed_lookups')
        except Exception as e:
            self.ctx.fail(f'{v!r}.{n} raised {type(e).__name__} instead of AttributeError: {e}')
        else:
            self.ctx.fail(f'{v!r}.{n} does not exist but gave {got!r}')
        self.ctx.check(not hasattr(v, n), f'hasattr {n}')

    def call(self, g, path, v):
        ctx, rng = self.ctx, self.rng
        it = g.m.items[path].item
        want = g.m.want(path)
        n0 = len(self.w.R.calls)
        if it.target.kind == 'class' and it.specific is None:
            got = v()
            ctx.check(got is g.pm.get(path), f'calling {v!r} gave {got!r}')
            ctx.check(len(self.w.R.calls) == n0, 'calling the view of a class called something')
        else:
            over = {}
            if it.target.kind == 'func' and rng.random() < 0.3 and it.target.params:
                over = {p.name: fresh_value(rng) for p in rng.sample(it.target.params,
                                                                     rng.randint(1, len(it.target.params)))}
                ctx.ev('calls_with_overrides')
            got = v(**over)
            calls = self.w.R.calls[n0:]
            ctx.check(len(calls) == 1 and calls[0][0] == it.run_label, f'calling {v!r} executed {calls}')
            ctx.eq(calls[0][1], {**want, **over}, f'arguments of calling {v!r}')
            ctx.check(isinstance(got, Token) and got.seq == self.w.R.seq, f'result of calling {v!r} is {got!r}')
        g.m.use(path)
        ctx.ev('calls_compared')
        if it.target.kind == 'class':
            x = rng.random()
            n0 = len(self.w.R.calls)
            how = rng.random()
            if how < 0.25 and it.specific is not None:
                # a view of the method
                got = v.selector(f'{g.m.name}.{path}.meth')(x)
                ctx.eq(g.pm.get(path)._section_path_str, f'{g.m.name}.{path}', 'section path of the item')
                ctx.ev('method_views_called')
            else:
                got = v.meth(arg=x) if how < 0.6 else v.meth(x)
            (lab, kw), = self.w.R.calls[n0:]
            ctx.eq((lab, kw), (it.target.label + '.meth', {**want, 'arg': x}), f'calling a method of {v!r}')
            ctx.check(got.seq == self.w.R.seq, 'result of the method')
            ctx.ev('methods_called')

    def deepcopy(self, g, path, v):
        ctx = self.ctx
        it = g.m.items[path].item
        want = g.m.want(path)
        if not all(isinstance(x, (int, float, str, bytes, list, tuple, dict, set, complex, type(None)))
                   for x in want.values()) or 'Thing' in repr(want):
            return
        c = copy.deepcopy([v])[0] if self.rng.random() < 0.5 else copy.deepcopy(v)
        real = g.pm.get(path)
        g.m.use(path)
        from pyfileconf.selector.models.itemview import is_item_view
        ctx.check(not is_item_view(c) and type(c) is type(real) and c is not real,
                  f'deepcopy of {v!r} is {c!r}', ev='deepcopies')
        ctx.eq(g.o._attrs(c, it), want, f'configuration of the deepcopy of {v!r}')
        # a copy shares the values of the item
        c1 = copy.copy(v)
        ctx.check(not is_item_view(c1) and type(c1) is type(real) and c1 is not real,
                  f'copy of {v!r} is {c1!r}', ev='copies')
        for k in want:
            x, y = ((o.keywords[k] if it.target.kind == 'func' else it.target.read(o, k)) for o in (c1, real))
            ctx.check(x is y, f'{k} of the copy of {v!r} is {x!r}, {k} of the item is {y!r}')
        # within one structure the item is copied once, however it is referred to
        v2 = make_view(self.rng, g.m.name, path, self.selectors)
        a, b, (d,), e = copy.deepcopy([v, v, {v2: (real,)}[v], v2])
        ctx.check(a is b and b is d and d is e, f'deepcopy of a list with {v!r} several times gives several items',
                  ev='deepcopies_in_structures')
        for k in want:
            x, y = ((o.keywords[k] if it.target.kind == 'func' else it.target.read(o, k)) for o in (c, real))
            if isinstance(x, (list, dict, set)):
                ctx.check(x is not y, f'the deepcopy of {v!r} shares {k} with the item')

    def equality(self, g, path, v):
        ctx = self.ctx
        from pyfileconf.sectionpath.sectionpath import SectionPath
        for g2, p2, u in self.views[-12:]:
            eq = (g.m.name, path) == (g2.m.name, p2)
            ctx.check((v == u) is eq and (u == v) is eq and (v != u) is (not eq), f'{v!r} == {u!r} is {v == u}',
                      ev='equality_checks')
            ctx.check((hash(v) == hash(u)) == eq, f'hash of {v!r} and {u!r}')
            ctx.check((u in {v: 1}) is eq and (u in [v]) is eq, f'{u!r} in a container of {v!r}')
        full = f'{g.m.name}.{path}'
        for near in {full.swapcase(), full.upper(), full[:-1], full + '_', full + '.x', ' ' + full, path,
                     full.replace('.', '_'), full.partition('.')[0] + '2.' + path, full.rpartition('.')[0]} - {full}:
            u = v.selector(near)
            ctx.check(not (v == u) and not (u == v) and v != u and u not in {v: 1} and hash(u) != hash(v),
                      f'{full} equals {near}', ev='near_misses')
        for x in (None, 1, f'{g.m.name}.{path}', object(), SectionPath(f'{g.m.name}.{path}')):
            ctx.check(not (v == x) and v != x, f'{v!r} == {x!r}')
        if g.m.items[path].loaded:
            ctx.check(not (v == g.pm.get(path)), f'{v!r} equals its item')

    def passed(self, g, path, v):
        ctx, rng = self.ctx, self.rng
        r = rng.randrange(4)
        if r == 0:
            n0 = len(self.w.R.calls)
            lst = rng.random() < 0.3
            res = g.pm.run([v] if lst else v)
            want = g.m.want(path)
            g.m.use(path)
            calls = self.w.R.calls[n0:]
            ctx.eq(calls, [(g.m.items[path].item.run_label, want)], f'run({v!r})')
            ctx.check((res[0] if lst else res).seq == self.w.R.seq, 'result of run')
            ctx.ev('passed_to_run')
        elif r == 1:
            ctx.check(g.pm.get(v) is g.pm.get(path), f'get({v!r})')
            g.m.use(path)
            ctx.ev('passed_to_get')
        elif r == 2:
            g.pm.reset(v)
            g.m.reset(path)
            ctx.ev('passed_to_reset')
        else:
            g2 = rng.choice(self.h.ms)
            p2 = rng.choice(list(g2.m.items))
            free = g2.m.free_keys(p2)
            if not free:
                return
            k = rng.choice(free)
            g2.pm.update({k: v}, section_path_str=p2)
            g2.m.update(p2, {k: v})
            got = g2.o.read(p2, rng.choice(['get', 'run', 'getcall', 'attr']))[k]
            g2.m.use(p2)
            ctx.check(got == v and got.item is g.pm.get(path), f'value {v!r} arrived as {got!r}')
            g.m.use(path)
            ctx.ev('passed_as_value')
            if rng.random() < 0.7:
                g2.pm.reset(p2)
                g2.m.reset(p2)

    def failing(self):
        """A look up which fails; what it raises is not the point here."""
        from pyfileconf import Selector
        from pyfileconf.selector.models.itemview import ItemView
        rng, ctx = self.rng, self.ctx
        g = rng.choice(self.h.ms)
        pm, nm = g.pm, g.m.name
        path = rng.choice(list(g.m.items))
        sec = path.rpartition('.')[0]
        bad = rng.choice(['nope', 'se', 'secc', path.rpartition('.')[2] + 'x', 'm0', 'Nope', 'section_'])
        other = rng.choice([x for x in list(g.m.items) if '.' in x])

        def chain(o, p):
            for part in p.split('.'):
                o = getattr(o, part)
            return o
        s = rng.choice(self.selectors) if self.selectors else Selector()
        strict = (AttributeError,)
        kinds = {
            'attribute of view': (lambda: chain(s, f'{nm}.{path}.{bad}'), strict),
            'attribute of called view': (lambda: getattr(s(f'{nm}.{path}'), bad), strict),
            'selector section': (lambda: chain(s, f'{nm}.{sec}.{bad}'), None),
            'selector top': (lambda: chain(s, f'{nm}.{bad}'), None),
            'selector manager': (lambda: chain(s, f'{bad}_mgr.{path}'), None),
            'view of nothing': (lambda: chain(s(f'{nm}.{sec}.{bad}'), 'a'), None),
            'manager section': (lambda: chain(pm, f'{sec}.{bad}'), strict),
            'manager top': (lambda: getattr(pm, bad), strict),
            'manager deep': (lambda: chain(pm, f'{sec}.{bad}.{bad}'), strict),
            'attribute of item': (lambda: chain(pm, f'{path}.{bad}'), strict),
            'get': (lambda: pm.get(f'{sec}.{bad}'), None),
            'get top': (lambda: pm.get(bad), None),
            'run': (lambda: pm.run(f'{sec}.{bad}'), None),
            'run list': (lambda: pm.run([f'{bad}.{sec}', path]), None),
            'update': (lambda: pm.update({'a': 1}, section_path_str=f'{sec}.{bad}'), None),
            'reset': (lambda: pm.reset(f'{sec}.{bad}'), None),
            'refresh': (lambda: pm.refresh(f'{bad}.{bad}'), None),
            'wrong type': (lambda: pm.get(3), None),
            'from str': (lambda: ItemView.from_section_path_str(f'{nm}.{sec}.{bad}'), None),
            'from str short': (lambda: ItemView.from_section_path_str(nm), None),
        }
        incomplete = {
            'incomplete manager look up': lambda: getattr(pm, sec.split('.')[0]),
            'incomplete selector look up': lambda: chain(s, f'{nm}.{sec}'),
            'call of section': lambda: chain(s, f'{nm}.{sec}')(),
            'item of section': lambda: chain(s, f'{nm}.{sec}').item,
            'hasattr': lambda: hasattr(pm, bad),
            'contains': lambda: [f'{nm}.{sec}.{bad}' in s, f'{nm}.{path}' in s],
        }
        del other
        what = rng.choice(list(kinds) + list(incomplete))
        self.h.note(nm, 'look up', what, path, bad)
        if what in incomplete:
            try:
                incomplete[what]()
            except AttributeError:
                pass
            ctx.ev('incomplete_lookups')
            return
        f, allowed = kinds[what]
        loaded_by = 'of view' in what or 'of called view' in what or what == 'attribute of item'
        try:
            got = f()
        except Exception as e:
            if allowed and not isinstance(e, allowed):
                ctx.fail(f'{what}: {path} {bad} raised {type(e).__name__} instead of AttributeError: {e}')
            ctx.ev('failed_lookups')
        else:
            ctx.fail(f'{what}: {path} {bad} gave {got!r}')
        if loaded_by:
            g.m.use(path)

    def failing_file(self):
        """A config file raising: the look up fails, and works once it does not raise any more."""
        rng, ctx = self.rng, self.ctx
        cands = [(g, p) for g in self.h.ms for p, st in g.m.items.items() if st.cur is None]
        if not cands:
            return
        g, path = rng.choice(cands)
        full = f'{g.m.name}.{path}'
        self.mon.fail.add(full)
        v = make_view(rng, g.m.name, path, self.selectors)
        n = len(self.mon.touched)
        param = g.m.items[path].item.target.params
        tries = [lambda: v.item, lambda: g.pm.get(path), lambda: g.pm.run(v), lambda: v(),
                 lambda: g.o.attr(path), lambda: g.pm.update({'a': 1}, path), lambda: g.pm.config.get(path)]
        if param:
            target = g.m.items[path].item.target
            tries.append(lambda: getattr(v, 'keywords' if target.kind == 'func' else target.attr(param[0].name)))
        f = rng.choice(tries)
        try:
            f()
        except ValueError:
            pass
        else:
            if len(self.mon.touched) > n:
                ctx.fail(f'the failure of the config file of {full} was swallowed')
            self.mon.fail.discard(full)
            if f is tries[5]:
                g.m.update(path, {'a': 1})
            return      # the instrumentation is not in the file any more
        self.mon.fail.discard(full)
        ctx.ev('failing_config_files')
        ctx.ev('failed_lookups')
        self.h.note(g.m.name, 'failing file', path)
        from pyfileconf import context
        ctx.check(not context.file_is_currently_being_loaded and context.currently_running_section_path_str is None,
                  'something is still considered to be running after a failed look up')


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.6, max_sections=2)
    if any(p.name in OWN for it in pr.items.values() for p in it.target.params):
        return
    names = rng.choice([['pm'], ['pm', 'pm2'], ['pm', 'p'], ['proj', 'project']])
    with World('c13') as w:
        mon = Monitor(w)
        h = History(rng, ctx, w, pr, names)
        if rng.random() < 0.8:
            instrument(w, names, pr)
            for g in h.ms:
                g.pm.reload()
                g.m.load()
        c = Case(rng, ctx, w, h, mon)
        ctx.log(pr.pipeline_dict_src())
        for step in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.1:
                # persistent: an item using another one is refreshed when that one changes
                h.update(persist=True)
            elif r < 0.15:
                h.reset()
            elif r < 0.18:
                h.refresh()
            elif r < 0.22:
                if c.views:
                    ctx.ev('views_held_over_reload')
                h.reload()
            elif r < 0.45:
                for _ in range(rng.randint(1, 3)):
                    c.failing()
            elif r < 0.5:
                c.failing_file()
            else:
                g, path, v = c.pick_view()
                ops = rng.sample([c.the_type, c.attributes, c.call, c.deepcopy, c.equality, c.passed, c.passed],
                                 rng.randint(1, 4))
                for op in ops:
                    h.note(g.m.name, op.__name__, path)
                    op(g, path, v)
                if rng.random() < 0.3:
                    free = g.m.free_keys(path)
                    if free:
                        k = rng.choice(free)
                        x = fresh_value(rng)
                        h.note(g.m.name, 'set attribute', path, k)
                        setattr(v, k, x)
                        g.m.update(path, {k: x})
                        c.attributes(g, path, v)
            h.check_others('after an operation')
            ctx.state([(o[1], o[2] if len(o) > 2 else None) for o in h.hist[-3:]])
        h.check_all('at the end')
        ctx.case_key(pr.pipeline_dict_src(), [o[:3] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}
