"""C07: items keep their identity and are updated in place."""
from pfcmon import gen
from pfcmon.history import History
from pfcmon.util import same
from pfcmon.world import World

ID = 'C07'
RULE = ('Random histories of updates, resets, refreshes and every kind of access (get, attribute, Selector item, '
        'section get, run) to items which share functions and classes, with and without _pyfileconf_update_, in one '
        'or two managers. The monitor holds the first object seen for each path and the objects each constructor '
        'call was for: same object for ever, distinct objects for distinct paths, constructed at most once and not '
        'before it is used, changed in place with only parameters of its __init__. Non-trivial: an object observed '
        'before and after a change; distinct by operation sequence.')
ASSUMPTIONS = ['objects of specific classes are created as placeholders when loading and configured on first use',
               'the manager is not loaded again']
REQUIRED = {'identity_checks': 500, 'in_place_changes': 100, 'class_changes': 20, 'update_hook_changes': 20,
            'constructions': 50, 'section_gets': 20, 'distinct_paths_compared': 100}
CASES = {'quick': 700, 'thorough': 9000}


def has_general_class(pr, path):
    from pfcmon.checks.c03 import flatten
    return any(pr.items[p].target.kind == 'class' for p in flatten(pr.shape(path)))


def section_items(node, path, got, nm):
    """Pairs of (path, object) from what pm.get of a section returned."""
    if isinstance(node, dict):
        assert isinstance(got, dict) and list(got) == list(node), f'{path}: {got}'
        for k, v in node.items():
            yield from section_items(v, f'{path}.{k}', got[k], nm)
    else:
        assert isinstance(got, list) and len(got) == len(node), f'{path}: {got}'
        for it, o in zip(node, got):
            yield f'{path}.{nm(it)}', o


def node_at(pr, path):
    parts = path.split('.')
    for s in pr.specifics:
        if s['name'] == parts[0]:
            n = s['tree']
            for p in parts[1:]:
                n = n[p]
            return n, str
    n = pr.tree
    for p in parts:
        n = n[p]
    return n, pr.nm


def access(rng, ctx, h, g, path):
    """One access by a random route; returns the object."""
    it = g.m.items[path].item
    how = rng.choice(['get', 'attr', 'view', 'getview', 'viewcall', 'section'])
    if how == 'attr':
        o = g.o.attr(path)
    elif how == 'view':
        o = g.o.view(path).item
    elif how == 'getview':
        o = g.pm.get(g.o.view(path))
    elif how == 'viewcall' and it.target.kind == 'class' and it.specific is None:
        o = g.o.view(path)()
    elif how == 'section':
        from pfcmon.checks.c03 import spec_sections
        secs = [s for s in h.pr.sections if path.startswith(s + '.') and not has_general_class(h.pr, s)]
        secs += [s for s in spec_sections(h.pr) if path.startswith(s + '.')]
        if not secs:
            return access(rng, ctx, h, g, path)
        sec = rng.choice(secs)
        node, nm = node_at(h.pr, sec)
        got = g.pm.get(sec)
        ctx.ev('section_gets')
        o = None
        try:
            pairs = list(section_items(node, sec, got, nm))
        except AssertionError as e:
            ctx.fail(f'get of section {sec} has the wrong structure: {e}')
        for p, x in pairs:
            seen(ctx, h, g, p, x, f'get of section {sec}')
            if p == path:
                o = x
    else:
        o = g.pm.get(path)
    h.note(g.m.name, 'access', path, how)
    seen(ctx, h, g, path, o, how)
    return o


def seen(ctx, h, g, path, o, why):
    g.m.use(path)
    k = (g.m.name, path)
    first = h.ids.setdefault(k, o)
    it = g.m.items[path].item
    if it.specific:
        ctx.check(any(o is x for x in h.placeholders.get(it.target.label, ())),
                  lambda: f'{why} of {k} gave {o!r}, which is not an object made at load', ev='placeholders_used')
    ctx.check(first is o, lambda: f'{why} of {k} gave another object: {o!r} before {first!r}', ev='identity_checks')


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.7, max_sections=3, update_hook_p=0.5)
    names = rng.choice([['pm'], ['pm'], ['pm', 'pm2']])
    with World('c07') as w:
        general = {c.label for cs in pr.modules.values() for c in cs
                   if c.kind == 'class' and not c.module.startswith('sm')}
        w.R.objs = []
        h = History(rng, ctx, w, pr, names)
        bad = [l for l, _ in w.R.inits if l in general]
        ctx.check(not bad, f'loading constructed {bad}')
        h.placeholders = {}
        for l, o in w.R.objs or ():
            h.placeholders.setdefault(l, []).append(o)
        w.R.objs = []
        for step in range(rng.randint(4, 14)):
            r = rng.random()
            g, path = h.pick()
            it = g.m.items[path].item
            if r < 0.45:
                access(rng, ctx, h, g, path)
            elif r < 0.6:
                h.use(g, path)
            else:
                n0 = len(w.R.objs)
                before = g.m.want(path)
                loaded = g.m.items[path].loaded
                obj = h.ids.get((g.m.name, path))
                if r < 0.85:
                    h.update(g, path)
                elif r < 0.93:
                    h.reset(g, path)
                else:
                    if rng.random() < 0.5:
                        h.edit_file(g, path)
                        loaded = g.m.items[path].loaded
                        obj = h.ids.get((g.m.name, path))
                        n0 = len(w.R.objs)
                    h.refresh(g, path)
                want = g.m.want(path)
                applied = w.R.objs[n0:]
                if not loaded:
                    ctx.check(not applied, f'changing the config of {path}, which is not in use, '
                                           f'touched objects {applied}')
                elif obj is not None:
                    ctx.eq(g.o._attrs(obj, it), want, f'the object of {g.m.name}.{path} held since its first access')
                    ctx.ev('in_place_changes')
                    if it.target.kind == 'class' and not same(want, before):
                        labs = {l for l, _ in applied}
                        if True:  # through its own code, not behind its back
                            ctx.check(all(o is obj for _, o in applied),
                                      f'changing {path} touched other objects {applied}')
                            kind = f'{it.target.label}#update' if it.target.update_hook else it.target.label
                            ctx.check(labs == {kind}, f'changing {path} called {labs}, specified {kind}')
                            params = {p.name for p in it.target.params}
                            for l, kw in w.R.inits[-len(applied):]:
                                ctx.check(set(kw) <= params,
                                          f'{l} got {sorted(kw)}, its __init__ takes {sorted(params)}')
                            ctx.ev('update_hook_changes' if it.target.update_hook else 'class_changes')
            h.check_others('other item', 2)
            # distinct paths, distinct objects; constructed at most once per path
            objs = list(h.ids.values())
            ctx.check(len({id(o) for o in objs}) == len(objs), 'one object for two paths')
            ctx.ev('distinct_paths_compared', len(objs))
            built = {}
            for l, o in w.R.objs:
                if not l.endswith('#update'):
                    built.setdefault(l, {})[id(o)] = o
            for l, os_ in built.items():
                users = [(gg.m.name, p) for gg in h.ms for p, s in gg.m.items.items()
                         if s.item.target.label == l and s.loaded]
                ctx.check(len(os_) <= len(users), f'{len(os_)} objects of {l} constructed for {users}')
                ctx.ev('constructions', len(os_))
            h.state()
        h.check_all('at the end')
        for (nm, path), o in h.ids.items():
            g = next(x for x in h.ms if x.m.name == nm)
            ctx.eq(g.o._attrs(o, g.m.items[path].item), g.m.want(path), f'held object of {nm}.{path} at the end')
        ctx.case_key([o[:3] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}


def probes(ctx):
    with World('c07p') as w:
        w.module('pm_mod', 'import vrec\n\nclass K:\n    def __init__(self, a=1):\n        self.a = a\n')
        pm = w.manager('pm', 'from pm_mod import K\n\npipeline_dict = {"sec": [K]}\n')
        import functools
        got = pm.get('sec')[0]
        if isinstance(got, functools.partial):
            ctx.known.append('section-get-of-class-gives-partial')
        else:
            ctx.check(got is pm.get('sec.K'), 'get of a section and of the class in it give different objects')
