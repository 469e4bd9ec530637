"""C06: reset and reload return configuration to the files."""
from pfcmon import gen
from pfcmon.history import History
from pfcmon.world import World

ID = 'C06'
RULE = ('Random histories of updates, file edits, resets (by path and by Selector item), refreshes, reloads (also '
        'with added and removed dict entries) and uses, in one or two managers. A reference model predicts every '
        'configuration; reset must act in place and on that item only, discarded updates must not come back with '
        'later refreshes. Non-trivial: a reset or reload discarding updates; distinct by operation sequence.')
ASSUMPTIONS = ['a config file keeps defining every parameter it defined when it was loaded']
REQUIRED = {'resets_changing': 50, 'resets_discarding_updates': 50, 'reloads': 30, 'refreshes_without_change': 10,
            'file_edits': 30, 'identity_checks': 100, 'others_observed': 100, 'dict_changes': 10}
CASES = {'quick': 700, 'thorough': 9000}


def change_dict(rng, ctx, h):
    """Add or remove entries of the dict files; they must be there, or gone, after reload."""
    from pfcmon.model import ItemState
    pr = h.pr
    old = set(pr.items)
    if rng.random() < 0.4 and len(pr.tree) > 1:
        pr.tree.pop(rng.choice(list(pr.tree)))
    if rng.random() < 0.7:
        cs = [c for mod, l in pr.modules.items() for c in l if not mod.startswith('sm')]
        pr.tree[f'added{len(h.hist)}'] = rng.sample(cs, 1)
    for s in pr.specifics:
        if rng.random() < 0.5:
            s['tree'].setdefault('s_new', []).append(f'added{len(h.hist)}')
    pr.index()
    ctx.ev('dict_changes')
    for g in h.ms:
        h.w.write(g.pm.pipeline_dict_path, pr.pipeline_dict_src())
        for s in pr.specifics:
            h.w.write(f'{h.w.folder(g.m.name)}/{s["name"]}_dict.py', pr.spec_src(s))
        new = {}
        for p, it in pr.items.items():
            if p in g.m.items:
                new[p] = g.m.items[p]
                new[p].item = it
            else:
                new[p] = ItemState(it, it.base_config())
        g.m.items = new
    for g in h.ms:
        h.reload(g)
        for p in old - set(pr.items):
            try:
                g.pm.get(p)
            except Exception:
                ctx.ev('removed_items_gone')
            else:
                ctx.fail(f'{g.m.name}.{p} is still there after it was removed from the dict and reload')


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.6, max_sections=2)
    names = rng.choice([['pm'], ['pm'], ['pm', 'pm2']])
    with World('c06') as w:
        h = History(rng, ctx, w, pr, names, sections=rng.random() < 0.3)
        for step in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.25:
                h.update()
            elif r < 0.35:
                h.edit_file()
            elif r < 0.7:
                g, path = h.pick()
                for _ in range(rng.randint(0, 2)):
                    h.update(g, path)
                if rng.random() < 0.3:
                    h.use(g, path)
                if rng.random() < 0.3:
                    h.edit_file(g, path)
                if rng.random() < 0.2:
                    h.refresh(g, path)
                h.reset(g, path)
                h.check_item(g, path, 'after reset')
                if rng.random() < 0.4:
                    if rng.random() < 0.4:
                        h.edit_file(g, path)
                    h.refresh(g, path)
                    h.check_item(g, path, 'after refresh of a reset item')
            elif r < 0.85:
                if rng.random() < 0.4:
                    change_dict(rng, ctx, h)
                else:
                    if rng.random() < 0.5:
                        h.edit_file()
                    h.reload()
                for g in h.ms:
                    for p in rng.sample(list(g.m.items), min(3, len(g.m.items))):
                        h.check_item(g, p, 'after reload', 1)
                if rng.random() < 0.5:
                    g, path = h.pick()
                    h.refresh(g, path)
                    h.check_item(g, path, 'after refresh of a reloaded item')
            else:
                h.use()
            h.check_others('other item')
            h.state()
        h.check_all('at the end')
        if any(o[1] in ('reset', 'reload') for o in h.hist):
            ctx.case_key([o[:3] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}


def probes(ctx):
    with World('c06p') as w:
        w.module('pm_mod', 'import vrec\n\ndef f(a=1, b=2):\n    return vrec.rec("f", dict(a=a, b=b))\n')
        pm = w.manager('pm', 'from pm_mod import f\n\npipeline_dict = {"sec": [f]}\n',
                       files={'defaults/sec/section.py': 'a = 10\n'})
        try:
            pm.reset('sec')
        except TypeError:
            ctx.known.append('reset-of-a-section-raises')
    with World('c06q') as w:
        w.module('pm_mod', 'import vrec\n\ndef f(a=1):\n    return vrec.rec("old", dict(a=a))\n')
        pm = w.manager('pm', 'from pm_mod import f\n\npipeline_dict = {"sec": [f]}\n')
        pm.run('sec.f')
        w.R.calls.clear()
        w.module('pm_mod', 'import vrec\n\n# edited\ndef f(a=1, b=2):\n    return vrec.rec("new", dict(a=a, b=b))\n')
        pm.reload()
        try:
            pm.run('sec.f')
        except TypeError:
            # the new parameter is passed to the old function
            pass
        if not any(label == 'new' for label, kw in w.R.calls):
            ctx.known.append('reload-keeps-the-code-of-used-items')
