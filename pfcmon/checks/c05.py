"""C05: refresh re-reads the file and keeps exactly the persistent updates."""
from pfcmon import gen
from pfcmon.history import History
from pfcmon.world import World

ID = 'C05'
RULE = ('Random histories of persistent and temporary updates, edits of config files, refreshes and uses, over items '
        'which share functions, in one or two managers and with section overrides, where a reference model (file, '
        'overridden by the persistent updates in order, overridden by sections) predicts the configuration and the '
        'same object must stay in place. Non-trivial: a refresh with both pending persistent updates and a changed '
        'file or temporary update; distinct by operation sequence.')
ASSUMPTIONS = ['a config file keeps defining every parameter it defined when it was loaded',
               'parameters overridden by a section are not updated at the item level at the same time']
REQUIRED = {'refreshes_changing': 50, 'refreshes_with_persistent_updates': 50, 'updates_temporary': 30,
            'file_edits': 50, 'identity_checks': 100, 'others_observed': 100,
            'refreshes_restoring_updates': 50, 'refreshes_after_quick_edits': 50}
CASES = {'quick': 700, 'thorough': 9000}


def run_case(rng, ctx):
    pr = gen.project(rng, simple=True, share_p=0.6, max_sections=2)
    names = rng.choice([['pm'], ['pm'], ['pm', 'pm2']])
    with World('c05', quick_edits=rng.random() < 0.2) as w:
        h = History(rng, ctx, w, pr, names, sections=rng.random() < 0.3)
        for step in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.3:
                h.update()
            elif r < 0.45:
                h.edit_file()
            elif r < 0.85:
                g, path = h.pick()
                if rng.random() < 0.4:
                    h.update(g, path)
                if rng.random() < 0.4:
                    h.edit_file(g, path)
                if rng.random() < 0.15:
                    # temporarily what the file says, so only the persistent updates differ
                    h.update(g, path, persist=False, back=True)
                    ctx.ev('refreshes_restoring_updates')
                if w.quick_edits:
                    ctx.ev("refreshes_after_quick_edits")
                h.refresh(g, path)
                h.check_item(g, path, 'after refresh')
            else:
                h.use()
            h.check_others('other item')
            h.state()
        h.check_all('at the end')
        if any(o[1] == 'refresh' for o in h.hist):
            ctx.case_key([o[:3] for o in h.hist])
        ctx.sample = {'operations': [repr(o)[:200] for o in h.hist]}
