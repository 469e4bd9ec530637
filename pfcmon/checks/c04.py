"""C04: an update reaches exactly the targeted item, everywhere, and nothing else."""
import importlib
import inspect

from pfcmon import gen
from pfcmon.model import Model, Observer, OBSERVERS, check_files, fresh_value, near_value, new_value, snapshot_files
from pfcmon.util import same
from pfcmon.world import World

ID = 'C04'
RULE = ('Random projects where functions and classes are shared between items, similar section paths and one or two '
        'managers with the same items; random sequences of pm.update (dict, keywords, both; one or many keys; keys '
        'which are no parameters; persistent or not; values of any type incl. arrays, frames, functions, types) and '
        'Selector attribute assignment on items which are loaded or not, interleaved with uses of all items. A '
        'reference model gives the configuration of every item of every manager after each operation; files on disk '
        'and defaults in the source are compared with a snapshot. Non-trivial: an update which changes something; '
        'distinct by the operation sequence.')
ASSUMPTIONS = ['updates whose new value equals the current one (==) may be dropped',
               'the updated parameter is not overridden by a section.py (see known finding)']
REQUIRED = {'updates': 100, 'updates_before_load': 20, 'updates_after_load': 20, 'selector_assignments': 10,
            'others_observed': 200, 'array_updates': 5, 'unknown_keys': 10, 'source_defaults_checked': 50}
CASES = {'quick': 700, 'thorough': 9000}


def one_update(rng, ctx, w, pm, m, o, hist):
    import numpy as np
    import pandas as pd
    last = m.last_update if rng.random() < 0.3 else None    # the same once more, with nearly the same values
    path = last[0] if last else rng.choice(list(m.items))
    keys = m.free_keys(path)
    if not keys:
        return
    st = m.items[path]
    ks = last[1] if last else rng.sample(keys, rng.randint(1, len(keys)) if rng.random() < 0.4 else 1)
    now = m.want(path)
    d = {k: near_value(rng, now[k]) if last else new_value(rng, now[k]) for k in ks}
    m.last_update = (path, ks)
    if last:
        ctx.ev('near_updates')
    if rng.random() < 0.1:
        k = rng.choice(ks)
        d[k] = m.want(path)[k]          # an unchanged value
        ctx.ev('unchanged_values')
    if any(isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)) for v in d.values()):
        ctx.ev('array_updates')
    persist = rng.random() < 0.7
    ctx.ev('updates')
    ctx.ev('updates_after_load' if st.loaded else 'updates_before_load')
    r = rng.random()
    extra = {}
    if rng.random() < 0.15 and r < 0.8:
        extra = {'not_a_param': fresh_value(rng)}
        ctx.ev('unknown_keys')
    ctx.log(m.name, 'update', path, d, 'persist' if persist else 'temporary', extra)
    hist.append((m.name, path, sorted(d), persist, r < 0.8))
    given = dict(d)
    if r < 0.25:
        pm.update({**d, **extra}, section_path_str=path, pyfileconf_persist=persist)
    elif r < 0.5 and 'd_' not in d:
        pm.update(section_path_str=path, pyfileconf_persist=persist, **d, **extra)
    elif r < 0.65:
        ks = list(d)
        a, b = ks[:len(ks) // 2], ks[len(ks) // 2:]
        both = {k: now[k] if rng.random() < 0.5 else fresh_value(rng) for k in b if rng.random() < 0.3}
        if both:
            ctx.ev('keys_given_twice')      # keyword arguments win, as in dict.update
        pm.update({**{k: d[k] for k in a}, **both, **extra}, path, persist, **{k: d[k] for k in b})
    elif r < 0.8:
        pm.update_batch([dict(section_path_str=path, pyfileconf_persist=persist, **d)])
    else:
        for k, v in d.items():
            setattr(o.view(path), k, v)
        persist = True
        ctx.ev('selector_assignments')
    for k in d:
        ctx.check(d[k] is given[k], 'update changed the dictionary it was given')
    before = m.want(path)
    if any(not same(before[k], v) for k, v in d.items()):
        m.update(path, d, persist)
    # an update which changes nothing may be ignored; nothing to update in the model either
    for how in rng.sample(OBSERVERS, rng.randint(1, len(OBSERVERS))):
        o.check(ctx, path, how, 'after update of the item itself')


def run_case(rng, ctx):
    pr = gen.project(rng, simple=rng.random() < 0.5, share_p=0.6, max_sections=3)
    names = ['pm'] if rng.random() < 0.4 else rng.choice([['pm', 'pm2'], ['pm', 'other'], ['proj', 'pro']])
    with World('c04', quick_edits=rng.random() < 0.2) as w:
        ms = []
        for nm in names:
            m = Model(w, pr, nm)
            m.last_update = None
            pm = pr.build(w, name=nm)
            if rng.random() < 0.5:
                for p in pr.items:
                    if rng.random() < 0.4:
                        m.write_item(rng, p)
                pm.reload()
            m.load()
            ms.append((m, pm, Observer(w, pm, m)))
        ctx.log(pr.pipeline_dict_src())
        before = snapshot_files(w)
        sigs = source_defaults(pr)
        hist = []
        for step in range(rng.randint(2, 8)):
            r = rng.random()
            m, pm, o = rng.choice(ms)
            if r < 0.25:
                path = rng.choice(list(m.items))
                how = rng.choice(OBSERVERS)
                ctx.log(m.name, 'use', path, how)
                hist.append((m.name, path, how))
                o.check(ctx, path, how, 'using an item')
            else:
                one_update(rng, ctx, w, pm, m, o, hist)
                for _ in range(rng.randint(1, 4)):
                    m2, _, o2 = rng.choice(ms)
                    path = rng.choice(list(m2.items))
                    o2.check(ctx, path, rng.choice(OBSERVERS), 'other item after an update')
                    ctx.ev('others_observed')
            ctx.state([(m.name, p, s.loaded, s.cur is None, sorted(s.persisted)) for m, _, _ in ms
                       for p, s in m.items.items()])
        for m, _, o in ms:
            for path in rng.sample(list(m.items), len(m.items)):
                for how in rng.sample(OBSERVERS, 2):
                    o.check(ctx, path, how, 'at the end')
                    ctx.ev('others_observed')
        check_files(ctx, w, before, 'updates')
        for lab, d in source_defaults(pr).items():
            ctx.eq(d, sigs[lab], f'defaults in the source of {lab}')
            ctx.ev('source_defaults_checked')
        if hist:
            ctx.case_key(hist, pr.pipeline_dict_src())
        ctx.sample = {'operations': [repr(h) for h in hist]}


def source_defaults(pr):
    out = {}
    for mod, cs in pr.modules.items():
        pm = importlib.import_module(mod)
        for c in cs:
            f = getattr(pm, c.name)
            s = inspect.signature(f if c.kind == 'func' else f.__init__)
            out[c.label] = {k: repr(p.default) for k, p in s.parameters.items()}
    return out


def probes(ctx):
    with World('c04p') as w:
        w.module('pm_mod', 'import vrec\n\ndef f(a=1, b=2):\n    return vrec.rec("f", dict(a=a, b=b))\n')
        pm = w.manager('pm', 'from pm_mod import f\n\npipeline_dict = {"sec": [f]}\n',
                       files={'defaults/sec/section.py': 'a = 10\n'})
        pm.update(a=5, section_path_str='sec.f')
        pm.run('sec.f')
        got = w.R.calls[-1][1]
        if got == {'a': 10, 'b': 2}:
            ctx.known.append('update-under-section-override')
        else:
            ctx.eq(got, {'a': 5, 'b': 2}, 'update of a parameter which a section.py overrides')
