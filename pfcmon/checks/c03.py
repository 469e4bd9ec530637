"""C03: config inheritance, the innermost section override of a value wins."""
import os

from pfcmon import gen
from pfcmon.model import Model, Observer, OBSERVERS, any_src, check_files, fresh_src, fresh_value, snapshot_files
from pfcmon.world import World

ID = 'C03'
RULE = ('Random nested projects (general and specific class sections, sections with similar names or named as an item), '
        'section.py files with random subsets of parameter names, unrelated names, imports and helpers at random '
        'levels, and edited item files. An independent model overlays the section values from the project inwards; '
        'every item is observed by run, section run, get, attribute, Selector and config.get, in random order, also '
        'after updates of other keys, reset, refresh, and after reloading with changed section files. Non-trivial: at '
        'least one parameter overridden by two levels or one; distinct by section contents and shape.')
ASSUMPTIONS = ['section.py does not define the key attribute of a specific class',
               'section.py contains assignments and imports',
               'parameters overridden by a section are not updated at the item level at the same time']
REQUIRED = {'overridden_params_seen': 50, 'multi_level_params_seen': 20, 'observations': 200,
            'section_runs': 10, 'foreign_names_in_sections': 20}
CASES = {'quick': 700, 'thorough': 9000}


def spec_sections(pr):
    out = []
    for s in pr.specifics:
        def walk(node, path):
            out.append(path)
            if isinstance(node, dict):
                for k, v in node.items():
                    walk(v, f'{path}.{k}')
        walk(s['tree'], s['name'])
    return out


def section_text(rng, ctx, vals):
    """Text of a section.py which evaluates to vals (plus other names)."""
    out = []
    if rng.random() < 0.3:
        out.append(rng.choice(['import os', 'from math import pi', 'import os, sys', 'from math import pi as PI']))
    if rng.random() < 0.3:
        out.append('# section wide values')
    if rng.random() < 0.3:
        out.append('from pyfileconf import Selector\ns = Selector()')
    items = list(vals.items())
    rng.shuffle(items)
    if rng.random() < 0.5:
        # names which are no parameters, among them ones which objects have as attributes
        for k in rng.sample(['not_a_parameter', 'not_a_parameter', 'meth', 'plain_attr', 'keywords', 'func'], 2):
            out.append(f'{k} = {fresh_src(rng)}')
        ctx.ev('foreign_names_in_sections')
    for i, (k, src) in enumerate(items):
        r = rng.random()
        if r < 0.15:
            out += [f'helper_{i} = {src}', f'{k} = helper_{i}']
        elif r < 0.3:
            out += [f'{k}: object = {src}']
        elif r < 0.4:
            out += [f'{k} = "overwritten below"', f'{k} = {src}']
        else:
            out.append(f'{k} = {src}')
    return '\n'.join(out) + rng.choice(['\n', '', '\n\n'])


def write_sections(rng, ctx, m, pr, p):
    allkeys = sorted({q.name for it in pr.items.values() for q in it.target.params} - {'name', 'key_id'})
    if not allkeys:
        return
    for sec in [''] + pr.sections + spec_sections(pr):
        path = os.path.join(m.base(), *(sec.split('.') if sec else []), 'section.py')
        if rng.random() > p:
            continue
        # prefer names which items below actually take
        below = sorted({q.name for ip, it in pr.items.items() if not sec or ip.startswith(sec + '.')
                        for q in it.target.params} - {'name', 'key_id'})
        pool = below if below and rng.random() < 0.8 else allkeys
        vals = {k: any_src(rng) for k in rng.sample(pool, rng.randint(0, min(3, len(pool))))}
        m.w.write_config(path, section_text(rng, ctx, vals))
        m.disk_sections[sec] = {k: eval(v) for k, v in vals.items()}


def run_case(rng, ctx):
    pr = gen.project(rng, specifics=True, simple=True, max_sections=3, share_p=0.5)
    if rng.random() < 0.4:
        # an item may have the name of its section, or of another section
        cs = [c for cs in pr.modules.values() for c in cs if not c.module.startswith('sm')]
        for c in rng.sample(cs, 1):
            c.name = rng.choice(gen.SECTION_NAMES)
            if len({x.name for x in cs}) == len(cs):
                c.label = f'{c.module}.{c.name}'
            else:
                c.name = c.label.rsplit('.', 1)[1]
        pr.index()
    with World('c03', quick_edits=rng.random() < 0.2) as w:
        pm = pr.build(w)
        m = Model(w, pr, 'pm')
        for p in pr.items:
            if rng.random() < 0.5:
                m.write_item(rng, p)
        write_sections(rng, ctx, m, pr, 0.6)
        for k, v in m.disk_sections.items():
            ctx.log('section', repr(k), v)
        ctx.log(pr.pipeline_dict_src())
        if rng.random() < 0.5:
            w.new_session()
            pm = pr.build(w)
        else:
            pm.reload()
        m.load()
        for round_ in range(rng.randint(1, 2)):
            o = Observer(w, pm, m)
            before = snapshot_files(w)
            paths = list(pr.items)
            for path in paths:
                ov = m.overlay(path)
                parts = path.split('.')[:-1]
                for k in ov:
                    ctx.ev('overridden_params_seen')
                    if sum(k in m.sections.get('.'.join(parts[:i]), {}) for i in range(len(parts) + 1)) > 1:
                        ctx.ev('multi_level_params_seen')
            rng.shuffle(paths)
            if pr.sections and rng.random() < 0.5:
                run_section(rng, ctx, pr, m, w, pm, rng.choice(pr.sections))
            for path in paths:
                for how in rng.sample(OBSERVERS, rng.randint(1, 3)):
                    o.check(ctx, path, how, 'inheritance')
                r = rng.random()
                keys = m.free_keys(path)
                if r < 0.25 and keys:
                    d = {k: fresh_value(rng) for k in rng.sample(keys, rng.randint(1, len(keys)))}
                    ctx.log('update', path, d)
                    pm.update(d, section_path_str=path)
                    m.update(path, d)
                    o.check(ctx, path, rng.choice(OBSERVERS), 'inheritance after updating other keys')
                    if rng.random() < 0.5:
                        pm.refresh(path)
                        m.refresh(path)
                        o.check(ctx, path, rng.choice(OBSERVERS), 'inheritance after refresh')
                elif r < 0.4:
                    ctx.log('reset', path)
                    pm.reset(path)
                    m.reset(path)
                    o.check(ctx, path, rng.choice(OBSERVERS), 'inheritance after reset')
                elif r < 0.5:
                    ctx.log('refresh', path)
                    pm.refresh(path)
                    m.refresh(path)
                    o.check(ctx, path, rng.choice(OBSERVERS), 'inheritance after refresh')
            for sec in pr.sections:
                if rng.random() < 0.3:
                    run_section(rng, ctx, pr, m, w, pm, sec)
            for path in rng.sample(paths, len(paths)):
                o.check(ctx, path, rng.choice(OBSERVERS), 'inheritance at the end')
            check_files(ctx, w, before, 'using items')
            ctx.state(sorted(m.sections.items(), key=str), sorted(paths))
            if round_ == 0:
                write_sections(rng, ctx, m, pr, 0.4)
                for p in pr.items:
                    if rng.random() < 0.3:
                        m.write_item(rng, p)
                ctx.log('reload with', m.disk_sections)
                pm.reload()
                m.load()
        if any(m.overlay(p) for p in pr.items):
            ctx.case_key(sorted(m.disk_sections.items(), key=str), pr.pipeline_dict_src())
        ctx.sample = {'sections': {k: repr(v) for k, v in m.disk_sections.items()}, 'items': sorted(pr.items)}


def flatten(shape):
    out = []
    for x in shape:
        out += flatten(x) if isinstance(x, list) else [x]
    return out


def run_section(rng, ctx, pr, m, w, pm, sec):
    shape = flatten(pr.shape(sec))
    n0 = len(w.R.calls)
    pm.run(sec)
    calls = w.R.calls[n0:]
    ctx.check([c[0] for c in calls] == [pr.items[p].run_label for p in shape],
              lambda: f'running section {sec} called {[c[0] for c in calls]}')
    for path, (_, kw) in zip(shape, calls):
        m.use(path)
        ctx.eq(kw, m.want(path), f'configuration of {path} when running section {sec}', ev='observations')
    ctx.ev('section_runs')
